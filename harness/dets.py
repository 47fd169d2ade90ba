"""A fixed list of library requests; run in any order, on any number of threads: python dets.py SEED ORDER THREADS SHARE OUT

Results go to OUT as {label: {key: [re, im]}} (sorted).  Used by C29 (fresh processes) and C30 (in process).
"""
import json, os, sys
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import wload
import numpy as np
import gen

SCALE = {'SMEFT': 1000., 'WET': 80., 'WET-4': 3.5, 'WET-3': 2.}


def real(e, b):
    from wilson import wcxf
    return {k: bool((v or {}).get('real')) for s in wcxf.Basis[e, b].sectors.values() for k, v in s.items()}


def draw(rng, e, b, n):
    R = real(e, b)
    names = sorted(R)
    size = 1e-8
    d = {}
    for j in sorted(rng.choice(len(names), size=min(n, len(names)), replace=False)):
        k = names[j]
        z = complex(*rng.normal(size=2)) * size
        d[k] = gen.part(z, R[k])
    return d


def flat(wc):
    return {k: complex(v) for k, v in wc.dict.items()}


def requests(seed, smeft=2, wet=10):
    """[(label, function)]: each builds its own objects and returns numbers."""
    from wilson import wcxf, Wilson
    rng = np.random.default_rng([seed, 77])
    out = []

    def add(label, fn):
        out.append((f'{len(out):02d} {label}', fn))
    routes = sorted(wcxf.Translator.instances)
    for j in rng.choice(len(routes), size=wet, replace=False):
        e, a, b = routes[j]
        d = draw(rng, e, a, int(rng.choice([1, 5, 40])))
        add(f'translate {e} {a}->{b}', lambda e=e, a=a, b=b, d=d: flat(wcxf.WC(e, a, SCALE[e], wcxf.WC.dict2values(d)).translate(b)))
    for j in range(wet):
        e = ['WET', 'WET-4', 'WET-3'][j % 3]
        b = str(rng.choice(['flavio', 'JMS', 'Bern']))
        t = str(rng.choice([x for x in ('WET', 'WET-4', 'WET-3') if x >= 'WET' and ['WET', 'WET-4', 'WET-3'].index(x) >= j % 3]))
        tb = str(rng.choice(['flavio', 'JMS', 'Bern']))
        d = draw(rng, e, b, int(rng.choice([1, 5, 40])))
        par = {} if rng.random() < .5 else {'m_b': float(rng.uniform(4, 4.4)), 'alpha_s': float(rng.uniform(.115, .122)), 'Vcb': float(rng.uniform(.039, .043))}
        qed = int(rng.integers(2))
        mu = float({'WET': 10, 'WET-4': 2.5, 'WET-3': 1.1}[t] * rng.uniform(1, 1.3))

        def f(e=e, b=b, t=t, tb=tb, d=d, par=par, qed=qed, mu=mu):
            w = Wilson(d, SCALE[e], e, b)
            w.set_option('parameters', par)
            w.set_option('qed_order', qed)
            return flat(w.match_run(mu, t, tb))
        add(f'run {e} {b}->{t} {tb}', f)
    for j in range(smeft):
        b = str(rng.choice(['Warsaw', 'Warsaw up']))
        d = draw(rng, 'SMEFT', b, int(rng.choice([1, 4, 30])))
        acc = ['leadinglog', 'integrate'][int(rng.random() < .3)]
        t, tb = [('WET', 'flavio'), ('SMEFT', 'Warsaw'), ('WET', 'JMS'), ('WET-4', 'flavio')][int(rng.integers(4))]
        mu = {'SMEFT': 200., 'WET': 5., 'WET-4': 3.}[t]
        lo = int(rng.integers(2))

        def f(b=b, d=d, acc=acc, t=t, tb=tb, mu=mu, lo=lo):
            w = Wilson(d, 1000., 'SMEFT', b)
            w.set_option('smeft_accuracy', acc)
            w.set_option('smeft_matching_order', lo)
            return flat(w.match_run(mu, t, tb))
        add(f'run SMEFT {b} {acc}->{t} {tb}', f)
    return out


def execute(todo, threads=1, rng=None):
    """Run the requests, possibly on several threads at once; {label: result or exception}."""
    res = {}

    def one(lab, fn):
        try:
            res[lab] = fn()
        except Exception as e:
            res[lab] = e
    if threads <= 1:
        for lab, fn in todo:
            one(lab, fn)
        return res
    import threading, queue
    q = queue.Queue()
    for x in todo:
        q.put(x)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    go = threading.Barrier(threads)

    def work():
        go.wait()
        while True:
            try:
                x = q.get_nowait()
            except queue.Empty:
                return
            one(*x)
    ts = [threading.Thread(target=work) for _ in range(threads)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(old)
    return res


def main():
    seed, order, threads, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    import warnings, logging
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    wload.load()
    todo = requests(seed)
    if order:
        p = np.random.default_rng(order).permutation(len(todo))
        todo = [todo[j] for j in p]
        if threads > 1:      # everything twice at the same time
            todo = [x for t in todo for x in (t, (t[0] + ' again', t[1]))]
    res = execute(todo, threads)
    json.dump({k: repr(v) if isinstance(v, Exception) else {q: [z.real, z.imag] for q, z in sorted(v.items())} for k, v in sorted(res.items())}, open(out, 'w'))


if __name__ == '__main__':
    main()
