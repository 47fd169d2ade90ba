"""Results depend on the request alone: not on the process, its hash seed, the order of requests, or what other threads do."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, dets, wload
from mon import Family
import copy, json, random, subprocess, tempfile, threading, time
import numpy as np


ERR, PRINT = {'divide': 'warn', 'over': 'warn', 'under': 'ignore', 'invalid': 'warn'}, np.get_printoptions()


def fresh(seed, order, threads, hashseed):
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, 'o.json')
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        p = subprocess.run([sys.executable, os.path.join(mon.HARNESS, 'dets.py'), str(seed), str(order), str(threads), out], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            return p.stdout[-500:]
        return json.load(open(out))


def num(r):
    """Numbers of one result; an exception is compared as such."""
    if isinstance(r, Exception):
        return repr(r)
    if isinstance(r, str):
        return r
    return {k: complex(*v) if isinstance(v, list) else complex(v) for k, v in r.items()}


def agree(mon, A, B, key, msg, tol=1e-11):
    A, B = num(A), num(B)
    if isinstance(A, str) or isinstance(B, str):
        return mon.check(False, key + ':fails', f'{msg}: {A if isinstance(A, str) else B}')
    top = max([abs(v) for v in B.values()] + [0])
    bad = [k for k in sorted(set(A) | set(B)) if not abs(A.get(k, 0) - B.get(k, 0)) <= tol * abs(B.get(k, 0)) + 1e-13 * top]
    mon.event(len(B))
    mon.check(not bad, key, f'{msg}: {[(k, A.get(k, 0), B.get(k, 0)) for k in bad[:3]]} of {len(bad)}')


def processes(rng, mon, i):
    seed = int(rng.integers(10**6))
    base = fresh(seed, 0, 1, 0)
    if not mon.check(isinstance(base, dict), 'process', str(base)):
        return
    for hs, order, th in ((int(rng.integers(1, 2**32)), 0, 1), (int(rng.integers(1, 2**32)), 1 + int(rng.integers(99)), int(rng.choice([1, 2, 4])))):
        r = fresh(seed, order, th, hs)
        if not mon.check(isinstance(r, dict), 'process', str(r)):
            return
        for lab, v in r.items():
            agree(mon, v, base[lab.replace(' again', '')], 'process-result', f'{lab}: hash seed {hs}, order {order}, {th} threads')
            mon.count(' '.join(lab.split()[1:3]))
        mon.case('process', seed, order, th)


def threads(rng, mon, i):
    """Simultaneous requests give what each gives alone."""
    todo = dets.requests(int(rng.integers(10**6)), smeft=int(i % 4 == 0), wet=5)
    alone = dets.execute(todo)
    again = [x for j in rng.permutation(len(todo)) for x in (todo[j], (todo[j][0] + ' again', todo[j][1]))]
    n = int(rng.choice([2, 4, 8]))
    res = dets.execute(again, n)
    for lab, v in res.items():
        agree(mon, v, alone[lab.replace(' again', '')], 'thread-result', f'{lab} with {n} threads')
    mon.case('threads', tuple(sorted(alone)), n)


def shared(rng, mon, i):
    """Several threads ask the same object."""
    from wilson import Wilson
    e, b = [('WET', 'flavio'), ('WET', 'JMS'), ('WET-4', 'Bern'), ('WET-3', 'flavio')][i % 4]
    d = dets.draw(rng, e, b, 20)
    reqs = []
    E = ['WET', 'WET-4', 'WET-3']
    for _ in range(6):
        t = str(rng.choice(E[E.index(e):]))
        mu = float({'WET': 10, 'WET-4': 2.5, 'WET-3': 1.1}[t] * rng.choice([1., 1.1, 1.3]))
        reqs.append((mu, t, str(rng.choice(['flavio', 'JMS', 'Bern']))))
    par = {'m_b': float(rng.uniform(4, 4.4)), 'Vcb': float(rng.uniform(.039, .043))}

    def make():
        w = Wilson(d, dets.SCALE[e], e, b)
        w.set_option('parameters', par)
        return w
    ref = [dets.flat(make().match_run(*q)) for q in reqs]
    w = make()
    todo = [(f'{a} {j}', (lambda j=j: dets.flat(w.match_run(*reqs[j])))) for a in range(4) for j in rng.permutation(len(reqs))]
    if i % 3 == 0:
        from C30 import clear
        clear()
        with Yield(int(rng.integers(10**9)), float(rng.choice([.001, .01]))) as y:
            res = dets.execute(todo[:12], 4)
        mon.count('changes of thread', y.n)
    else:
        res = dets.execute(todo, 4)
    for lab, v in res.items():
        agree(mon, v, ref[int(lab.split()[1])], 'shared-result', f'{e} {b} {reqs[int(lab.split()[1])]}')
    for j, q in enumerate(reqs):
        agree(mon, dets.flat(w.match_run(*q)), ref[j], 'shared-after', f'{e} {b} {q}')
    mon.case('shared', e, b, tuple(reqs))


class Yield:
    """Gives the other threads a turn after lines of the package (each thread draws its own)."""
    def __init__(self, seed, p):
        self.seed, self.p, self.root = seed, p, os.path.join(wload.REPO, 'wilson') + os.sep
        self.local, self.places, self.n = threading.local(), set(), 0

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if self.root in f or (os.sep + 'wilson' + os.sep in f and 'site-packages' not in f):
            if frame.f_code.co_name[0] == '<':
                return None
            return self.line

    def line(self, frame, event, arg):
        r = getattr(self.local, 'r', None)
        if r is None:
            r = self.local.r = random.Random(f'{self.seed} {threading.get_ident()}')
        if r.random() < self.p:
            self.n += 1
            self.places.add((frame.f_code.co_filename.rsplit('wilson' + os.sep, 1)[-1], frame.f_lineno))
            time.sleep(r.choice([0, 0, 1e-5, 1e-4]))
        return self.line

    def __enter__(self):
        threading.settrace(self.glob)
        return self

    def __exit__(self, *a):
        threading.settrace(None)


def interleaved(rng, mon, i):
    """Small simultaneous requests, with a change of thread possible after every line."""
    from wilson import Wilson
    jobs = []
    kind = ['dipoles', 'mixed', 'parameters', 'options'][i % 4]
    for j in range(6):
        e, b = 'WET', ['JMS', 'flavio', 'Bern'][int(rng.integers(3 if kind != 'dipoles' else 1))]
        d = dets.draw(rng, e, b, int(rng.choice([2, 8])))
        if kind == 'dipoles':
            d = {f'{n}_{x}{y}': complex(*rng.normal(size=2)) * 1e-8 for n in ('dG', 'dgamma', 'uG', 'ugamma') for x in '12' for y in '12'}
        par = {'m_b': float(rng.uniform(4, 4.4)), 'alpha_s': float(rng.uniform(.11, .125)), 'alpha_e': float(rng.uniform(.006, .009)), 'm_s': float(rng.uniform(.08, .11)),
               'Vcb': float(rng.uniform(.039, .043)), 'gamma': float(rng.uniform(1, 1.4))}
        mu, tb, qed = float(rng.uniform(4, 60)), b if kind == 'dipoles' else ['JMS', 'flavio', 'Bern'][int(rng.integers(3))], int(rng.integers(2))

        def f(d=d, e=e, b=b, par=par, mu=mu, tb=tb, qed=qed):
            w = Wilson(d, 80., e, b)
            if kind != 'mixed':
                w.set_option('parameters', par)
            if kind == 'options':
                w.set_option('qed_order', qed)
            return dets.flat(w.match_run(mu, 'WET', tb))
        jobs.append((f'{kind} {j} {b}->{tb}', f))
    alone = dets.execute(jobs)
    from C30 import clear
    clear()
    n = int(rng.choice([2, 3, 4]))
    with Yield(int(rng.integers(10**9)), float(rng.choice([.003, .02, .1]))) as y:
        res = dets.execute([x for k in range(2) for x in [(f'{lab} again{k}', f) for lab, f in jobs]], n)
    for lab, v in res.items():
        agree(mon, v, alone[lab.split(' again')[0]], 'interleaved-result', f'{lab} with {n} threads, {y.n} changes of thread')
    mon.count('changes of thread', y.n)
    mon.count('distinct places of a change', len(y.places))
    mon.case('interleaved', kind, n, y.n, len(y.places))


def state(rng, mon, i):
    """Random numbers of the caller, numpy error handling, warning filters and the print options are left alone."""
    import warnings
    from C30 import clear
    # a change that lasts is seen once only: start from the defaults, with empty caches of functions
    np.seterr(**ERR)
    np.set_printoptions(**PRINT)
    clear()
    np.random.seed(1)
    random.seed(1)
    s1, s2 = np.random.get_state(), random.getstate()
    old = np.geterr(), np.get_printoptions(), os.getcwd(), sys.getrecursionlimit(), list(sys.path), dict(os.environ)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f0 = list(warnings.filters)
        dets.execute(dets.requests(int(rng.integers(10**6)), smeft=int(i % 3 == 0), wet=4))
        mon.check(list(warnings.filters) == f0, 'warning-filters', '')
    t1 = np.random.get_state()
    mon.check(s1[0] == t1[0] and np.array_equal(s1[1], t1[1]) and s1[2:] == t1[2:], 'numpy-random-state', 'global random state changed')
    mon.check(random.getstate() == s2, 'random-state', 'global random state changed')
    new = np.geterr(), np.get_printoptions(), os.getcwd(), sys.getrecursionlimit(), list(sys.path), dict(os.environ)
    for n, a, b in zip(('errors', 'print options', 'directory', 'recursion limit', 'import path', 'environment'), old, new):
        mon.check(a == b, 'process-state', f'{n} changed')
    # reseeding the generators changes nothing
    todo = dets.requests(int(rng.integers(10**6)), smeft=0, wet=4)
    res = []
    for s in (1, 99):
        np.random.seed(s)
        random.seed(s)
        res.append(dets.execute(todo))
    for lab in res[0]:
        agree(mon, res[1][lab], res[0][lab], 'random-seed', lab, tol=0)
    mon.case('state', i)


FAMILIES = [Family('processes', processes, 3, 60, timeout=600), Family('threads', threads, 8, 200, timeout=300), Family('shared', shared, 12, 300, timeout=200),
            Family('interleaved', interleaved, 12, 400, timeout=200),
            Family('state', state, 6, 60, timeout=200)]
RULE = ('one list of translations and running requests executed in fresh processes with different hash seeds and orders, on several threads with rapid switching, '
        'and on one shared object; each result is compared with that of the request alone; a case is a distinct list and schedule')
if __name__ == '__main__':
    mon.run('C29', RULE, FAMILIES)
