"""Driver shared by all checks.

A check module defines PID, RULE and FAMILIES, a list of Family(name, fn,
quick, thorough).  fn(rng, mon, i) builds one seeded workload, runs the real
code and reports what it observed through `mon`:

    mon.event(n)            n monitored observations (calls, comparisons, ...)
    mon.case(key)           one distinct, non-trivial case (key is hashable)
    mon.violate(key, msg)   the oracle refuted the property; `key` names the
                            mechanism (for known_findings.txt)
    mon.close(...)/eq(...)  comparison helpers that call violate

Families run in a pool of forked workers.  Verdicts are three-valued: 0 held,
1 violated, 3 inconclusive (watchdog, or a family that observed nothing).
"""
import hashlib, json, os, sys, time, traceback, tempfile, shutil, atexit
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
import multiprocessing as mp
import warnings, logging, signal
import numpy as np

HARNESS = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HARNESS)
sys.path.insert(0, HARNESS)
import wload

NPROC = int(os.environ.get('VERIF_JOBS', '8'))
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))   # development only (tools/mutate.py)


class Family:
    def __init__(self, name, fn, quick, thorough=None, timeout=120):
        self.name, self.fn = name, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.timeout = timeout


class CaseTimeout(BaseException):
    pass


class Abort(Exception):
    """Stop this case: a violation has already been reported."""


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, np.ndarray):
        return jsonable(o.ravel()[:30].tolist(), depth + 1)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        o = float(o)
    if isinstance(o, (complex, np.complexfloating)):
        return {'Re': float(o.real), 'Im': float(o.imag)}
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)[:300]


def _frozen(o):
    if isinstance(o, np.ndarray):
        return f'{o.dtype}{o.shape}{o.tolist()!r}'
    if isinstance(o, dict):
        return '{' + ', '.join(f'{k!r}: {_frozen(v)}' for k, v in sorted(o.items(), key=lambda q: str(q[0]))) + '}'
    if isinstance(o, (list, tuple)):
        return '[' + ', '.join(map(_frozen, o)) + ']'
    if hasattr(o, 'values') and hasattr(o, 'eft'):
        return _frozen([o.eft, getattr(o, 'basis', None), o.scale, o.values, o.dict])
    return repr(o)


def _scribble(o):
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in 'fciu':
            o[...] = 77
    elif isinstance(o, dict):
        for v in o.values():
            _scribble(v)
        o.clear()
        o['scribble'] = 77.
    elif isinstance(o, (list, tuple)):
        for v in o:
            _scribble(v)
    elif hasattr(o, 'values') and hasattr(o, 'eft'):
        _scribble(o.dict)
        _scribble(o.values)
        o.scale = 77.


class Mon:
    """Collects what one case observed."""
    def __init__(self):
        self.events = 0
        self.cases = {}
        self.viol = []
        self.counters = {}

    def event(self, n=1, what=None):
        self.events += n
        if what:
            self.count(what, n)

    def count(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + n

    def case(self, *key, sample=None):
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        if h not in self.cases:
            self.cases[h] = jsonable(sample if sample is not None else key)

    def violate(self, key, msg, **info):
        if len(self.viol) < 20:
            self.viol.append({'key': str(key), 'msg': str(msg)[:1500],
                              'info': jsonable(info)})

    def check(self, cond, key, msg, **info):
        self.events += 1
        if not cond:
            self.violate(key, msg, **info)
        return bool(cond)

    def eq(self, a, b, key, msg='', **info):
        self.events += 1
        try:
            ok = bool(a == b)
        except Exception:
            ok = False
        if not ok:
            self.violate(key, f'{msg}: got {str(a)[:300]} expected {str(b)[:300]}', **info)
        return ok

    def close(self, a, b, key, msg='', rtol=1e-9, atol=0.0, **info):
        """|a-b| <= atol + rtol*max(|b|) over the whole array."""
        self.events += 1
        try:
            x, y = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
            if x.shape != y.shape:
                self.violate(key, f'{msg}: shape {x.shape} != {y.shape}', **info)
                return False
            if x.size == 0:
                return True
            scale = np.max(np.abs(y))
            d = np.max(np.abs(x - y))
            if d <= atol + rtol * scale:
                return True
            j = int(np.argmax(np.abs(x - y)))
            self.violate(key, f'{msg}: |diff|={d:.6g} (scale {scale:.6g}, rtol {rtol:g}, '
                         f'atol {atol:g}) at {j}: {x.ravel()[j]} vs {y.ravel()[j]}', **info)
            return False
        except Exception as e:
            self.violate(key, f'{msg}: not comparable: {e!r} {str(a)[:200]} / {str(b)[:200]}', **info)
            return False

    def dclose(self, a, b, key, msg='', rtol=1e-9, atol=0.0, **info):
        """Compare two {name: number} dicts (missing = 0), common scale."""
        self.events += 1
        scale = max([abs(complex(v)) for v in b.values()] + [0.])
        worst, wk = 0., None
        for k in set(a) | set(b):
            d = abs(complex(a.get(k, 0)) - complex(b.get(k, 0)))
            if not d <= worst:
                worst, wk = d, k
        if wk is None or worst <= atol + rtol * scale:
            return True
        self.violate(key, f'{msg}: {wk}: {a.get(wk, 0)} vs {b.get(wk, 0)} '
                     f'(scale {scale:.6g}, rtol {rtol:g})', **info)
        return False

    def fresh(self, fn, key='shared-result', msg=''):
        """The same request twice (fn makes its own inputs); what the caller does
        with the first result (here: everything is overwritten) is his affair."""
        a = fn()
        text = _frozen(a)
        _scribble(a)
        b = fn()
        self.eq(_frozen(b), text, key, msg)
        return b

    def raises(self, exc, f, key, msg=''):
        self.events += 1
        try:
            r = f()
        except exc:
            return True
        except CaseTimeout:
            raise
        except BaseException as e:
            self.violate(key, f'{msg}: expected {exc}, got {e!r}')
            return False
        self.violate(key, f'{msg}: expected {exc}, but got result {str(r)[:200]}')
        return False


def seed_for(seed, pid, fam, i):
    h = hashlib.sha256(f'{seed}/{pid}/{fam}/{i}'.encode()).digest()
    return int.from_bytes(h[:8], 'little')


_STATE = {}


def _quiet():
    # the QCD library prints to stdout from C++
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    tempfile.tempdir = tempfile.mkdtemp(prefix='worker-')


def _run_one(job):
    fname, i = job
    fam = _STATE['fams'][fname]
    mon = Mon()
    rng = np.random.default_rng(seed_for(_STATE['seed'], _STATE['pid'], fname, i))
    import random
    random.seed(seed_for(_STATE['seed'], _STATE['pid'], fname, i))
    t0 = time.time()
    timed_out = False

    def onalarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(fam.timeout)
    try:
        fam.fn(rng, mon, i)
    except CaseTimeout:
        timed_out = True
    except Abort:
        pass
    except Exception as e:
        tb = traceback.format_exc()
        frames = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(frames)
                      if 'wilson' in f.filename and 'verif' not in f.filename), 'harness')
        mon.violate(f'exception:{fname}:{type(e).__name__}:{where}',
                    f'unexpected exception: {e!r}\n{tb[-1200:]}')
    except SystemExit as e:
        mon.violate(f'exit:{fname}', f'unexpected SystemExit {e.code}')
    finally:
        signal.alarm(0)
    return (fname, i, mon.events, mon.cases, mon.viol, mon.counters,
            timed_out, time.time() - t0)


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN '):
                w = line.split(None, 3)
                d = dict(x.split('=', 1) for x in w[1:3])
                if d.get('property') == pid:
                    out[d['key']] = w[3] if len(w) > 3 else ''
    return out


def run(pid, rule, families, assumptions=(), setup=None, post=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--only', help='comma separated families')
    ap.add_argument('--tier')
    ap.add_argument('--case', help='family:index')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    evdir = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    results, replayed = [], None
    pool_err = None
    load_err = None
    # private scratch directory, removed at exit
    scratch = tempfile.mkdtemp(prefix=f'wv-{pid}-')
    mainpid = os.getpid()
    atexit.register(lambda: os.getpid() == mainpid and shutil.rmtree(scratch, True))
    tempfile.tempdir = scratch
    try:
        W = wload.load()
        if setup:
            setup(W)
    except Exception as e:
        load_err = traceback.format_exc()
    fams = {f.name: f for f in families}
    if a.replay:
        r = json.load(open(a.replay))
        seed = r['seed']
        jobs = [(r['family'], r['index'])] if r.get('family') in fams else []
    else:
        jobs = []
        for f in families:
            if a.only and f.name not in a.only.split(','):
                continue
            n = f.thorough if tier == 'thorough' else f.quick
            jobs += [(f.name, i) for i in range(n)]
        if a.case:
            fn, i = a.case.rsplit(':', 1)
            jobs = [(fn, int(i))]
    _STATE.update(fams=fams, seed=seed, pid=pid, tier=tier)
    timeouts = []
    fam_stats = {f: {'cases': 0, 'events': 0, 'secs': 0.} for f in fams}
    if load_err is None:
        # interleave so that long and short families share the pool
        order = np.random.default_rng(0).permutation(len(jobs))
        jobs = [jobs[j] for j in order]
        budget = 780 if tier == 'quick' else 12 * 3600
        if len(jobs) == 1 or NPROC == 1:
            kn = known_findings(pid)
            for j in jobs:
                results.append(_run_one(j))
                if FAILFAST and any(not any(v['key'] == k or (k.endswith('*') and v['key'].startswith(k[:-1])) for k in kn)
                                    for v in results[-1][4]):
                    break
        else:
            ctx = mp.get_context('fork')
            pool = ctx.Pool(NPROC, initializer=_quiet)
            try:
                it = pool.imap_unordered(_run_one, jobs)
                for _ in range(len(jobs)):
                    results.append(it.next(timeout=max(1, budget - (time.time() - t0))))
                pool.close()
            except mp.TimeoutError:
                pool_err = 'watchdog: budget used up'
            finally:
                pool.terminate()
                pool.join()
    events, distinct, counters, viol = 0, {}, {}, []
    for fname, i, ev, cases, vs, cnt, to, dt in results:
        events += ev
        for h, s in cases.items():
            distinct.setdefault(h, (fname, s))
        for k, v in cnt.items():
            counters[k] = counters.get(k, 0) + v
        for v in vs:
            viol.append((fname, i, v))
        if to:
            timeouts.append((fname, i))
        fam_stats[fname]['cases'] += 1
        fam_stats[fname]['events'] += ev
        fam_stats[fname]['secs'] = round(fam_stats[fname]['secs'] + dt, 2)
    if load_err is not None:
        viol.append(('load', 0, {'key': 'import', 'msg': 'the package cannot be imported:\n' + load_err[-1500:], 'info': {}}))
    if post and load_err is None and not a.replay and not a.case and not a.only:
        for v in post(counters, results):
            viol.append(('post', 0, v))
    known = known_findings(pid)
    seen_known, bykey = {}, {}
    for fname, i, v in viol:
        kf = next((k for k in known if v['key'] == k or (k.endswith('*') and v['key'].startswith(k[:-1]))), None)
        if kf is not None:
            seen_known[kf] = seen_known.get(kf, 0) + 1
        else:
            bykey.setdefault(v['key'], []).append((fname, i, v))
    for k in sorted(seen_known):
        print(f'KNOWN-FINDING: property={pid} {known[k]} [{k}; {seen_known[k]} observations]')
    viol.sort(key=lambda t: (t[0], t[1]))
    nviol = 0
    for k in sorted(bykey):
        for fname, i, v in sorted(bykey[k], key=lambda t: (t[0], t[1]))[:1]:
            nviol += 1
            if nviol > 25:
                break
            safe = hashlib.sha1(f'{k}/{fname}/{i}'.encode()).hexdigest()[:10]
            path = os.path.join(rdir, f'{pid}-{safe}.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'tier': tier, 'family': fname,
                           'index': i, 'key': k, 'message': v['msg'], 'info': v['info'],
                           'rerun': f'VERIF_SEED={seed} python checks/{pid}.py --replay {path}'}, f, indent=1)
            print(f'VIOLATION property={pid} replay={path}')
            print(f'  [{k}] x{len(bykey[k])} family={fname} index={i}: {v["msg"][:900]}')
    ran = {f for f, *_ in results}
    barren = [f for f in ran if fam_stats[f]['events'] == 0]
    missing = [] if (a.only or a.case or a.replay) else [f for f in fams if f not in ran]
    smp = {}
    for h, (fname, s) in distinct.items():
        smp.setdefault(fname, [])
        if len(smp[fname]) < 2:
            smp[fname].append(s)
    evidence = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results), 'distinct_nontrivial': len(distinct), 'rule': rule,
            'samples': [{'family': f, 'case': s} for f, l in sorted(smp.items()) for s in l] or ['none'],
            'monitor_events': events, 'families': fam_stats, 'counters': counters,
            'timeouts': len(timeouts)},
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - t0, 3), 'violations': nviol}
    if not a.replay and not a.case and not a.only:
        with open(os.path.join(evdir, f'{pid}.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    print(f'{pid} tier={tier} seed={seed}: {len(results)} cases, {len(distinct)} distinct, '
          f'{events} monitored events, {nviol} violations, {len(seen_known)} known findings, '
          f'{time.time()-t0:.1f} s')
    if a.v:
        for f, s in fam_stats.items():
            print('  ', f, s)
        print('  ', counters)
    if nviol:
        sys.exit(1)
    if a.case or a.replay:
        sys.exit(0)
    if pool_err or timeouts or barren or missing or (not a.only and len(distinct) == 0):
        print(f'INCONCLUSIVE property={pid}: {pool_err or ""} timeouts={timeouts[:3]} '
              f'families without observations={barren + missing}')
        sys.exit(3)
    sys.exit(0)
