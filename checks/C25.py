"""Continuous solutions: plotted data are the solution sampled on the stated grid between the two scales."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft
from mon import Family
import copy, math, types, warnings
import numpy as np


def grid(a, b, scale, n):
    """Written out independently of numpy's helpers."""
    if n == 1:
        return [a]
    if scale == 'log':
        return [math.exp(math.log(a) + (math.log(b) - math.log(a)) * j / (n - 1)) for j in range(n)]
    return [a + (b - a) * j / (n - 1) for j in range(n)]


class Recorder:
    """Stand-in for matplotlib.pyplot."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
        return f


def watch(mon, sol, key, value, part, scale, n, tag, tol=1e-9, plot=False):
    """value(mu) -> complex is the reference."""
    kw = {}
    if part != 're' or n % 2:
        kw['part'] = part
    if scale != 'log' or n % 2:
        kw['scale'] = scale
    if n != 50:
        kw['steps'] = n
    if plot:
        rec = Recorder()
        pk = types.ModuleType('matplotlib')
        pk.pyplot = rec
        old = {m: sys.modules.get(m) for m in ('matplotlib', 'matplotlib.pyplot')}
        sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = pk, rec
        args = {'color': 'red', 'lw': 2} if n % 2 else {}
        legend = bool(n % 3)
        a0 = dict(args)
        try:
            sol.plot(key, **kw, **({'plotargs': args} if args else {}), **({} if legend else {'legend': False}))
        finally:
            for m, v in old.items():
                if v is None:
                    sys.modules.pop(m, None)
                else:
                    sys.modules[m] = v
        mon.eq(args, a0, 'plotargs-mutated')
        names = [c[0] for c in rec.calls]
        mon.eq(names.count('plot'), 1, 'plot:calls', f'{names}')
        _, pa, pk_ = [c for c in rec.calls if c[0] == 'plot'][0]
        x, y = pa[0], pa[1]
        mon.eq(pk_.get('label'), key, 'plot:label')
        mon.eq({k: pk_.get(k) for k in args}, args, 'plot:args')
        mon.eq('xscale' in names, scale == 'log', 'plot:xscale', f'{names}')
        if scale == 'log':
            mon.eq([c[1] for c in rec.calls if c[0] == 'xscale'], [('log',)], 'plot:xscale')
        mon.eq('legend' in names, legend, 'plot:legend', f'{names}')
    else:
        x, y = sol.plotdata(key, **kw)
    x, y = np.asarray(x), np.asarray(y)
    mon.eq((x.shape, y.shape), ((n,), (n,)), f'{tag}:shape')
    mon.check(np.isrealobj(x) and np.isrealobj(y), f'{tag}:real', f'{x.dtype} {y.dtype}')
    want = grid(sol.scale_min, sol.scale_max, scale, n)
    mon.check(np.allclose(x, want, rtol=1e-10, atol=0), f'{tag}:grid', f'{scale} {n}: {x[:3]} vs {want[:3]}')
    ref = [value(m) for m in x]
    size = max([abs(complex(v)) for v in ref] + [1e-300])
    pick = np.array([complex(v).imag if part == 'im' else complex(v).real for v in ref])
    bad = np.abs(y - pick).max() / size
    mon.event(n)
    mon.check(bad < tol, f'{tag}:values', f'{key} {part} {scale} {n}: {bad:.2e} {y[:3]} vs {pick[:3]}')
    return x, y


def synthetic(rng, mon, i):
    """Arbitrary known functions."""
    from wilson.classes import RGsolution
    lo = float(10.0**rng.uniform(-2, 4))
    hi = lo * float(10.0**rng.uniform(-.5 if i % 7 == 0 else .001, 6))
    c = {k: gen.cplx(rng) for k in 'abcd'}
    keys = ['C', 'x', 'phi_1', 'b->s::c1']
    calls = []

    def value(k, m):
        j = keys.index(k)
        z = c['a'] + c['b'] * math.log(m) * (j + 1) + c['c'] * m**-.3
        return z.real if j == 1 else z

    def fun(x):
        calls.append(np.shape(x))
        f = np.vectorize(lambda m: {k: value(k, m) for k in keys})
        return f(x)[()]
    sol = RGsolution(fun, lo, hi)
    mon.eq((sol.scale_min, sol.scale_max), (lo, hi), 'bounds')
    n = [50, 2, 3, 7, 100, 50, 11][int(rng.integers(7))]
    for _ in range(3):
        k = keys[int(rng.integers(4))]
        watch(mon, sol, k, lambda m: value(k, m), ['re', 'im'][int(rng.integers(2))], ['log', 'linear'][int(rng.integers(2))], n, 'synthetic',
              plot=rng.random() < .5)
    mon.raises(KeyError, lambda: sol.plotdata('no_such'), 'unknown-key')
    mon.case('synthetic', lo, hi, n, i)


SETS = [('WET', 'JMS', (3., 300.)), ('WET-4', 'JMS', (1.5, 6.)), ('WET-3', 'JMS', (.9, 3.))]


def wet(rng, mon, i):
    """run_continuous of the weak effective theory: each sampled point equals a direct run to that scale."""
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    e, b, (lo, hi) = SETS[i % 3]
    real = eft.sectors_real(e, b)
    keys = sorted(real)
    ks = [keys[j] for j in rng.choice(len(keys), size=5, replace=False)]
    d = {k: float(rng.normal()) if real[k] else gen.cplx(rng) for k in ks}
    a, z = (float(math.exp(rng.uniform(math.log(lo), math.log(hi)))) for _ in range(2))
    w = wcxf.WC(e, b, a, wcxf.WC.dict2values(d))
    opts = {'qed_order': int(rng.integers(2)), 'qcd_order': int(rng.integers(2))}
    r = WETrunner(w, **opts)
    sector = None
    k = ks[int(rng.integers(5))]
    if rng.random() < .5:
        sector = [s for s, c in wcxf.Basis[e, b].sectors.items() if k in c][0]
    sol = r.run_continuous(z, **({} if sector is None else {'sectors': (sector,)}))
    mon.eq((sol.scale_min, sol.scale_max), (min(a, z), max(a, z)), 'wet:bounds')
    ref = WETrunner(w, **opts)
    n = int(rng.integers(2, 9))
    x, y = watch(mon, sol, k, lambda m: ref.run(float(m)).dict.get(k, 0), ['re', 'im'][int(rng.integers(2))], ['log', 'linear'][int(rng.integers(2))],
                 n, 'wet', tol=1e-8, plot=rng.random() < .3)
    # scalar request gives a dictionary, vector request one per scale
    mid = math.sqrt(a * z)
    mon.check(isinstance(sol.fun(mid), dict), 'wet:scalar', '')
    v = sol.fun(np.array([mid, z]))
    mon.check(len(v) == 2 and v[0] == sol.fun(mid), 'wet:vector', '')
    for m in (mid, z, math.exp(rng.uniform(math.log(min(a, z)), math.log(max(a, z))))):
        got, want = sol.fun(m), ref.run(m, **({} if sector is None else {'sectors': (sector,)})).dict
        mon.check(all(abs(got.get(q, 0) - u) <= 1e-13 * abs(u) for q, u in want.items()), 'wet:scale', f'{e} {a!r} -> {m!r}')
    mon.raises(ValueError, lambda: r.run_continuous(a), 'wet:equal-scale')
    mon.case('wet', e, k, a, z, n, sector, str(opts))


def smeft(rng, mon, i):
    from wilson import wcxf
    from wilson.run.smeft import SMEFT
    keys = sorted(wcxf.Basis['SMEFT', 'Warsaw'].all_wcs)
    ks = [keys[j] for j in rng.choice(len(keys), size=3, replace=False)]
    d = {k: float(rng.normal()) * 1e-8 for k in ks}
    a = float(10.0**rng.uniform(2.5, 4))
    z = float(10.0**rng.uniform(2, 2.5)) if i % 3 else a * float(rng.uniform(1.2, 3))
    w = wcxf.WC('SMEFT', 'Warsaw', a, wcxf.WC.dict2values(d))
    r = SMEFT(w)
    sol = r.run_continuous(z)
    mon.eq((sol.scale_min, sol.scale_max), (min(a, z), max(a, z)), 'smeft:bounds')
    from wilson.run.smeft import rge
    from wilson.util import smeftutil
    C0 = copy.deepcopy(r.C_in)
    cache = {}

    def direct(k):
        def f(m):
            m = float(m)
            if m not in cache:
                C = rge.smeft_evolve(C0, a, m, rtol=1e-8, atol=1e-17) if abs(m / a - 1) > 1e-12 else C0
                cache[m] = {'wc': smeftutil.arrays2wcxf_nonred(C), 'sm': C}
            C = cache[m]['sm']
            if k in ('g', 'gp', 'gs', 'Lambda', 'm2'):
                return C[k]
            if k[:2] in ('Gu', 'Gd', 'Ge') and k[2] == '_':
                return np.asarray(C[k[:2]])[int(k[3]) - 1, int(k[4]) - 1]
            return cache[m]['wc'].get(k, 0)
        return f
    first = direct('g')
    n, scale = int(rng.integers(2, 5)), ['log', 'linear'][i % 2]
    for x in np.array(grid(min(a, z), max(a, z), scale, n)):
        first(x)
    size = max(abs(v) for v in d.values())
    # inputs, coefficients generated by running, coefficients that stay zero, SM parameters
    some = sorted(set(k for c in cache.values() for k, v in c['wc'].items() if abs(v) > 1e-4 * size))
    todo = ks + [some[j] for j in rng.choice(len(some), size=min(12, len(some)), replace=False)] + [keys[j] for j in rng.choice(len(keys), size=8)]
    for k in todo + ['g', 'gp', 'gs', 'Lambda', 'm2', 'Gu_33', 'Gu_13', 'Gd_33', 'Ge_22', 'Gd_12']:
        f = direct(k)
        part = ['re', 'im'][int(rng.integers(2))]
        top = max(abs(f(m)) for m in cache)
        x, y = sol.plotdata(k, part=part, scale=scale, steps=n)
        want = np.array([complex(f(m)) for m in sorted(cache)])
        want = want.imag if part == 'im' else want.real
        mon.event(n)
        mon.check(np.allclose(x, sorted(cache), rtol=1e-10), 'smeft:grid', k)
        mon.check(np.isrealobj(y) and np.abs(y - want).max() < 1e-2 * max(top, 1e-3 * (1 if k in ('g', 'gp', 'gs', 'Lambda', 'm2') or k[0] == 'G' or k[:3] == 'Ge_' else size)),
                  'smeft:values', f'{k} {part}: {y} vs {want}')
    mon.raises(KeyError, lambda: sol.plotdata('no_such', steps=2), 'smeft:unknown')
    mon.raises(ValueError, lambda: r.run_continuous(a), 'smeft:equal-scale')
    mon.case('smeft', tuple(ks), a, z)


if __name__ == '__main__':
    mon.run('C25', 'runtime monitoring: pointwise oracle over sampled continuous solutions', [
        Family('synthetic', synthetic, 200, 4000, 60),
        Family('wet', wet, 25, 400, 120),
        Family('smeft', smeft, 10, 150, 300),
    ])
