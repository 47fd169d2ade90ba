"""alpha_s: reference-model monitor (independent ODE integration)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, qcdref
from mon import Family
import numpy as np

SPECIAL = [1.3, 4.8, 170., 91.1876, 2., 1., 5., 80.385, 173., 4.18, 1.28, 160., 1000., 10000.,
           0.9, 1.298, 1.302, 4.798, 4.802, 169.99, 170.01, 91.18, 91.19, 2.002]


def draw(rng):
    loop = int(rng.choice([1, 2, 3, 3, 3, 4, 5]))
    f = int(rng.integers(3, 7))
    if rng.random() < .35:
        s = float(rng.choice(SPECIAL))
        if rng.random() < .4:       # next to a special scale
            s *= 1 + float(rng.choice([-1, 1]) * 10**rng.uniform(-3.9, -1.5))
    else:
        s = float(np.exp(rng.uniform(np.log(0.7), np.log(1e5 if rng.random() < .9 else 1e16))))
    a0 = 0.1185 if rng.random() < .4 else float(rng.uniform(0.095, 0.135))
    return s, f, a0, loop


_crd = []


def rd():
    import rundec
    return rundec.CRunDec()


def chain5(scale, f, a0, loop):
    """Stage-by-stage chain of elementary rundec calls (loop orders > 4)."""
    c = rd()
    if f == 5:
        return c.AlphasExact(a0, 91.1876, scale, 5, loop)
    if f == 6:
        a = c.AlphasExact(a0, 91.1876, 170., 5, loop)
        return c.AlphasExact(c.DecAsUpOS(a, 170., 170., 5, loop), 170., scale, 6, loop)
    a = c.AlphasExact(a0, 91.1876, 4.8, 5, loop)
    a = c.DecAsDownOS(a, 4.8, 4.8, 4, loop)
    if f == 4:
        return c.AlphasExact(a, 4.8, scale, 4, loop)
    a = c.AlphasExact(a, 4.8, 1.3, 4, loop)
    a = c.DecAsDownOS(a, 1.3, 1.3, 3, loop)
    return c.AlphasExact(a, 1.3, scale, 3, loop)


def expected(s, f, a0, loop):
    if loop <= 4:
        return qcdref.alpha_s(s, f, a0, loop)
    if qcdref.alpha_s(s, f, a0, 4) > .55:     # Landau pole guard
        raise qcdref.Landau()
    v = chain5(s, f, a0, loop)
    if not 0 < v < 1.3:
        raise qcdref.Landau()
    return v


def call(fn, rng, s, f, a0, loop):
    """The same request in the spellings a caller may use."""
    k = int(rng.integers(6))
    if a0 == 0.1185 and loop == 3 and k < 3:
        return [lambda: fn(s, f), lambda: fn(scale=s, f=f), lambda: fn(np.float64(s), f)][k]()
    if k == 0:
        return fn(s, f, a0, loop)
    if k == 1:
        return fn(s, f, alphasMZ=a0, loop=loop)
    if k == 2:
        return fn(s, f, a0, loop=loop)
    if k == 3:
        return fn(scale=s, f=f, alphasMZ=a0, loop=loop)
    if k == 4:
        return fn(np.float64(s), f, a0, loop)
    if s == int(s):
        return fn(int(s), f, a0, loop)
    return fn(s, f, loop=loop, alphasMZ=a0)


def reference(rng, mon, i):
    """A history of requests, each compared with the reference model."""
    from wilson.util import qcd
    hist = []
    for _ in range(60):
        if hist and rng.random() < .3:           # revisit an earlier request
            req = hist[int(rng.integers(len(hist)))]
        else:
            req = draw(rng)
            if hist and rng.random() < .5:       # differ in one argument only
                base = list(hist[int(rng.integers(len(hist)))][:4])
                j = int(rng.integers(4))
                base[j] = req[j]
                req = tuple(base)
            try:
                req = req + (expected(*req),)
            except qcdref.Landau:
                continue
            hist.append(req)
        s, f, a0, loop, ref = req
        got = call(qcd.alpha_s, rng, s, f, a0, loop)
        mon.close(got, ref, f'value:f{f}:loop{loop}', f'alpha_s({s}, {f}, {a0}, {loop})',
                  rtol=qcdref.rtol(3e-7 if ref < .6 else 3e-6, s))
        mon.case('alpha_s', round(s, 6), f, round(a0, 6), loop)
        mon.count(f'f={f}')
        mon.count(f'loop={loop}')


def initial(rng, mon, i):
    """Boundary condition, decoupling and continuity."""
    from wilson.util import qcd
    for _ in range(20):
        a0 = float(rng.uniform(0.08, 0.14))
        loop = int(rng.integers(1, 6))
        mon.close(qcd.alpha_s(91.1876, 5, a0, loop), a0, 'initial-condition',
                  f'alpha_s(MZ, 5, {a0}, loop={loop})', rtol=1e-12)
        # continuity around special points
        f = int(rng.integers(3, 7))
        p = float(rng.choice([1.3, 4.8, 170., 91.1876, 2., 1.]))
        a0 = float(rng.uniform(0.11, 0.12))
        v = [qcd.alpha_s(p*x, f, a0, loop) for x in (1 - 1e-7, 1, 1 + 1e-7)]
        mon.check(v[0] > v[1] - 1e-12 and v[1] > v[2] - 1e-12, 'monotonic',
                  f'alpha_s not decreasing around {p} f={f} loop={loop} a0={a0}: {v}')
        mon.close(v[1], (v[0]+v[2])/2, 'continuity', f'alpha_s at {p} f={f} loop={loop} a0={a0}: {v}', rtol=1e-7)
        mon.case('initial', a0, loop, f, p)


def invalid(rng, mon, i):
    """Requests outside the domain must be refused, whatever happened before."""
    from wilson.util import qcd
    for _ in range(20):
        s, f, a0, loop = draw(rng)
        try:
            qcd.alpha_s(s, f, a0, loop)
        except ValueError:
            pass
        bf = int(rng.choice([2, 1, 0, -1, -5, 7, 8, 12]))
        bs = float(rng.choice([0., -1., -91.1876, -s, -1e-300]))
        mon.raises(ValueError, lambda: qcd.alpha_s(s, bf, a0, loop), 'invalid-f', f'alpha_s({s}, f={bf})')
        mon.raises(ValueError, lambda: qcd.alpha_s(bs, f, a0, loop), 'invalid-scale', f'alpha_s({bs}, {f})')
        mon.raises(ValueError, lambda: qcd.alpha_s(91.1876, bf, a0, loop), 'invalid-f', f'alpha_s(MZ, f={bf})')
        mon.case('invalid', s, bf, bs, f)


def landau(rng, mon, i):
    """Below the Landau pole the request is refused, never answered with 0 or nan."""
    from wilson.util import qcd
    for _ in range(5):
        f = int(rng.integers(3, 6))
        s = float(rng.uniform(0.05, 0.3))
        a0 = float(rng.uniform(0.115, 0.125))
        try:
            qcdref.alpha_s(s, f, a0, 3)
            continue
        except qcdref.Landau:
            pass
        try:
            v = qcd.alpha_s(s, f, a0)
            mon.check(v > .75, 'landau', f'alpha_s({s},{f},{a0}) = {v} below the pole')
            mon.check(v != 0, 'landau-zero', f'alpha_s({s},{f},{a0}) = 0')
        except ValueError:
            mon.event(1)
        mon.case('landau', s, f, a0)


FAMILIES = [Family('reference', reference, 160, 3000), Family('initial', initial, 40, 600),
            Family('invalid', invalid, 16, 100), Family('landau', landau, 16, 200)]
RULE = ('random histories of alpha_s requests (scale log-uniform 0.7..1e16 and threshold values, f=3..6, '
        'alphas(MZ) 0.095..0.135, loop 1..5, positional/keyword/numpy spellings, revisits past the cache size); '
        'a case is a distinct request compared with an independent integration of the QCD RGE with on-shell '
        'decoupling at 1.3/4.8/170 GeV')
if __name__ == '__main__':
    mon.run('C01', RULE, FAMILIES, ['reference values: 4-loop QCD beta function and decoupling constants from the literature; '
            'loop order 5 is compared with a chain of elementary rundec calls'])
