"""Running quark masses: reference-model monitor (independent ODE integration)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, qcdref
from mon import Family
import numpy as np

INFO = {  # name: (typical input mass, spread, allowed f, scale of definition, f of definition)
    'm_b': (4.18, .4, (3, 4, 5, 6)), 'm_c': (1.28, .12, (3, 4, 5)), 'm_s': (0.095, .05, (3, 4, 5))}
SPECIAL = [1.3, 4.8, 170., 91.1876, 2., 2, 1., 1.28, 4.18, 80.385, 1000.]


def draw(rng):
    w = str(rng.choice(list(INFO)))
    m0, sp, fs = INFO[w]
    m = m0 if rng.random() < .3 else float(m0 + rng.uniform(-sp, sp))
    if w == 'm_s' and rng.random() < .2:
        m = float(rng.choice([0.0022, 0.0047]))
    f = int(rng.choice(fs))
    loop = int(rng.choice([1, 2, 3, 3, 3, 4, 5]))
    r = rng.random()
    if r < .3:
        s = float(rng.choice(SPECIAL))
        if rng.random() < .4:       # next to a special scale
            s *= 1 + float(rng.choice([-1, 1]) * 10**rng.uniform(-3.9, -1.5))
    elif r < .4:
        s = m if w != 'm_s' else 2.
    else:
        s = float(np.exp(rng.uniform(np.log(0.9), np.log(1e4))))
    a0 = 0.1185 if rng.random() < .4 else float(rng.uniform(0.105, 0.128))
    return w, m, s, f, a0, loop


def chain(w, m, s, f, a0, loop):
    """Elementary rundec calls, stage by stage (used for loop orders > 3)."""
    import rundec
    from C01 import chain5
    c = rundec.CRunDec()
    a = lambda mu, nf: chain5(mu, nf, a0, loop)

    def run(m, a1, a2, nf):
        return c.mMS2mMS(m, a1, a2, nf, loop)

    def h2l(m, am, mu, M, nf, s):
        aM = c.AlphasExact(am, mu, M, nf, loop)
        mM = run(m, am, aM, nf)
        al = c.DecAsDownOS(aM, M, M, nf-1, loop)
        ml = c.DecMqDownOS(mM, aM, M, M, nf-1, loop)
        return run(ml, al, c.AlphasExact(al, M, s, nf-1, loop), nf-1)

    def l2h(m, am, mu, M, nf, s):
        aM = c.AlphasExact(am, mu, M, nf-1, loop)
        mM = run(m, am, aM, nf-1)
        ah = c.DecAsUpOS(aM, M, M, nf-1, loop)
        mh = c.DecMqUpOS(mM, aM, M, M, nf-1, loop)
        return run(mh, ah, c.AlphasExact(ah, M, s, nf, loop), nf)
    if w == 'm_b':
        am = a(m, 5)
        if f == 5:
            return run(m, am, a(s, 5), 5)
        if f == 4:
            return h2l(m, am, m, 4.8, 5, s)
        if f == 6:
            return l2h(m, am, m, 170., 6, s)
        x = h2l(m, am, m, 4.8, 5, 1.3)
        return h2l(x, a(1.3, 4), 1.3, 1.3, 4, s)
    if w == 'm_c':
        am = a(m, 4)
        if f == 4:
            return run(m, am, a(s, 4), 4)
        return h2l(m, am, m, 1.3, 4, s) if f == 3 else l2h(m, am, m, 4.8, 5, s)
    am = a(2., 3)
    if f == 3:
        return run(m, am, a(s, 3), 3)
    if f == 4:
        return l2h(m, am, 2., 1.3, 4, s)
    x = l2h(m, am, 2., 1.3, 4, 1.3)
    return l2h(x, a(1.3, 4), 1.3, 4.8, 5, s)


def expected(w, m, s, f, a0, loop):
    v = getattr(qcdref, w)(m, s, f, a0, loop)
    if v is None:
        if qcdref.alpha_s(s, f, a0, 4) > .55:   # Landau pole guard
            raise qcdref.Landau()
        v = chain(w, m, s, f, a0, loop)
    return v


def call(fn, rng, m, s, f, a0, loop):
    k = int(rng.integers(6))
    if a0 == 0.1185 and loop == 3 and k < 3:
        return [lambda: fn(m, s, f), lambda: fn(m, scale=s, f=f), lambda: fn(np.float64(m), np.float64(s), f)][k]()
    if k == 0:
        return fn(m, s, f, a0, loop)
    if k == 1:
        return fn(m, s, f, alphasMZ=a0, loop=loop)
    if k == 2:
        return fn(m, s, f, a0, loop=loop)
    if k == 3:
        return fn(m, scale=s, f=f, alphasMZ=a0, loop=loop)
    if k == 4:
        return fn(np.float64(m), np.float64(s), f, a0, loop)
    if s == int(s):
        return fn(m, int(s), f, a0, loop)
    return fn(m, s, f, loop=loop, alphasMZ=a0)


def reference(rng, mon, i):
    from wilson.util import qcd
    hist = []
    for _ in range(60):
        if hist and rng.random() < .25:
            req = hist[int(rng.integers(len(hist)))]
        else:
            req = draw(rng)
            if hist and rng.random() < .4:
                base = list(hist[int(rng.integers(len(hist)))][:6])
                j = int(rng.choice([1, 2, 4, 5]))
                if j == 1 and req[0] != base[0]:
                    j = 2
                base[j] = req[j]
                req = tuple(base)
            try:
                req = req + (expected(*req),)
            except qcdref.Landau:
                continue
            hist.append(req)
        w, m, s, f, a0, loop, ref = req
        got = call(getattr(qcd, w), rng, m, s, f, a0, loop)
        mon.close(got, ref, f'value:{w}:f{f}:loop{loop}', f'{w}({m}, {s}, {f}, {a0}, {loop})', rtol=qcdref.rtol(1e-6, s, m if w != 'm_s' else 2.))
        mon.case(w, round(m, 6), round(s, 6), f, round(a0, 6), loop)
        mon.count(f'{w} f={f}')


def definition(rng, mon, i):
    """Boundary conditions and proportionality of the running."""
    from wilson.util import qcd
    for _ in range(15):
        a0 = float(rng.uniform(0.11, 0.125))
        loop = int(rng.integers(1, 6))
        b, c, s = float(rng.uniform(4, 4.5)), float(rng.uniform(1.2, 1.4)), float(rng.uniform(.05, .15))
        mon.close(qcd.m_b(b, b, 5, a0, loop), b, 'm_b(m_b)', 'm_b(m_b)', rtol=1e-10)
        mon.close(qcd.m_c(c, c, 4, a0, loop), c, 'm_c(m_c)', 'm_c(m_c)', rtol=1e-10)
        mon.close(qcd.m_s(s, 2, 3, a0, loop), s, 'm_s(2)', 'm_s(2 GeV)', rtol=1e-10)
        for w, m, f in (('m_b', b, 4), ('m_c', c, 3), ('m_c', c, 5), ('m_s', s, 4)):
            p = m if w != 'm_s' else 2.
            v = [getattr(qcd, w)(m, p*x, f, a0, loop) for x in (1 - 1e-7, 1, 1 + 1e-7)]
            mon.close(v[1], (v[0]+v[2])/2, f'continuity:{w}:f{f}', f'{w}({m}, {p}, {f}): {v}', rtol=1e-7)
        mu, f = float(rng.uniform(1, 300)), int(rng.integers(3, 6))
        x = float(rng.uniform(.01, 3))
        mon.close(qcd.m_s(x*s, mu, f, a0, loop), x*qcd.m_s(s, mu, f, a0, loop), 'm_s-proportional',
                  f'm_s({x}*{s}, {mu}, {f})', rtol=1e-9)
        mon.case('def', a0, loop, b, c, s, mu, f)


def invalid(rng, mon, i):
    from wilson.util import qcd
    for _ in range(20):
        w, m, s, f, a0, loop = draw(rng)
        fn = getattr(qcd, w)
        fn(m, s, f, a0, loop)
        bf = int(rng.choice([2, 1, 0, -1, 7, 8]))
        bs = float(rng.choice([0., -1., -m]))
        mon.raises(ValueError, lambda: fn(m, s, bf, a0, loop), f'invalid-f:{w}', f'{w}({m}, {s}, f={bf})')
        mon.raises(ValueError, lambda: fn(m, bs, f, a0, loop), f'invalid-scale:{w}', f'{w}({m}, {bs}, {f})')
        mon.raises(ValueError, lambda: fn(m, m if w != 'm_s' else 2, bf, a0, loop), f'invalid-f:{w}', f'{w} at its own scale, f={bf}')
        if w != 'm_b':
            mon.raises(ValueError, lambda: fn(m, s, 6, a0, loop), f'invalid-f6:{w}', f'{w}({m}, {s}, f=6)')
        mon.case('invalid', w, m, s, bf, bs, f)


FAMILIES = [Family('reference', reference, 160, 2500), Family('definition', definition, 40, 600),
            Family('invalid', invalid, 12, 100)]
RULE = ('random histories of m_b/m_c/m_s requests (input mass, scale 0.9..1e4 and special values, every allowed f, '
        'alphas(MZ), loop 1..5, argument spellings, revisits); a case is a distinct request compared with an independent '
        'integration of the mass RGE with on-shell decoupling')
if __name__ == '__main__':
    mon.run('C02', RULE, FAMILIES, ['loop orders beyond the coded decoupling constants are compared with a chain of elementary rundec calls'])
