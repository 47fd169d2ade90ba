"""Translation between the JMS, flavio and Bern bases below the electroweak scale."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, lagr, wetpar
from mon import Family
import copy
import numpy as np

EFTS = ['WET', 'WET-4', 'WET-3']
BASES = ['JMS', 'flavio', 'Bern']
PAIRS = [(a, b) for a in BASES for b in BASES if a != b]


def wc(e, b, d, scale):
    from wilson import wcxf
    return wcxf.WC(e, b, scale, wcxf.WC.dict2values(d))


_terms = {}


def theory(e, b, p):
    real = eft.sectors_real(e, b)
    if b == 'JMS':
        if e not in _terms:
            t = lagr.jms(real)
            _terms[e] = t, lagr.Solver(t)
        return _terms[e]
    t = {'flavio': lagr.flavio, 'Bern': lagr.bern}[b](real, p)
    return t, lagr.Solver(t)


def subset(rng, real, p_full=.3):
    keys = sorted(real)
    if rng.random() < p_full:
        return keys
    n = int(rng.choice([1, 2, 5, 30, 200]))
    return [keys[j] for j in sorted(rng.choice(len(keys), size=min(n, len(keys)), replace=False))]


def numbers(rng, keys, real, size):
    out = {}
    for k in keys:
        z = gen.cplx(rng) * size * 10**rng.uniform(-2, 2)
        out[k] = gen.part(z, real[k])
    return out


def forward(rng, mon, i):
    """Both coefficient sets describe the same function of the quark and lepton fields."""
    e = EFTS[i % 3]
    a = ['flavio', 'Bern'][(i // 3) % 2]
    user, scale, p = wetpar.draw(rng)
    t, _ = theory(e, a, p)
    j, _ = theory(e, 'JMS', p)
    real = eft.sectors_real(e, a)
    d = numbers(rng, subset(rng, real), real, float(10.0**rng.uniform(-12, 0)))
    r = dict(wc(e, a, d, scale).translate('JMS', parameters=user).dict)
    rj = eft.sectors_real(e, 'JMS')
    bad = [k for k in r if k not in j]
    if not mon.check(not bad, 'forward:unknown', f'{e} {a}: {bad[:5]}'):
        return
    for k in r:
        if rj[k]:
            mon.check(abs(complex(r[k]).imag) <= 1e-13 * max(abs(v) for v in r.values()), 'forward:real', f'{e} {a} {k}: {r[k]}')
    L1, L2 = lagr.lagrangian(t, d), lagr.lagrangian(j, r)
    top = max([np.max(abs(v)) for v in L1.values()] + [0])
    for c in set(L1) | set(L2):
        x, y = L1.get(c, 0), L2.get(c, 0)
        ref = max(np.max(np.abs(x)), 1e-10 * top if c not in L1 else 0)
        mon.check(np.max(np.abs(x - y)) <= wetpar.RTOL * ref, f'forward:{a}', f'{e} {a}->JMS, fields {c}: {np.max(np.abs(x - y))} of {np.max(np.abs(x))}; {user}, scale {scale}, {sorted(d)[:6]}')
    mon.event(len(L1), 'field products')
    mon.case('forward', e, a, tuple(sorted(d))[:60], len(d), str(user), scale)


def single(rng, mon, i):
    """Every coefficient of every basis on its own, in every direction in which it can be expressed."""
    e = EFTS[i % 3]
    a, b = PAIRS[(i // 3) % len(PAIRS)]
    user, scale, p = wetpar.draw(rng)
    ta, sa = theory(e, a, p)
    tb, sb = theory(e, b, p)
    real = eft.sectors_real(e, a)
    rb = eft.sectors_real(e, b)
    for j, k in enumerate(sorted(real)):
        if k not in ta or j % 4 != (i // 18) % 4:
            continue                     # baryon-number violating: no counterpart
        z = complex(*rng.uniform(.3, 1, size=2))
        d = {k: z.real if real[k] else z}
        L = lagr.lagrangian(ta, d)
        ref, bad = sb.solve(L)
        got = dict(wc(e, a, d, scale).translate(b, parameters=user).dict)
        if bad:
            if all(sb.component(c) is None for c in L):
                mon.check(not got, f'single:absent:{a}->{b}', f'{e} {k} -> {got}')
                mon.count('no counterpart')
            else:
                mon.count('partly expressible')
            continue
        mon.count('expressible')
        big = max(abs(v) for v in ref.values())
        for q in set(got) | set(ref):
            x, y = got.get(q, 0), ref.get(q, 0)
            mon.check(abs(x - y) <= wetpar.RTOL * max(abs(y), 1e-2 * big), f'single:{a}->{b}', f'{e} {k} -> {q}: {x} expected {y}; {user}, scale {scale}')
    mon.case('single', e, a, b, str(user), scale)


def backward(rng, mon, i):
    """Input reconstructed from the wanted output: the output must come back, and unreachable parts must not leak in."""
    e = EFTS[i % 3]
    a, b = PAIRS[(i // 3) % len(PAIRS)]
    user, scale, p = wetpar.draw(rng)
    ta, sa = theory(e, a, p)
    tb, sb = theory(e, b, p)
    real = eft.sectors_real(e, b)
    want = numbers(rng, [k for k in subset(rng, real) if k in tb], real, float(10.0**rng.uniform(-10, 0)))
    good = {}
    for k, v in want.items():
        _, bad = sa.solve(lagr.lagrangian(tb, {k: v}))
        if not bad:
            good[k] = v
    if not good:
        mon.count('nothing expressible')
        return
    d, bad = sa.solve(lagr.lagrangian(tb, good))
    assert not bad
    ra = eft.sectors_real(e, a)
    d = {k: (v.real if ra[k] else v) for k, v in d.items() if v != 0}
    extra = 0
    for k in ra:                   # coefficients without any counterpart
        if (k not in ta or all(sb.component(c) is None for c in sa.cls[k])) and rng.random() < .2:
            d[k] = float(rng.normal())
            extra += 1
    r = dict(wc(e, a, d, scale).translate(b, parameters=user).dict)
    comp = {}
    for k, v in good.items():
        g = sb.component(sb.cls[k][0])
        comp[g] = max(comp.get(g, 0), abs(v))
    for k in set(r) | set(good):
        x, y = r.get(k, 0), good.get(k, 0)
        if not mon.check(k in tb, f'backward:unknown:{a}->{b}', f'{e} {k}'):
            continue
        big = comp.get(sb.component(sb.cls[k][0]), 0)
        mon.check(abs(x - y) <= wetpar.RTOL * (abs(y) + 1e-2 * big), f'backward:{a}->{b}', f'{e} {k}: {x} expected {y}; {user}, scale {scale}')
    mon.event(extra, 'coefficients without counterpart')
    mon.event(len(good), 'expected outputs')
    mon.case('backward', e, a, b, tuple(sorted(good))[:60], len(good), str(user), scale)


def interface(rng, mon, i):
    """Result object, inputs untouched, valid names and real numbers, superposition, restriction to sectors, round trips."""
    from wilson import wcxf
    e = EFTS[i % 3]
    a, b = PAIRS[(i // 3) % len(PAIRS)]
    user, scale, p = wetpar.draw(rng)
    real = eft.sectors_real(e, a)
    d = numbers(rng, subset(rng, real), real, float(10.0**rng.uniform(-12, 0)))
    w = wc(e, a, d, scale)
    before = (copy.deepcopy(w.values), dict(w.dict), copy.deepcopy(user))
    r = w.translate(b, parameters=user)
    mon.check(before == (w.values, dict(w.dict), user), 'mutates', f'{e} {a}->{b}')
    mon.eq((r.eft, r.basis, r.scale), (e, b, scale), 'header')
    rb = eft.sectors_real(e, b)
    full = dict(r.dict)
    big = max([abs(v) for v in full.values()] + [1e-300])
    for k, v in full.items():
        if not mon.check(k in rb, 'unknown-key', f'{e} {a}->{b}: {k}'):
            break
        mon.check(np.isfinite(v) and not (rb[k] and abs(complex(v).imag) > 1e-13 * big), 'real', f'{e} {a}->{b} {k}: {v}')
    mon.eq(dict(wc(e, a, d, scale).translate(b, parameters=copy.deepcopy(user)).dict), full, 'repeatable', f'{e} {a}->{b}')
    d1 = {k: v for j, (k, v) in enumerate(sorted(d.items())) if j % 2}
    d2 = {k: 2. * v for j, (k, v) in enumerate(sorted(d.items())) if not j % 2}
    r1, r2 = (wc(e, a, x, scale).translate(b, parameters=user).dict for x in (d1, d2))
    for k in set(full) | set(r1) | set(r2):
        x, y = r1.get(k, 0) + r2.get(k, 0) / 2, full.get(k, 0)
        mon.check(abs(x - y) <= 1e-10 * abs(y) + 1e-14 * big, 'linear', f'{e} {a}->{b} {k}: {x} vs {y}')
    mon.eq(dict(wc(e, a, {}, scale).translate(b, parameters=user).dict), {}, 'empty', f'{e} {a}->{b}')
    # restriction to sectors: exact inside, nothing different outside
    if {a, b} == {'JMS', 'flavio'}:
        secs = wcxf.Basis[e, b].sectors
        names = sorted(set(secs) & set(wcxf.Basis[e, a].sectors))
        for _ in range(4):
            pick = [str(x) for x in rng.choice(names, size=int(rng.integers(1, 4)), replace=False)]
            part = dict(w.translate(b, parameters=user, sectors=tuple(pick)).dict)
            inside = {k for s in pick for k in secs[s]}
            for k in inside | set(part):
                x, y = part.get(k, 0), full.get(k, 0)
                mon.check(abs(x - y) <= 1e-12 * abs(y), f'sectors:{a}->{b}', f'{e} {pick} {k}: {x} vs {y}')
            mon.count('sector selections')
    # there and back
    if b == 'JMS':
        back = dict(r.translate(a, parameters=user).dict)
        _, sa = theory(e, a, p)
        comp = {}
        for k, v in d.items():
            g = sa.component(sa.cls[k][0])
            comp[g] = max(comp.get(g, 0), abs(v))
        for k in set(back) | set(d):
            x, y = back.get(k, 0), d.get(k, 0)
            mon.check(abs(x - y) <= 1e-10 * abs(y) + 1e-11 * comp.get(sa.component(sa.cls[k][0]), 0), f'roundtrip:{a}', f'{e} {k}: {x} vs {y}')
    mon.eq(w.translate(a, parameters=user) is w, True, 'self')
    mon.raises(ValueError, lambda: w.translate('Foo'), 'unknown-basis')
    mon.case('interface', e, a, b, tuple(sorted(d))[:40], len(d), str(user))


FAMILIES = [Family('forward', forward, 120, 4000), Family('single', single, 72, 720), Family('backward', backward, 120, 4000), Family('interface', interface, 108, 1800)]
RULE = ('both coefficient sets evaluated as functions of anticommuting quark and lepton fields and compared per product of fields; inverse directions solved from those '
        'functions; sector restrictions, round trips; a case is a distinct theory, basis pair, coefficient set, parameters and scale')
if __name__ == '__main__':
    mon.run('C20', RULE, FAMILIES)
