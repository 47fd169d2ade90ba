"""Matching of the SMEFT onto the theory below the electroweak scale."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, golden, matchref
from mon import Family
import copy
import numpy as np
SIZE = 1e-10


def params(rng):
    """User supplied parameters; a subset of them, possibly none; those for which no unitary CKM matrix exists are left out."""
    from ckmutil.ckm import ckm_tree
    from wilson.run.smeft.smpar import p as dp
    while True:
        p = _params(rng)
        q = dict(dp, **(p or {}))
        with np.errstate(all='ignore'):
            if np.all(np.isfinite(ckm_tree(q['Vus'], q['Vub'], q['Vcb'], q['gamma']))):
                return p


def _params(rng):
    kind = int(rng.integers(3))
    if kind == 0:
        return None
    full = {'Vus': rng.uniform(.1, .6), 'Vub': rng.uniform(.003, .4), 'Vcb': rng.uniform(.03, .5), 'gamma': rng.uniform(-6.2, 6.2),
            'GF': rng.uniform(.9e-5, 1.6e-5), 'm_W': rng.uniform(70, 90), 'alpha_e': rng.uniform(.006, .009), 'alpha_s': rng.uniform(.09, .13)}
    full = {k: float(v) for k, v in full.items()}
    if kind == 2:
        full = {k: v for k, v in full.items() if rng.random() < .5}
    return full


def wcs(rng, basis, size=SIZE):
    n = [None, 1, 3, 30, 400][int(rng.integers(5))]
    keys = None
    if rng.random() < .5:
        from wilson import wcxf
        names = sorted({k.split('_')[0] for k in wcxf.Basis['SMEFT', basis].all_wcs})
        pick = set(rng.choice(names, size=int(rng.integers(1, 5)), replace=False))
        keys = [k for k in wcxf.Basis['SMEFT', basis].all_wcs if k.split('_')[0] in pick]
    return eft.random_wcs(rng, 'SMEFT', basis, n=n, size=size, keys=keys)


def wc(d, basis='Warsaw up', scale=160., e='SMEFT'):
    from wilson import wcxf
    return wcxf.WC(e, basis, scale, wcxf.WC.dict2values(d))


def linear(f, d):
    """Part of f odd in the coefficients (cubic terms are negligible at this size)."""
    a, b = f(d), f({k: -v for k, v in d.items()})
    return {k: (a.get(k, 0) - b.get(k, 0)) / 2 for k in set(a) | set(b)}


def tree(rng, mon, i):
    """Tree-level result against an independent elimination of the W and Z bosons."""
    d = wcs(rng, 'Warsaw up')
    p = params(rng)
    scale = float(rng.choice([91.2, 120., 160., 250.]))
    got = linear(lambda c: wc(c, scale=scale).match('WET', 'JMS', parameters=p).dict, d)
    ref = matchref.jms(d, p)
    big = max(abs(v) for v in ref.values()) if ref else 0
    for k in set(got) | set(ref):
        a, b = got.get(k, 0), ref.get(k, 0)
        s = 100. if k.split('_')[0] in ('egamma', 'ugamma', 'dgamma', 'uG', 'dG') else 1.
        mon.check(abs(a - b) <= 1e-7 * abs(b) + 1e-8 * SIZE * s, f'tree:{k.split("_")[0]}', f'{k}: {a} expected {b}; p={p}')
    mon.event(len(got), 'coefficients')
    for k in ref:
        if abs(ref[k]) > 1e-3 * SIZE:
            mon.count('nonzero outputs')
    mon.case('tree', tuple(sorted(d))[:50], len(d), str(p))


def single(rng, mon, i):
    """One coefficient at a time: every SMEFT coefficient is visited."""
    from wilson import wcxf
    names = sorted(wcxf.Basis['SMEFT', 'Warsaw up'].all_wcs)
    real = eft.sectors_real('SMEFT', 'Warsaw up')
    todo = [k for j, k in enumerate(names) if j % NSING == i]
    for k in todo:
        z = complex(*rng.uniform(.3, 1, size=2)) * SIZE
        d = {k: z.real if real[k] else z}
        got = linear(lambda c: wc(c).match('WET', 'JMS').dict, d)
        ref = matchref.jms(d, None)
        for q in set(got) | set(ref):
            a, b = got.get(q, 0), ref.get(q, 0)
            s = 100. if q.split('_')[0] in ('egamma', 'ugamma', 'dgamma', 'uG', 'dG') else 1.
            mon.check(abs(a - b) <= 1e-7 * abs(b) + 1e-9 * SIZE * s, f'single:{k.split("_")[0]}->{q.split("_")[0]}', f'{k} -> {q}: {a} expected {b}')
        mon.case('single', k)


NSING = 16


def interface(rng, mon, i):
    """Result object, inputs untouched, valid keys and reality, both Warsaw bases and all output bases consistent, no memory of earlier calls."""
    from wilson import wcxf
    from wilson.match import smeft
    basis = ['Warsaw', 'Warsaw up'][i % 2]
    size = float(10.0**rng.uniform(-12, -7))
    d = wcs(rng, basis, size=size)
    p = params(rng)
    if rng.random() < .4:
        p = dict(p or {}, loop_order=int(rng.integers(2)))
    scale = float(rng.uniform(80, 300))
    w = wc(d, basis, scale)
    before = (copy.deepcopy(w.values), dict(w.dict), copy.deepcopy(p))
    r = w.match('WET', 'JMS', parameters=p)
    mon.check(before == (w.values, dict(w.dict), p), 'mutates', '')
    mon.eq((r.eft, r.basis, r.scale), ('WET', 'JMS', scale), 'header')
    real = eft.sectors_real('WET', 'JMS')
    for k, v in r.dict.items():
        if not mon.check(k in real, 'unknown-key', k):
            break
        mon.check(np.isfinite(v), 'finite', f'{k} {v}')
        if real.get(k):
            mon.check(abs(complex(v).imag) <= 1e-9 * abs(v) + 1e-12 * size, 'real', f'{k}: {v}')
    q = wc(d, basis, scale).match('WET', 'JMS', parameters=copy.deepcopy(p))
    mon.eq(dict(q.dict), dict(r.dict), 'repeatable')
    if basis == 'Warsaw':
        up = wc(d, basis, scale).translate('Warsaw up', parameters=p)
        mon.dclose(dict(up.match('WET', 'JMS', parameters=p).dict), dict(r.dict), 'warsaw-route', '', rtol=1e-10)
    for b in ['flavio', 'EOS'] + (['Bern'] if basis == 'Warsaw' else []):
        if (basis, b) == ('Warsaw up', 'EOS'):
            continue
        got = w.match('WET', b, parameters=p)
        mon.eq((got.eft, got.basis, got.scale), ('WET', b, scale), 'header')
        ref = r.translate(b, parameters=p)
        mon.dclose(dict(got.dict), dict(ref.dict), f'route:{b}', basis, rtol=1e-9)
    # match of nothing is nothing
    if i % 10 == 0:
        z = wc({}, basis, scale).match('WET', 'JMS', parameters=p)
        mon.eq(dict(z.dict), {}, 'empty', str(p))
    for bad in (('WET', 'Foo'), ('WET-4', 'JMS'), ('WET-3', 'flavio')):
        mon.raises(ValueError, lambda: w.match(*bad), 'unknown-target', str(bad))
    mon.eq(w.match('SMEFT', basis) is w, True, 'self-match')
    mon.case('interface', basis, size, str(p))


def conjugate_gamma(p):
    """The angle for which the CKM library returns the conjugate matrix (it is not odd in the angle)."""
    from ckmutil.ckm import ckm_tree
    from scipy.optimize import brentq
    V = ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
    f = lambda g: np.angle(ckm_tree(p['Vus'], p['Vub'], p['Vcb'], g)[0, 2] * V[0, 2])
    grid = np.linspace(-np.pi, np.pi, 721)
    with np.errstate(all='ignore'):
        far = [np.max(abs(ckm_tree(p['Vus'], p['Vub'], p['Vcb'], g) - V.conj())) for g in grid]
    g = grid[int(np.nanargmin(far))]
    g = brentq(f, g - .02, g + .02, xtol=1e-15)
    assert np.max(abs(ckm_tree(p['Vus'], p['Vub'], p['Vcb'], g) - V.conj())) < 1e-13
    return float(g)


def loopsym(rng, mon, i):
    """Loop contributions: only on request, first-order linear, respecting CP and the exchange of electron and muon."""
    loop = {'loop_order': 1}
    full = {'Vus': rng.uniform(.1, .5), 'Vub': rng.uniform(.003, .3), 'Vcb': rng.uniform(.03, .5), 'gamma': rng.uniform(.2, 1.)}
    p = {k: float(v) for k, v in full.items()}
    if rng.random() < .5:
        p.update({k: float(rng.uniform(.5, 40)) for k in ('m_u', 'm_d', 'm_c', 'm_s', 'm_b', 'm_e', 'm_mu', 'm_tau')})
    p.update(loop)
    scale = float(rng.uniform(80, 300))
    d = wcs(rng, 'Warsaw up')

    def f(c, p=p):
        return wc(c, scale=scale).match('WET', 'JMS', parameters=p).dict
    A = linear(f, d)
    T = linear(lambda c: f(c, {k: v for k, v in p.items() if k != 'loop_order'}), d)
    T0 = linear(lambda c: f(c, dict(p, loop_order=0)), d)
    mon.eq(T, T0, 'default-order')
    if i % 4 == 0:
        ref = matchref.jms(d, p)
        for k in set(T) | set(ref):
            s = 100. if k.split('_')[0] in ('egamma', 'ugamma', 'dgamma', 'uG', 'dG') else 1.
            mon.check(abs(T.get(k, 0) - ref.get(k, 0)) <= 1e-7 * abs(ref.get(k, 0)) + 1e-8 * SIZE * s, f'tree:{k.split("_")[0]}', k)
    L = {k: A.get(k, 0) - T.get(k, 0) for k in set(A) | set(T)}
    tol = max([abs(v) for v in L.values()] + [SIZE])
    # CP: conjugate everything
    odd = {'Gtilde', 'Wtilde', 'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB'}
    dc = {k: -v if k in odd else np.conj(v).item() if hasattr(np.conj(v), 'item') else np.conj(v) for k, v in d.items()}
    pc = dict(p, gamma=conjugate_gamma(p))
    B = linear(lambda c: f(c, pc), dc)
    for k in set(A) | set(B):
        ref = -A.get(k, 0) if k == 'Gtilde' else np.conj(A.get(k, 0))
        mon.check(abs(B.get(k, 0) - ref) <= 1e-9 * tol + 1e-8 * abs(ref), f'CP:{k.split("_")[0]}', f'{k}: {B.get(k, 0)} vs {ref}; {p} {list(d)[:5]}')
    # nothing special happens at the scale of the Z mass, of the top mass, or at a round number
    if i % 2:
        from wilson.run.smeft.smpar import p as inputs
        s0 = [inputs['m_Z'], 91.1876, 160., inputs['m_h'], inputs['m_W'], 173.21, 246.22, 100.][i // 2 % 8]
        at, near = (linear(lambda c: wc(c, scale=x).match('WET', 'JMS', parameters=p).dict, d) for x in (s0, s0 * (1 + 1e-7)))
        for k in set(at) | set(near):
            a, b = at.get(k, 0), near.get(k, 0)
            mon.check(abs(a - b) <= 1e-5 * tol + 1e-5 * abs(b), f'scale-continuity:{k.split("_")[0]}', f'{k} at {s0}: {a}, next to it {b}; {list(d)[:5]}')
        mon.count('scale-continuity')
    # electron <-> muon
    T12 = {'e': [1, 0, 2], 'nu': [1, 0, 2], 'l': [1, 0, 2], 'u': [0, 1, 2], 'd': [0, 1, 2], 'q': [0, 1, 2]}
    pe = dict(p)
    from wilson.run.smeft.smpar import p as dp
    pe['m_e'], pe['m_mu'] = p.get('m_mu', dp['m_mu']), p.get('m_e', dp['m_e'])
    de = matchref.relabel_smeft(d, T12)
    E = linear(lambda c: f(c, pe), de)
    R = matchref.relabel_wet(A, T12)
    for k in set(E) | set(R):
        mon.check(abs(E.get(k, 0) - R.get(k, 0)) <= 1e-9 * tol + 1e-8 * abs(R.get(k, 0)), f'e-mu:{k.split("_")[0]}', f'{k}: {E.get(k, 0)} vs {R.get(k, 0)}; {list(d)[:5]}')
    # linear superposition
    d1 = {k: v for j, (k, v) in enumerate(sorted(d.items())) if j % 2}
    d2 = {k: v for j, (k, v) in enumerate(sorted(d.items())) if not j % 2}
    X, Y = linear(f, d1), linear(f, d2)
    for k in A:
        mon.check(abs(X.get(k, 0) + Y.get(k, 0) - A[k]) <= 1e-8 * tol + 1e-8 * abs(A[k]), f'linear:{k.split("_")[0]}', k)
    mon.case('loop', tuple(sorted(d))[:40], len(d), str(sorted(p.items())))


def recorded(rng, mon, i):
    """Recorded one-loop and tree results, class by class, with widely separated outputs compared individually."""
    G = golden.load('match')
    v, j = divmod(i, len(golden.MATCH_CLASSES))
    name = golden.MATCH_CLASSES[j]
    got = golden.match_point(name, v)
    keys, vals = G[f'{name}|{v}|k'], G[f'{name}|{v}|v']
    ref = dict(zip(keys.tolist(), vals.tolist()))
    big = max([abs(x) for x in ref.values()] + [0])
    for k in set(got) | set(ref):
        a, b = got.get(k, 0), ref.get(k, 0)
        mon.check(abs(a - b) <= 1e-6 * abs(b) + 1e-11 * big, f'recorded:{name}->{k.split("_")[0]}', f'{name}/{v} {k}: {a} recorded {b}')
    mon.case('recorded', name, v)


FAMILIES = [Family('tree', tree, 60, 600), Family('single', single, NSING, NSING), Family('interface', interface, 60, 600),
            Family('loopsym', loopsym, 24, 400), Family('recorded', recorded, 2 * len(golden.MATCH_CLASSES), 2 * len(golden.MATCH_CLASSES))]
RULE = ('elimination of W, Z and Higgs written independently and compared per coefficient at first order, result interface, equality of all routes, '
        'CP and electron-muon exchange of the loop terms, recorded values class by class; a case is a distinct coefficient set, parameters and scale')
if __name__ == '__main__':
    mon.run('C18', RULE, FAMILIES)
