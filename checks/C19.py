"""Translation between the SMEFT bases."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft
from mon import Family
import copy, math
import numpy as np
from scipy.optimize import fsolve
import scipy.linalg

BASES = ['Warsaw', 'Warsaw up', 'Warsaw mass', 'Higgs-Warsaw up']
ROUTES = [('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw'), ('Warsaw', 'Warsaw mass'), ('Warsaw up', 'Higgs-Warsaw up'),
          ('Higgs-Warsaw up', 'Warsaw up'), ('Warsaw', 'Higgs-Warsaw up'), ('Higgs-Warsaw up', 'Warsaw')]


def defaults():
    from wilson.parameters import p
    return p


def V_of(p):
    from ckmutil.ckm import ckm_tree
    return ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])


NAMES = ['Vus', 'Vub', 'Vcb', 'gamma', 'GF', 'alpha_e', 'alpha_s', 'm_Z', 'm_h']


def params(rng):
    """(user parameters or None, the effective set)."""
    kind = int(rng.integers(3))
    d = dict(defaults())
    if kind == 0:
        return None, d
    while True:
        full = {'Vus': rng.uniform(.1, .5), 'Vub': rng.uniform(.003, .3), 'Vcb': rng.uniform(.03, .4), 'gamma': rng.uniform(-6.2, 6.2), 'GF': rng.uniform(.9e-5, 1.5e-5),
                'alpha_e': rng.uniform(.006, .0085), 'alpha_s': rng.uniform(.09, .13), 'm_Z': rng.uniform(85, 100), 'm_h': rng.uniform(100, 150)}
        full = {k: float(v) for k, v in full.items()}
        if kind == 2:
            full = {k: v for k, v in full.items() if rng.random() < .5}
        q = dict(d, **full)
        with np.errstate(all='ignore'):
            ok = np.all(np.isfinite(V_of(q)))
        if ok and 4 * math.pi * q['alpha_e'] / (math.sqrt(2) * q['GF'] * q['m_Z']**2) < .9:
            return full, q


def some(rng, basis, size=1e-8):
    n = [None, 1, 3, 40, 600][int(rng.integers(5))]
    keys = None
    if rng.random() < .4:
        from wilson import wcxf
        names = sorted({k.split('_')[0] for k in wcxf.Basis['SMEFT', basis].all_wcs})
        pick = set(rng.choice(names, size=int(rng.integers(1, 6)), replace=False))
        keys = [k for k in wcxf.Basis['SMEFT', basis].all_wcs if k.split('_')[0] in pick]
    return eft.random_wcs(rng, 'SMEFT', basis, n=n, size=size, keys=keys)


def wc(d, basis, scale=100.):
    from wilson import wcxf
    return wcxf.WC('SMEFT', basis, scale, wcxf.WC.dict2values(d))


_shapes = {}


def arrays(d, basis='Warsaw'):
    """Tensors carrying all index symmetries such that the sum over all indices reproduces the listed coefficients."""
    from wilson import wcxf
    names = wcxf.Basis['SMEFT', basis].all_wcs
    shapes = {k: (3,) * len(f) for k, f in eft.FIELDS.items()}
    return eft.symmetric_reference(d, shapes, eft.SMEFT_CLASS, names)


def listed(T, basis='Warsaw'):
    """Listed coefficients of tensors."""
    from wilson import wcxf
    out = {}
    for name, inds in eft.nonred_indices(wcxf.Basis['SMEFT', basis].all_wcs).items():
        if inds is None:
            out[name] = T[name]
            continue
        cls = eft.SMEFT_CLASS[name]
        w = eft.degeneracy(cls, (3,) * len(inds[0])) if cls != 8 else None
        if cls == 8:
            continue
        for t in inds:
            out[name + '_' + ''.join(str(j + 1) for j in t)] = T[name][t] * w[t]
    return out


def rotate(rng, mon, i):
    """Quark doublets are rotated by the CKM matrix and by nothing else."""
    user, p = params(rng)
    V = V_of(p)
    mon.check(np.max(abs(V @ V.conj().T - np.eye(3))) < 1e-12 and max(abs(abs(V[0, 1]) - p['Vus']), abs(abs(V[0, 2]) - p['Vub']), abs(abs(V[1, 2]) - p['Vcb'])) < 1e-12, 'ckm', str(p))
    up = bool(i % 2)
    a, b = ('Warsaw', 'Warsaw up') if up else ('Warsaw up', 'Warsaw')
    d = some(rng, a)
    got = dict(wc(d, a).translate(b, parameters=user).dict)
    one = np.eye(3)
    U = {'q': V.conj().T if up else V, 'u': one, 'd': one, 'l': one, 'e': one}
    T = arrays(d)
    R = listed(eft.rotate({k: v for k, v in T.items() if k != 'qqql'}, U))
    big = max(abs(v) for v in d.values())
    for k in set(got) | set(R):
        if k.startswith('qqql'):
            continue
        x, y = got.get(k, 0), R.get(k, 0)
        mon.check(abs(x - y) <= 1e-13 * big + 1e-10 * abs(y), f'rotate:{k.split("_")[0]}', f'{a}->{b} {k}: {x} expected {y}; {user} {list(d)[:5]}')
    # operators violating baryon number: compare through the full symmetrised tensor
    if any(k.startswith('qqql') for k in d):
        from wilson.util import smeftutil
        q1 = smeftutil.wcxf2arrays_symmetrized(got)['qqql']
        q0 = eft.rotate({'qqql': T['qqql']}, U)['qqql']
        mon.close(q1, q0, 'rotate:qqql', str(user), rtol=1e-9, atol=1e-13 * big)
    # there and back
    back = dict(wc(got, b).translate(a, parameters=user).dict)
    for k in set(back) | set(d):
        mon.check(abs(back.get(k, 0) - d.get(k, 0)) <= 1e-13 * big, f'roundtrip:{k.split("_")[0]}', f'{k}: {back.get(k, 0)} vs {d.get(k, 0)}')
    mon.case('rotate', a, b, tuple(sorted(d))[:40], str(user))
    mon.event(len(got))


def mass(rng, mon, i):
    """'Warsaw mass': up-type dipoles and Yukawa-like coefficients in the mass basis, neutrino operator diagonal, all else unchanged."""
    user, p = params(rng)
    d = some(rng, 'Warsaw')
    if i % 3 == 0:
        d.update({k: v for k, v in eft.random_wcs(rng, 'SMEFT', 'Warsaw', size=1e-8).items() if k.startswith('llphiphi')})
    got = dict(wc(d, 'Warsaw').translate('Warsaw mass', parameters=user).dict)
    V = V_of(p)
    big = max(abs(v) for v in d.values())
    ref = {k: v for k, v in d.items() if k.split('_')[0] not in ('uphi', 'uG', 'uW', 'uB', 'llphiphi')}
    for n in ('uphi', 'uG', 'uW', 'uB'):
        A = np.array([[d.get(f'{n}_{a}{b}', 0) for b in (1, 2, 3)] for a in (1, 2, 3)])
        R = V @ A
        ref.update({f'{n}_{a + 1}{b + 1}': R[a, b] for a in range(3) for b in range(3)})
    M = np.array([[d.get(f'llphiphi_{min(a, b)}{max(a, b)}', 0) for b in (1, 2, 3)] for a in (1, 2, 3)])
    sv = np.sort(np.linalg.svd(M)[1])
    g = [got.pop(f'llphiphi_{a}{a}', 0) for a in (1, 2, 3)]
    mon.check(np.max(abs(np.sort(np.real(g)) - sv)) <= 1e-9 * big and np.max(abs(np.imag(g))) <= 1e-12 * big, 'mass:llphiphi', f'{g} vs {sv}')
    mon.check(list(np.real(g)) == sorted(np.real(g)), 'mass:neutrino-order', str(g))
    for k in set(got) | set(ref):
        x, y = got.get(k, 0), ref.get(k, 0)
        mon.check(abs(x - y) <= 1e-14 * big + 1e-12 * abs(y), f'mass:{k.split("_")[0]}', f'{k}: {x} expected {y}; {user}')
    mon.case('mass', tuple(sorted(d))[:40], str(user))
    mon.event(len(got))


# ---- Higgs basis ----

def electroweak(W, p):
    """Vertex corrections: the Lagrangian is solved for g, g', v at fixed alpha_e, G_F, m_Z."""
    e0 = math.sqrt(4 * math.pi * p['alpha_e'])
    v0 = (math.sqrt(2) * p['GF'])**-.5
    s2 = .5 * (1 - math.sqrt(1 - e0**2 * v0**2 / p['m_Z']**2))
    g0, gp0 = e0 / math.sqrt(s2), e0 / math.sqrt(1 - s2)
    r = lambda k: complex(W.get(k, 0)).real

    def modes(g, gp, v):
        K = np.array([[1 - 2 * v**2 * r('phiW'), v**2 * r('phiWB')], [v**2 * r('phiWB'), 1 - 2 * v**2 * r('phiB')]])
        M = v**2 / 4 * (1 + v**2 / 2 * r('phiD')) * np.array([[g**2, -g * gp], [-g * gp, gp**2]])
        w, x = scipy.linalg.eigh(M, K)
        x = x * np.sign(x[0])
        return w, x

    def eqs(u):
        g, gp, v = u[0] * g0, u[1] * gp0, u[2] * v0
        w, x = modes(g, gp, v)
        e = g * x[0, 0]
        gf = (1 + v**2 * (r('phil3_11') + r('phil3_22')) - v**2 / 2 * r('ll_1221')) / v**2
        return [e / e0 - 1, gf * v0**2 - 1, w[1] / p['m_Z']**2 - 1]
    u = fsolve(eqs, [1, 1, 1], xtol=1e-14)
    g, gp, v = u[0] * g0, u[1] * gp0, u[2] * v0
    w, x = modes(g, gp, v)
    gz0 = math.hypot(g0, gp0)
    V = V_of(p)

    def herm(n):
        return np.array([[W.get(f'{n}_{a}{b}', 0) if a <= b else np.conj(W.get(f'{n}_{b}{a}', 0)) for b in (1, 2, 3)] for a in (1, 2, 3)])
    gz = (g * x[0, 1] - gp * x[1, 1]) * v**2 / 2 / gz0

    def delta(T3, Q, singlet, triplet):
        sm = g * T3 * x[0, 1] + gp * (Q - T3) * x[1, 1]
        return (sm / gz0 - (T3 - s2 * Q)) * np.eye(3) + gz * (2 * T3 * triplet - singlet)
    Z = np.zeros((3, 3))
    q1, q3 = herm('phiq1'), herm('phiq3')
    D = V.conj().T
    out = {'deltagZeL': delta(-.5, -1, herm('phil1'), herm('phil3')), 'deltagZeR': delta(0, -1, herm('phie'), Z),
           'deltagZuL': delta(.5, 2 / 3, q1, q3), 'deltagZdL': delta(-.5, -1 / 3, D @ q1 @ V, D @ q3 @ V),
           'deltagZuR': delta(0, 2 / 3, herm('phiu'), Z), 'deltagZdR': delta(0, -1 / 3, herm('phid'), Z)}
    geff = g * (1 - 2 * v**2 * r('phiW'))**-.5
    out['deltagWlL'] = (geff / g0 - 1) * np.eye(3) + geff / g0 * v**2 * herm('phil3')
    return {k: a / v0**2 for k, a in out.items()}


def higgs_ref(W, p):
    """Higgs-basis coefficients of Warsaw-up coefficients (normalised per GeV^2)."""
    f = [electroweak({k: x * v for k, v in W.items()}, p) for x in (1, -1, .5, -.5)]
    A = {k: (4 * (f[2][k] - f[3][k]) - (f[0][k] - f[1][k]) / 2) / 3 for k in f[0]}     # first order, cubic terms extrapolated away
    H = {k: v for k, v in W.items() if k.split('_')[0] not in ('phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid', 'phiud', 'phi', 'phiBox', 'phiD', 'phiG', 'phiW',
                                                            'phiB', 'phiWB', 'phiGtilde', 'phiWtilde', 'phiBtilde', 'phiWtildeB')}
    for k in A:
        M = A[k]
        H.update({f'{k}_{a + 1}{b + 1}': M[a, b] for a in range(3) for b in range(a, 3)})
    for a in '123':
        for b in '123':
            H[f'deltagWqR_{a}{b}'] = -W.get(f'phiud_{a}{b}', 0) / 2
    e = math.sqrt(4 * math.pi * p['alpha_e'])
    v = (math.sqrt(2) * p['GF'])**-.5
    th = .5 * math.asin(e * v / p['m_Z'])       # sin 2theta = e v / m_Z
    g, gp = e / math.sin(th), e / math.cos(th)
    gs2 = 4 * math.pi * p['alpha_s']
    w = lambda k: W.get(k, 0)
    dv = w('phil3_11') + w('phil3_22') - w('ll_1221') / 2        # shift of the Fermi constant
    lam = p['m_h']**2 / 2 / v**2
    H['deltacz'] = w('phiBox') - w('phiD') / 4 - 1.5 * dv
    H['deltalambda3'] = lam * (3 * w('phiBox') - .75 * w('phiD') - .5 * dv) - w('phi')
    H['czBox'] = (dv + w('phiD') / 2) / g**2
    for t in ('', 'tilde'):
        # field-strength couplings of the physical photon and Z: rotate (W3, B)
        CW, CB, CX = w('phiW' + t), w('phiB' + t), w('phiWB' if not t else 'phiWtildeB')
        Q = np.array([[CW, -CX / 2], [-CX / 2, CB]])
        c, s = math.cos(th), math.sin(th)
        R = np.array([[c, -s], [s, c]])              # rows Z, A in terms of W3, B
        m = R @ Q @ R.T
        gz2 = g**2 + gp**2
        H['cgg' + t] = 4 * w('phiG' + t) / gs2
        H['czz' + t] = 4 * m[0, 0] / gz2
        H['cgammagamma' + t] = 4 * m[1, 1] / e**2
        H['czgamma' + t] = 4 * m[0, 1] / (e * math.sqrt(gz2))
    return H


def higgs(rng, mon, i):
    user, p = params(rng)
    size = 1e-9
    d = some(rng, 'Warsaw up', size=size)
    if i % 3 == 0:
        for k, v in eft.random_wcs(rng, 'SMEFT', 'Warsaw up', size=size).items():
            if k.startswith('phi') and rng.random() < .5:
                d[k] = v
    got = dict(wc(d, 'Warsaw up').translate('Higgs-Warsaw up', parameters=user).dict)
    ref = higgs_ref(d, p)
    for k in set(got) | set(ref):
        x, y = got.get(k, 0), ref.get(k, 0)
        tol = 1e-8 if k.startswith('deltagZ') or k.startswith('deltagW') else 1e-12
        mon.check(abs(x - y) <= tol * size * 10 + 1e-9 * abs(y), f'higgs:{k.split("_")[0]}', f'{k}: {x} expected {y}; {user} {list(d)[:6]}')
    mon.event(len(got))
    back = dict(wc(got, 'Higgs-Warsaw up').translate('Warsaw up', parameters=user).dict)
    big = max([abs(v) for v in got.values()] + [size])
    for k in set(back) | set(d):
        mon.check(abs(back.get(k, 0) - d.get(k, 0)) <= 1e-12 * big, f'higgs-roundtrip:{k.split("_")[0]}', f'{k}: {back.get(k, 0)} vs {d.get(k, 0)}; {user}')
    # start in the Higgs basis
    h = some(rng, 'Higgs-Warsaw up', size=size)
    up = dict(wc(h, 'Higgs-Warsaw up').translate('Warsaw up', parameters=user).dict)
    again = dict(wc(up, 'Warsaw up').translate('Higgs-Warsaw up', parameters=user).dict)
    big = max([abs(v) for v in up.values()] + [size]) * 30
    for k in set(again) | set(h):
        mon.check(abs(again.get(k, 0) - h.get(k, 0)) <= 1e-12 * big, f'higgs-roundtrip2:{k.split("_")[0]}', f'{k}: {again.get(k, 0)} vs {h.get(k, 0)}; {user}')
    mon.case('higgs', tuple(sorted(d))[:40], tuple(sorted(h))[:40], str(user))


def interface(rng, mon, i):
    """Result object, inputs untouched, names and reality, linearity, composition of routes, unknown routes."""
    from wilson import wcxf
    a, b = ROUTES[i % len(ROUTES)]
    user, p = params(rng)
    d = some(rng, a)
    scale = float(rng.uniform(80, 1e4))
    w = wc(d, a, scale)
    before = (copy.deepcopy(w.values), dict(w.dict), copy.deepcopy(user), dict(defaults()))
    r = w.translate(b, parameters=user)
    mon.check(before == (w.values, dict(w.dict), user, dict(defaults())), 'mutates', f'{a}->{b}')
    mon.eq((r.eft, r.basis, r.scale), ('SMEFT', b, scale), 'header')
    try:
        r.validate()
        mon.count('validated')
    except ValueError as e:
        mon.violate('invalid', f'{a}->{b}: {e}')
    real = eft.sectors_real('SMEFT', b)
    big = max([abs(v) for v in r.dict.values()] + [1e-30])
    for k, v in r.dict.items():
        if real.get(k):
            mon.check(abs(complex(v).imag) <= 1e-12 * big, 'real', f'{a}->{b} {k}: {v}')
    mon.eq(dict(wc(d, a, scale).translate(b, parameters=copy.deepcopy(user)).dict), dict(r.dict), 'repeatable')
    if p is not None and user is not None:
        mon.dclose(dict(wc(d, a, 3 * scale).translate(b, parameters=p).dict), dict(r.dict), 'defaults-filled', '', rtol=1e-12)
    if (a, b) in (('Warsaw', 'Higgs-Warsaw up'), ('Higgs-Warsaw up', 'Warsaw')):
        via = w.translate('Warsaw up', parameters=user).translate(b, parameters=user)
        mon.dclose(dict(via.dict), dict(r.dict), 'composition', f'{a}->{b}', rtol=1e-12, atol=1e-14 * big)
    if b != 'Warsaw mass':
        d1 = {k: v for j, (k, v) in enumerate(sorted(d.items())) if j % 2}
        d2 = {k: -2.5 * v for j, (k, v) in enumerate(sorted(d.items())) if not j % 2}
        r1, r2 = (wc(x, a, scale).translate(b, parameters=user).dict for x in (d1, d2))
        tot = {k: r1.get(k, 0) + r2.get(k, 0) / -2.5 for k in set(r1) | set(r2)}
        mon.dclose(tot, dict(r.dict), 'linear', f'{a}->{b}', rtol=1e-9, atol=1e-12 * big)
    mon.eq(dict(wc({}, a, scale).translate(b, parameters=user).dict), {}, 'empty')
    mon.eq(w.translate(a, parameters=user) is w, True, 'self')
    mon.raises(ValueError, lambda: w.translate('Foo'), 'unknown', a)
    have = set(ROUTES)
    for c in BASES:
        if c != a and (a, c) not in have:
            mon.raises(ValueError, lambda: w.translate(c), 'no-route', f'{a}->{c}')
    mon.case('interface', a, b, tuple(sorted(d))[:40], str(user))


FAMILIES = [Family('rotate', rotate, 80, 2000), Family('mass', mass, 60, 2000), Family('higgs', higgs, 60, 1500), Family('interface', interface, 70, 1400)]
RULE = ('tensor rotation, singular values, and an electroweak Lagrangian solved at fixed inputs as references, coefficient by coefficient; routes back and forth; '
        'a case is a distinct coefficient set and parameter set')
if __name__ == '__main__':
    mon.run('C19', RULE, FAMILIES)
