"""Extraction of Standard Model parameters in the presence of dimension-six operators."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, smeftgen
from mon import Family
import copy, math
import numpy as np
SM = smeftgen.SM
AFFECT = ['phi', 'phiBox', 'phiD', 'phiG', 'phiB', 'phiW', 'phiWB', 'uphi', 'dphi', 'ephi', 'llphiphi']


def wcs(rng, size):
    kind = int(rng.integers(4))
    keys = None if kind == 0 else set() if kind == 1 else {str(rng.choice(AFFECT))} if kind == 2 else set(AFFECT)
    C = {k: v for k, v in smeftgen.point(rng, size=size, keys=keys).items() if k not in SM}
    # stay in the perturbative range of light masses
    for k in ('uphi', 'dphi', 'ephi'):
        if rng.random() < .7:
            C[k] = C[k] * 1e-3
    return kind, C


def inverse(rng, mon, i):
    """Parameters obtained for given coefficients reproduce the physical inputs (all but the redundant m_Z), in both weak bases and in any other."""
    from wilson.run.smeft import smpar
    size = float(10.0**rng.uniform(-10, -6.5))
    kind, C = wcs(rng, size)
    basis = ['Warsaw', 'Warsaw up'][i % 2]
    C0, p0 = copy.deepcopy(C), dict(smpar.p)
    c = smpar.smeftpar(float(rng.choice([91.1876, 160., 1000.])), C, basis)
    mon.check(set(c) == set(SM), 'keys', f'{sorted(c)}')
    mon.check(all(np.array_equal(C[k], C0[k]) for k in C0) and set(C) == set(C0) and smpar.p == p0, 'mutates', '')
    full = dict(C, **c)
    f0 = copy.deepcopy(full)
    q = smpar.smpar(full)
    mon.check(all(np.array_equal(full[k], f0[k]) for k in f0), 'mutates', 'smpar')
    mon.check(set(q) == set(smpar.p), 'out-keys', f'{set(q) ^ set(smpar.p)}')
    for k in p0:
        mon.check(isinstance(q[k], (float, np.floating)), f'type:{k}', f'{type(q[k])}')
        if k != 'm_Z':
            # small masses and angles come out of a matrix of size v: absolute floor
            floor = 1e-12 * (170. if k.startswith('m_') else 1)
            if k in ('Vub', 'Vcb', 'Vus', 'gamma'):
                floor = 1e-7
            mon.close(q[k], p0[k], f'inverse:{k}', f'{basis} kind={kind} size={size:.3g}', rtol=1e-9, atol=floor + (1e-10 * p0[k]))
    # in any weak basis
    U = {f: eft.unitary(rng) for f in 'qudle'}
    r = smpar.smpar(eft.rotate(full, U))
    for k in q:
        floor = 1e-11 * (170. if k.startswith('m_') else 1)
        if k in ('Vub', 'Vcb', 'Vus', 'gamma'):
            floor = 1e-7
        mon.close(r[k], q[k], f'basis-independent:{k}', '', rtol=1e-9, atol=floor)
    # the mass matrices are in the stated basis (independent construction)
    v2 = 1 / (math.sqrt(2) * p0['GF'])
    v = math.sqrt(v2)
    M = {k: v / math.sqrt(2) * (c['G' + k] - v2 / 2 * C[k + 'phi']) for k in 'ude'}
    mon.close(M['e'], np.diag([p0['m_e'], p0['m_mu'], p0['m_tau']]), 'basis-matrix', 'charged leptons', rtol=1e-11)
    diag, other = ('d', 'u') if basis == 'Warsaw' else ('u', 'd')
    names = {'u': ['m_u', 'm_c', 'm_t'], 'd': ['m_d', 'm_s', 'm_b']}
    mon.close(M[diag], np.diag([p0[n] for n in names[diag]]), 'basis-matrix', diag, rtol=1e-11)
    V = M[other] @ np.diag([1 / p0[n] for n in names[other]])
    V = V.conj().T if other == 'u' else V
    mon.close(V @ V.conj().T, np.eye(3), 'ckm-unitary', basis, rtol=1e-7)
    from ckmutil.ckm import ckm_tree
    mon.close(V, ckm_tree(p0['Vus'], p0['Vub'], p0['Vcb'], p0['gamma']), 'ckm', basis, rtol=1e-7)
    mon.case('inverse', basis, kind, size)


def relations(rng, mon, i):
    """Tree-level relations of parameters and inputs, written out independently."""
    from wilson.run.smeft import smpar
    size = float(10.0**rng.uniform(-10, -6.3))
    kind, C = wcs(rng, size)
    C.update({'g': .3 + .7 * rng.random(), 'gp': .2 + .3 * rng.random(), 'gs': .8 + .6 * rng.random()})
    v = float(rng.uniform(200, 300))
    m = smpar.vMh2_to_m2Lambda(v, float(rng.uniform(80, 200))**2, C)
    C.update(m)
    for k, s in (('Gu', [1e-5, 1e-2, 1]), ('Gd', [1e-4, 1e-3, 2e-2]), ('Ge', [1e-5, 1e-3, 1e-2])):
        C[k] = eft.unitary(rng) @ np.diag(s) @ eft.unitary(rng) + v**2 / 2 * C[k[1] + 'phi']
    q = smpar.smpar(C)
    v2 = v * v
    g, gp, gs = C['g'] / (1 - C['phiW'] * v2), C['gp'] / (1 - C['phiB'] * v2), C['gs'] / (1 - C['phiG'] * v2)
    G2 = g * g + gp * gp
    # neutral gauge boson mass matrix at first order in the mixing operator
    e = g * gp / math.sqrt(G2) * (1 - C['phiWB'] * v2 * g * gp / G2)
    ref = {'GF': 1 / math.sqrt(2) / v2, 'm_W': g * v / 2, 'm_Z': v / 2 * math.sqrt(G2) * (1 + C['phiWB'] * v2 * g * gp / G2) * (1 + C['phiD'] * v2 / 4),
           'alpha_s': gs**2 / 4 / math.pi, 'alpha_e': e**2 / 4 / math.pi}
    for k, s in (('Gu', 'uct'), ('Gd', 'dsb')):
        for n, x in zip(s, {'Gu': [1e-5, 1e-2, 1], 'Gd': [1e-4, 1e-3, 2e-2]}[k]):
            ref['m_' + n] = x * v / math.sqrt(2)
    for n, x in zip(('e', 'mu', 'tau'), [1e-5, 1e-3, 1e-2]):
        ref['m_' + n] = x * v / math.sqrt(2)
    for k in ref:
        mon.close(q[k], ref[k], f'relation:{k}', f'kind={kind} size={size:.2g}', rtol=1e-7, atol=1e-10 * (v if k.startswith('m_') else 0))
    # the Higgs mass: curvature of the potential at its minimum over the kinetic normalisation (numerical differentiation free)
    Cp, ck = C['phi'], C['phiBox'] - C['phiD'] / 4
    # V = -m2/2 h^2... : dV/dh=0 at v and second derivative
    lam, m2 = C['Lambda'], C['m2']
    pot1 = -m2 + lam / 2 * v2 - 3 / 4 * Cp * v2**2           # (dV/dh)/h
    mon.check(abs(pot1) <= 1e-9 * m2 * 10, 'minimum', f'{pot1} {m2}')
    curv = -m2 + 3 * lam / 2 * v2 - 15 / 4 * Cp * v2**2
    mh2 = curv / (1 - 2 * ck * v2)
    mon.close(q['m_h']**2, mh2, 'higgs-mass', '', rtol=1e-8)
    K = np.array([[0, q['Vus'], q['Vub']], [0, 0, q['Vcb']]])
    mon.check(np.all(K <= 1) and np.all(K >= 0), 'ckm-range', f'{K}')
    UuL = np.linalg.svd(C['Gu'] - v2 / 2 * C['uphi'])[0][:, ::-1]
    UdL = np.linalg.svd(C['Gd'] - v2 / 2 * C['dphi'])[0][:, ::-1]
    V = UuL.conj().T @ UdL
    for k, (a, b) in {'Vus': (0, 1), 'Vub': (0, 2), 'Vcb': (1, 2)}.items():
        mon.close(q[k], abs(V[a, b]), f'ckm:{k}', '', rtol=1e-6, atol=1e-8)
    gam = np.angle(-V[0, 0] * V[0, 2].conj() / (V[1, 0] * V[1, 2].conj()))
    mon.check(abs(np.exp(1j * gam) - np.exp(1j * q['gamma'])) < 1e-5, 'ckm:gamma', f'{gam} {q["gamma"]}')
    mon.case('relations', kind, size)


def higgs(rng, mon, i):
    """(m2, Lambda) <-> (v, Mh2): inverse of each other where a stable minimum exists, refused elsewhere."""
    from wilson.run.smeft import smpar
    for j in range(50):
        size = float(10.0**rng.uniform(-9, -5))
        C = {k: complex(rng.normal() * size, rng.choice([0, rng.normal() * size])) for k in ('phi', 'phiBox', 'phiD')}
        if rng.random() < .25:
            C['phi'] = 0 if rng.random() < .5 else complex(10.0**rng.uniform(-18, -15))
        v, M = float(rng.uniform(100, 500)), float(rng.uniform(30, 300))
        a = smpar.vMh2_to_m2Lambda(v, M**2, C)
        mon.check(set(a) == {'m2', 'Lambda'}, 'higgs-keys', f'{a}')
        Cp, ck = complex(C['phi']).real, (C['phiBox'] - C['phiD'] / 4).real
        lam = M**2 * (1 / v**2 - 2 * ck) + 3 * Cp * v**2
        m2 = lam * v**2 / 2 - .75 * Cp * v**4
        mon.close(a['Lambda'], lam, 'higgs:Lambda', '', rtol=1e-11, atol=1e-12)
        mon.close(a['m2'], m2, 'higgs:m2', '', rtol=1e-11, atol=1e-8)
        # the given minimum is returned if it is the electroweak one: local minimum connected to the dimension-four potential
        curv = M**2 / v**2 - 2 * ck * M**2         # Lambda - 3 Cphi v^2
        if curv > 1e-6 and 1 - 2 * ck * v**2 > 1e-6 and lam > 0 and m2 > 0:
            # the closed formula subtracts nearly equal numbers for tiny phi
            cond = 4e-16 * lam / (abs(Cp) * v**2) if abs(Cp) >= 1e-16 else abs(Cp) * v**2
            b = smpar.m2Lambda_to_vMh2(a['m2'], a['Lambda'], C)
            mon.close(b['v'], v, 'higgs:v', f'size={size:.2g} phi={C["phi"]}', rtol=1e-6 + cond)
            mon.close(b['Mh2'], M**2, 'higgs:Mh2', f'size={size:.2g}', rtol=1e-5 + 10 * cond)
            mon.count('higgs round trip')
        mon.case('higgs', i, j)
    z = {'phi': 0, 'phiBox': 0, 'phiD': 0}
    z = {k: 0. for k in z}
    z = {k: np.float64(0) for k in z}
    for bad in ((0, 100.), (-1., 100.), (246., 0.), (246., -5.), (float('nan'), 1.)):
        mon.raises(ValueError, lambda: smpar.vMh2_to_m2Lambda(bad[0], bad[1], z), 'accepts-unphysical', f'v, Mh2={bad}')
    for m2, L, C in ((-1e4, .25, z), (1e4, -.25, z), (1e4, .25, dict(z, phi=np.float64(1.))), (1e4, .25, dict(z, phiBox=np.float64(1.)))):
        mon.raises(ValueError, lambda: smpar.m2Lambda_to_vMh2(m2, L, C), 'accepts-no-minimum', f'm2={m2} Lambda={L} {C}')
    for over in (1 + 1e-6, float(rng.uniform(1.001, 1.2)), float(rng.uniform(1.2, 3))):      # just beyond the last potential with a minimum
        m2, L = float(rng.uniform(3e3, 2e4)), float(rng.uniform(.1, .5))
        C = dict(z, phi=np.float64(over * L**2 / 12 / m2))
        mon.raises(ValueError, lambda: smpar.m2Lambda_to_vMh2(m2, L, C), 'accepts-no-minimum', f'm2={m2} Lambda={L} {C}')


def gauge(rng, mon, i):
    from wilson.run.smeft import smpar
    for j in range(40):
        v = float(rng.uniform(200, 300))
        gb = float(rng.uniform(.4, .9))
        e = float(rng.uniform(.1, .35))
        C = {'phiWB': complex(rng.choice([0, 1]) * rng.normal() * 10.0**rng.uniform(-9, -6)), 'phiB': complex(rng.normal() * 10.0**rng.uniform(-9, -6))}
        x = smpar.get_gpbar(e, gb, v, C) / (1 - C['phiB'].real * v**2)
        G2 = gb**2 + x**2
        back = gb * x / math.sqrt(G2) * (1 - C['phiWB'].real * v**2 * gb * x / G2)
        mon.close(back, e, 'gauge', f'{C}', rtol=1e-9)
        mon.close(np.imag(x), 0, 'gauge-real', '', atol=0)
        mon.case('gauge', i, j)
    mon.raises(ValueError, lambda: smpar.get_gpbar(.3, .65, 246., {'phiWB': np.complex128(1.), 'phiB': np.complex128(0)}), 'gauge-no-solution', '')
    C = {k: v for k, v in smeftgen.point(rng, size=0.).items() if k not in SM}
    for b in ('', 'warsaw', 'Warsaw mass', 'SILH', None):
        mon.raises(ValueError, lambda: smpar.smeftpar(91.1876, C, b), 'accepts-basis', str(b))


def extraction(rng, mon, i):
    """Objects created from Wilson coefficients at a high scale carry parameters that give back the physical inputs at the Z mass."""
    from wilson.run.smeft.classes import SMEFT
    from wilson.run.smeft import smpar
    from wilson import wcxf
    B = wcxf.Basis['SMEFT', 'Warsaw']
    R = eft.sectors_real('SMEFT', 'Warsaw')
    # coefficients whose running does not feed fermion masses
    ok = [k for k in B.all_wcs if k.split('_')[0] in ('ll', 'ee', 'le', 'lq3', 'lq1', 'uu', 'dd', 'ud1', 'phil1', 'phie', 'G', 'W', 'duue', 'phiB', 'phiW', 'phiG', 'ed', 'eu', 'phiBox', 'phiD', 'phi', 'phiWB')]
    size = float(10.0**rng.uniform(-11, -9.5))
    n = int(rng.choice([0, 1, 3, 20]))
    d = {}
    for k in rng.permutation(ok)[:n]:
        k = str(k)
        d[k] = float(rng.normal() * size) if R[k] else complex(*(rng.normal(size=2) * size))
    L = float(rng.choice([91.1876, 150., 1000., 10.0**rng.uniform(2.3, 4.3)]))
    s = SMEFT(wcxf.WC('SMEFT', 'Warsaw', L, wcxf.WC.dict2values(d)))
    p0 = dict(smpar.p)
    for acc in ('integrate', 'leadinglog'):
        q = s.get_smpar(accuracy=acc)
        for k in p0:
            if k in ('m_Z', 'm_W') or (acc == 'leadinglog' and k not in ('alpha_e', 'm_W')):
                continue
            tol = 1e-2 if acc == 'integrate' else .1
            mon.close(q[k], p0[k], f'extraction:{k}', f'{acc} from {L:g} with {sorted(d)[:4]} size {size:.2g}', rtol=tol)
        mon.close(q['m_W'], p0['m_W'], 'extraction:m_W', acc, rtol=1e-2 if acc == 'integrate' else .3)
    # at other scales: the parameters of the evolved point
    from wilson.run.smeft import rge
    x = float(10.0**rng.uniform(1.8, 2.8))
    for acc, C in (('integrate', rge.smeft_evolve(s.C_in, L, x)), ('leadinglog', rge.smeft_evolve_leadinglog(s.C_in, L, x))):
        q, r = s.get_smpar(accuracy=acc, scale_sm=x), smpar.smpar(C)
        for k in r:
            mon.close(q[k], r[k], f'extraction-scale:{k}', f'{acc} from {L:g} at {x:g}', rtol=1e-9)
    # the starting point is in the Warsaw basis convention: down and lepton mass matrices diagonal up to dimension-six effects
    for k in ('Gd', 'Ge'):
        M = s.C_in[k]
        mon.check(np.max(np.abs(M - np.diag(np.diag(M)))) <= 1e-3 * np.max(np.abs(M)) * (1 + 0), f'extraction-basis:{k}', f'{M}')
    mon.case('extraction', L, len(d), size)


FAMILIES = [Family('inverse', inverse, 240, 6000), Family('relations', relations, 160, 4000), Family('higgs', higgs, 16, 300),
            Family('gauge', gauge, 8, 100), Family('extraction', extraction, 48, 600)]
RULE = ('random Wilson coefficients and inputs; physical inputs -> parameters -> physical inputs, independent tree-level relations, weak-basis independence, '
        'Higgs potential inversion and refusal outside the physical region, extraction through running; a case is a distinct draw')
if __name__ == '__main__':
    mon.run('C15', RULE, FAMILIES)
