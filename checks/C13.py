"""SMEFT beta functions: flavour covariance, linearity, Standard Model limit, recorded and published values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, smeftgen, golden
from mon import Family
import copy, json
import numpy as np
SM = smeftgen.SM


def tonp(B):
    return {k: np.asarray(v) for k, v in B.items()}


def cmp(mon, A, B, key, msg, rtol=1e-10, atol=0., keys=None):
    mon.check(set(A) == set(B), key + '-keys', f'{msg} {set(A) ^ set(B)}')
    for k in keys or B:
        mon.close(A[k], B[k], f'{key}:{k}', f'{msg} {k}', rtol=rtol, atol=atol)


def pt(rng, **kw):
    kind = int(rng.integers(4))
    keys = None
    if kind == 1:
        keys = {str(k) for k in rng.choice(list(eft.SMEFT_CLASS), size=int(rng.integers(1, 6)), replace=False)}
    elif kind == 2:
        keys = set()
    C = smeftgen.point(rng, size=float(10.0**rng.uniform(-9, 0)), yuk=float(rng.choice([.05, .5, 1.])), keys=keys, **kw)
    return kind, C


def quqd1_term(C):
    G = C['Gu']
    D = G.conj().T
    return -12 * np.einsum('tprs,pt', C['quqd1'], D @ G @ D - G @ D @ G)


def covariance(rng, mon, i):
    from wilson.run.smeft import beta
    kind, C = pt(rng, symmetric=bool(rng.random() < .8))
    U = {f: eft.unitary(rng) for f in 'qudle'}
    C0 = copy.deepcopy(C)
    B = tonp(beta.beta(C))
    mon.check(all(np.array_equal(C[k], C0[k]) for k in C), 'mutates', '')
    size = max(np.max(np.abs(C[k])) for k in C if k not in SM)
    Cr = eft.rotate(C, U)
    R = tonp(beta.beta(Cr))
    A, Ar = B, R
    if np.max(np.abs(R['dphi'] - eft.rotate(B, U)['dphi'])) > 1e-9 * np.max(np.abs(R['dphi'])) + 1e-12 * size:
        # one term contracts the quark-doublet index with an up-singlet index (recorded finding); the rest must still be covariant
        mon.violate("covariance:dphi-from-quqd1-Gu3", "dphi: the Gu^3 x quqd1 term is not covariant")
        A, Ar = dict(B, dphi=B['dphi'] + quqd1_term(C)), dict(R, dphi=R['dphi'] + quqd1_term(Cr))
    cmp(mon, Ar, eft.rotate(A, U), 'covariance', '', rtol=1e-9, atol=1e-12 * size)
    # operator symmetries survive the evolution
    C = {k: smeftgen.symm(k, v) if k in eft.FIELDS else v for k, v in C.items()}
    B = tonp(beta.beta(C))
    for k in eft.SMEFT_CLASS:
        if eft.SMEFT_CLASS[k] == 0:
            mon.check(abs(B[k].imag) <= 1e-9 * (abs(B[k]) + size), f'reality:{k}', f'{B[k]}')
        elif eft.SMEFT_CLASS[k] in (2, 4, 5, 7, 8, 9):
            name = f'symmetry:{k}'
            if k == 'qqql' and (np.any(C['duql']) or np.any(C['qque'])):
                # the published source terms are not projected on the operator's flavour relation (recorded finding)
                T = B[k]
                if np.max(np.abs(smeftgen.symm(k, T) - T)) > 1e-9 * np.max(np.abs(T)) + 1e-11 * size:
                    mon.violate("symmetry:qqql-from-duql-qque", "qqql: source terms leave the flavour relation of the operator")
                Z = dict(C, duql=0 * C['duql'], qque=0 * C['qque'])
                B = dict(B, qqql=np.asarray(beta.beta(Z)[k]))
            mon.close(smeftgen.symm(k, B[k]), B[k], name, '', rtol=1e-9, atol=1e-11 * size)
    mon.case('cov', kind, i)


def linear(rng, mon, i):
    from wilson.run.smeft import beta
    kind, C = pt(rng)
    _, D = pt(rng)
    x = float(rng.normal())
    for k in SM:
        D[k] = C[k]
    S = {k: C[k] if k in SM else C[k] + x * D[k] for k in C}
    Z = {k: C[k] if k in SM else 0 * C[k] for k in C}
    H = float(rng.choice([1, 1, 1000.]))
    b0, b1, b2, bs = (tonp(beta.beta(q, H)) for q in (Z, C, D, S))
    size = max([np.max(np.abs(q[k])) for q in (C, D) for k in q if k not in SM])
    for k in C:
        if k not in SM:
            mon.check(not np.any(b0[k]), f'inhomogeneous:{k}', f'beta of {k} without Wilson coefficients: {np.max(np.abs(b0[k]))}')
        mon.close(bs[k] - b0[k], (b1[k] - b0[k]) + x * (b2[k] - b0[k]), f'linear:{k}', '', rtol=1e-9,
                  atol=1e-11 * ((np.max(np.abs(b0[k])) if k in SM else 0) + size))
    # the scale normalisation only multiplies the dimension-six part of the parameters by 1/H^2
    b1h = tonp(beta.beta(C, 50.))
    b11 = tonp(beta.beta(C, 1))
    z1 = tonp(beta.beta(Z, 1))
    for k in C:
        if k in SM:
            mon.close((b1h[k] - z1[k]) * 2500., b11[k] - z1[k], f'highscale:{k}', '', rtol=1e-6, atol=1e-9 * 2500 * (np.max(np.abs(z1[k]))))
        else:
            mon.close(b1h[k], b11[k], f'highscale:{k}', '', rtol=1e-12)
    mon.case('linear', kind, i)


def smlimit(rng, mon, i):
    """Independent one-loop Standard Model beta functions."""
    from wilson.run.smeft import beta
    kind, C = pt(rng)
    g, gp, gs, L, m2, Gu, Gd, Ge = (C[k] for k in SM)
    dag = lambda M: M.conj().T
    tr = lambda *M: np.trace(np.linalg.multi_dot(M) if len(M) > 1 else M[0])
    HH = (3 * tr(Gu, dag(Gu)) + 3 * tr(Gd, dag(Gd)) + tr(Ge, dag(Ge))).real
    ref = {'g': -19 / 6 * g**3, 'gp': 41 / 6 * gp**3, 'gs': -7 * gs**3,
           'Lambda': 12 * L**2 + 3 / 4 * (gp**4 + 2 * g**2 * gp**2 + 3 * g**4) - 3 * L * (gp**2 + 3 * g**2) + 4 * L * HH
           - 4 * (3 * tr(Gd, dag(Gd), Gd, dag(Gd)) + 3 * tr(Gu, dag(Gu), Gu, dag(Gu)) + tr(Ge, dag(Ge), Ge, dag(Ge))).real,
           'm2': m2 * (6 * L - 9 / 2 * g**2 - 3 / 2 * gp**2 + 2 * HH),
           'Gu': 1.5 * (Gu @ dag(Gu) - Gd @ dag(Gd)) @ Gu + (HH - 9 / 4 * g**2 - 17 / 12 * gp**2 - 8 * gs**2) * Gu,
           'Gd': 1.5 * (Gd @ dag(Gd) - Gu @ dag(Gu)) @ Gd + (HH - 9 / 4 * g**2 - 5 / 12 * gp**2 - 8 * gs**2) * Gd,
           'Ge': 1.5 * Ge @ dag(Ge) @ Ge + (HH - 9 / 4 * g**2 - 15 / 4 * gp**2) * Ge}
    Z = {k: C[k] if k in SM else 0 * C[k] for k in C}
    B = tonp(beta.beta(Z))
    for k in SM:
        mon.close(B[k], ref[k], f'sm:{k}', '', rtol=1e-11)
    # 'no new physics' freezes the Wilson coefficients; parameters keep what the dimension-six terms do to them
    N = tonp(beta.beta(C, newphys=False))
    F = tonp(beta.beta(C))
    mon.check(set(N) == set(F), 'nonewphys-keys', '')
    for k in N:
        if k in SM:
            mon.close(N[k], F[k], f'nonewphys:{k}', '', rtol=1e-13)
        else:
            mon.check(N[k].shape == F[k].shape and not np.any(N[k]), f'nonewphys:{k}', 'not zero')
    mon.case('sm', kind, i)


def vector(rng, mon, i):
    """Vector form agrees with the dictionary form in every slot; repeated and interleaved calls agree; results are not shared."""
    from wilson.run.smeft import beta
    from wilson.util import smeftutil
    kind, C = pt(rng)
    H = float(rng.choice([1, 700.]))
    B = tonp(beta.beta(C, H))
    mon.check(set(B) == set(smeftutil.C_keys), 'keys', f'{set(B) ^ set(smeftutil.C_keys)}')
    for k in B:
        s = smeftutil.C_keys_shape[k]
        mon.check(B[k].shape == (() if s == 1 else tuple(s)), f'shape:{k}', f'{B[k].shape}')
    d = smeftutil.C_array2dict(beta.beta_array(C, H))
    for k in B:
        mon.close(d[k], B[k], f'vector:{k}', '', rtol=0)
    dn = smeftutil.C_array2dict(beta.beta_array(C, H, newphys=False))
    n = tonp(beta.beta(C, H, newphys=False))
    for k in n:
        mon.close(dn[k], n[k], f'vector-nonewphys:{k}', '', rtol=0)
    _, D = pt(rng)
    other = beta.beta(D)
    for v in other.values():
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
            v[...] = 7
    raw = beta.beta(C, H)
    for k, v in raw.items():
        mon.close(v, B[k], f'repeat:{k}', '', rtol=0)
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable and type(v) is np.ndarray:
            v[...] = 9
    again = tonp(beta.beta(C, H))
    for k in again:
        mon.close(again[k], B[k], f'result-shared:{k}', 'changing a returned array changed the next result', rtol=0)
    # order of the keys and number type of the input do not matter
    ks = list(C)
    rng.shuffle(ks)
    E = tonp(beta.beta({k: (complex(C[k]) if np.ndim(C[k]) == 0 else C[k].astype(complex)) for k in ks}, H))
    for k in E:
        mon.close(E[k], B[k], f'order:{k}', '', rtol=1e-12)
    # Fortran-ordered and strided arrays
    Fo = tonp(beta.beta({k: (v if np.ndim(v) == 0 else np.asfortranarray(v)) for k, v in C.items()}, H))
    for k in Fo:
        mon.close(Fo[k], B[k], f'memory-layout:{k}', '', rtol=1e-12, atol=1e-300)
    mon.case('vector', kind, i)


def recorded(rng, mon, i):
    G, N = golden.load('beta'), golden.MAKERS['beta']()
    mon.check(set(G) == set(N), 'recorded-keys', f'{set(G) ^ set(N)}')
    for k in G:
        mon.close(N[k], G[k], f'recorded:{k.split(":")[1]}', f'point {k}', rtol=1e-10)
    mon.case('recorded', sample=len(G))


def published(rng, mon, i):
    """Numbers computed with the authors' computer-algebra implementation (6 digits, committed as golden/mathematica.json)."""
    from wilson.run.smeft import beta
    m = json.load(open(os.path.join(golden.DIR, 'mathematica.json')))
    p, wc = m['par'], m['wc']
    C = dict(zip(['g', 'gp', 'gs', 'Lambda', 'm2'], p[:5]))
    for j, k in enumerate(('Gu', 'Gd', 'Ge')):
        C[k] = np.array(p[5 + 2 * j]) + 1j * np.array(p[6 + 2 * j])
    for grp, vals in zip(m['names'], wc):
        for k, v in zip(grp, vals):
            C[k] = np.array(v) if np.ndim(v) else v
    B = beta.beta(C, 1000)
    for lvl in range(3):
        for j, k in enumerate(m['names'][lvl]):
            re = np.array(m['re'][lvl][j])
            im = np.array(m['im'][lvl][j]) if lvl else 0 * re
            mon.close(B[k].real, re, f'published:{k}', 'real part', rtol=2e-4)
            if lvl:
                mon.close(B[k].imag, im, f'published:{k}', 'imaginary part', rtol=2e-4, atol=2e-4 * np.max(np.abs(re)))
            mon.case('published', k)


FAMILIES = [Family('covariance', covariance, 40, 500), Family('linear', linear, 30, 300), Family('smlimit', smlimit, 40, 300),
            Family('vector', vector, 24, 200), Family('recorded', recorded, 1, 1), Family('published', published, 1, 1)]
RULE = ('beta functions at random parameter points: flavour covariance under random U(3)^5, operator symmetries, linearity, independent '
        'Standard Model formulas, vector/dictionary agreement, call-history independence, published and recorded values; a case is a random point')
if __name__ == '__main__':
    mon.run('C13', RULE, FAMILIES)
