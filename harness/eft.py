"""Shared models for Wilson coefficient arrays: random coefficient sets, symmetry orbits, flavour charges."""
import itertools
import numpy as np
import gen

# generators (permutation of index positions, complex conjugate?, sign) of each symmetry class
GENS = {
    0: [], 1: [], 3: [],
    2: [((1, 0), True, 1)],
    9: [((1, 0), False, 1)],
    4: [((2, 3, 0, 1), False, 1), ((1, 0, 3, 2), True, 1)],
    41: [((2, 3, 0, 1), False, 1)],
    5: [((1, 0, 3, 2), True, 1)],
    6: [((2, 3, 0, 1), False, 1), ((2, 1, 0, 3), False, 1), ((1, 0, 3, 2), True, 1)],
    7: [((1, 0, 2, 3), False, 1)],
    71: [((1, 0, 2, 3), False, -1)],
}


def group(cls, ndim):
    """All elements generated, as (perm, conj, sign)."""
    ident = (tuple(range(ndim)), False, 1)
    els = {ident}
    todo = [ident]
    while todo:
        p, c, s = todo.pop()
        for q, d, t in GENS[cls]:
            e = (tuple(p[j] for j in q), c ^ d, s * t)
            if e not in els:
                els.add(e)
                todo.append(e)
    return els


def orbit_fill(nonred, cls, shape):
    """Tensor obeying the symmetry whose listed entries are given (dict index tuple -> number)."""
    out = np.full(shape, np.nan, dtype=complex)
    G = group(cls, len(shape))
    for idx, v in nonred.items():
        stab = [e for e in G if tuple(idx[j] for j in e[0]) == idx]
        v = complex(v)
        if any(c for _, c, s in stab):
            v = complex(v.real, 0)
        for p, c, s in G:
            t = tuple(idx[j] for j in p)
            out[t] = s * (v.conjugate() if c else v)
    return out


def degeneracy(cls, shape):
    """Number of distinct index tuples related by the non-conjugating symmetries (weight of a redundant entry)."""
    out = np.ones(shape)
    if cls in (0, 1, 2, 3, 5, 9):
        return out            # Weinberg-like matrices carry no symmetry factor in the exchange format
    G = [e for e in group(cls, len(shape)) if not e[1]]
    for idx in itertools.product(*map(range, shape)):
        out[idx] = len({tuple(idx[j] for j in p) for p, _, _ in G})
    return out


_P8 = None


def proj8():
    """Orthogonal projector on T_prs + T_rps = T_spr + T_srp (the flavour relation of the qqql operator)."""
    global _P8
    if _P8 is None:
        rows = []
        n = lambda *t: t[0] * 9 + t[1] * 3 + t[2]
        for p, r, s in itertools.product(range(3), repeat=3):
            row = np.zeros(27)
            row[n(p, r, s)] += 1
            row[n(r, p, s)] += 1
            row[n(s, p, r)] -= 1
            row[n(s, r, p)] -= 1
            rows.append(row)
        u, w, vt = np.linalg.svd(np.array(rows))
        null = vt[np.sum(w > 1e-10):]
        _P8 = null.T @ null
    return _P8


def sectors_real(eft, basis):
    from wilson import wcxf
    out = {}
    for sec in wcxf.Basis[eft, basis].sectors.values():
        for k, v in sec.items():
            out[k] = bool((v or {}).get('real', False))
    return out


def random_wcs(rng, eft, basis, n=None, size=1., keys=None, nonzero=True):
    """dict of n random coefficients (all if None) respecting reality."""
    real = sectors_real(eft, basis)
    ks = list(real) if keys is None else list(keys)
    if n is not None and n < len(ks):
        ks = [ks[j] for j in sorted(rng.choice(len(ks), size=n, replace=False))]
    d = {}
    for k in ks:
        d[k] = float(rng.normal() * size) if real[k] else gen.cplx(rng) * size
    return d


def unitary(rng, n=3):
    z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / abs(np.diag(r)))


# field content of the SMEFT coefficients: C^{abcd} multiplies (bar a) b (bar c) d or a b c d; * marks a barred field
_f = {}
for k in 'ephi eW eB'.split():
    _f[k] = 'l*e'
for k in 'uphi uW uB uG'.split():
    _f[k] = 'q*u'
for k in 'dphi dW dB dG'.split():
    _f[k] = 'q*d'
for k in 'phil1 phil3'.split():
    _f[k] = 'l*l'
for k in 'phiq1 phiq3'.split():
    _f[k] = 'q*q'
_f.update(phie='e*e', phiu='u*u', phid='d*d', phiud='u*d', llphiphi='ll', ll='l*ll*l', ee='e*ee*e', le='l*le*e',
          qq1='q*qq*q', qq3='q*qq*q', dd='d*dd*d', uu='u*uu*u', ud1='u*ud*d', ud8='u*ud*d', qu1='q*qu*u', qu8='q*qu*u',
          qd1='q*qd*d', qd8='q*qd*d', quqd1='q*uq*d', quqd8='q*uq*d', lq1='l*lq*q', lq3='l*lq*q', ld='l*ld*d', lu='l*lu*u',
          qe='q*qe*e', ed='e*ed*d', eu='e*eu*u', ledq='l*ed*q', lequ1='l*eq*u', lequ3='l*eq*u',
          duql='duql', qque='qque', qqql='qqql', duue='duue', Gu='q*u', Gd='q*d', Ge='l*e')
FIELDS = {}
for k, s in _f.items():
    out, j = [], 0
    while j < len(s):
        st = j + 1 < len(s) and s[j + 1] == '*'
        out.append((s[j], st))
        j += 2 if st else 1
    FIELDS[k] = out

# symmetry class of each SMEFT coefficient, from the operator definitions
SMEFT_CLASS = {}
for k in 'G Gtilde W Wtilde phi phiBox phiD phiG phiB phiW phiGtilde phiBtilde phiWtilde phiWB phiWtildeB'.split():
    SMEFT_CLASS[k] = 0
for k, s in _f.items():
    if len(FIELDS[k]) == 2:
        SMEFT_CLASS[k] = 9 if k == 'llphiphi' else (2 if FIELDS[k][0][0] == FIELDS[k][1][0] else 1)
    elif k in ('ll', 'qq1', 'qq3', 'uu', 'dd'):
        SMEFT_CLASS[k] = 4
    elif k == 'ee':
        SMEFT_CLASS[k] = 6
    elif k == 'qque':
        SMEFT_CLASS[k] = 7
    elif k == 'qqql':
        SMEFT_CLASS[k] = 8
    elif k in ('quqd1', 'quqd8', 'ledq', 'lequ1', 'lequ3', 'duql', 'duue'):
        SMEFT_CLASS[k] = 3
    else:
        SMEFT_CLASS[k] = 5


def rotate(C, U):
    """Flavour rotation of a dict of arrays by field matrices U = {'q': Uq, ...}: field -> U field."""
    out = {}
    for k, T in C.items():
        if k not in FIELDS:
            out[k] = T
            continue
        T = np.asarray(T, dtype=complex)
        for ax, (f, bar) in enumerate(FIELDS[k]):
            M = U[f].conj() if bar else U[f]
            T = np.moveaxis(np.tensordot(M, T, axes=(0, ax)), 0, ax)
        out[k] = T
    return out


def nonred_indices(all_wcs):
    """{name: [index tuples]} from a list of coefficient names."""
    out = {}
    for n in all_wcs:
        if '_' in n:
            a, b = n.split('_')
            out.setdefault(a, []).append(tuple(int(c) - 1 for c in b))
        else:
            out[n] = None
    return out


def symmetric_reference(d, util_shapes, classes, all_wcs):
    """Reference for 'exchange format -> redundant symmetric arrays' (dict name -> array/number)."""
    idx = nonred_indices(all_wcs)
    out = {}
    for name, inds in idx.items():
        if inds is None:
            out[name] = complex(d.get(name, 0)).real
            continue
        shape = tuple(util_shapes[name])
        cls = classes[name]
        vals = {t: d.get(name + '_' + ''.join(str(j + 1) for j in t), 0) for t in inds}
        if cls == 8:
            T = np.zeros(shape, dtype=complex)
            for t, v in vals.items():
                T[t] = v
            out[name] = np.einsum('ab,bl->al', proj8(), T.reshape(27, 3)).reshape(shape)
            continue
        T = orbit_fill(vals, cls, shape)
        if cls == 71:
            for p, r in [(a, a) for a in range(shape[0])]:
                T[p, r] = 0
        out[name] = T / degeneracy(cls, shape)
    return out
