"""Flavour symmetries: redundant arrays and the non-redundant exchange format are two views of the same operator sum."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mon, gen, eft
from mon import Family
from C10 import get_util, UTILS
import copy, itertools
import numpy as np


def classes(u):
    return {k: c for c, ks in u.C_symm_keys.items() for k in ks}


def coeffs(rng, u, wcs, n):
    """random coefficients with the reality the symmetry class implies"""
    cls = classes(u)
    d = {}
    for k in [wcs[j] for j in rng.permutation(len(wcs))[:n]]:
        name, _, ind = k.partition('_')
        t = tuple(int(c) - 1 for c in ind)
        z = gen.cplx(rng) * 10.0**rng.uniform(-3, 3)
        if cls[name] == 0:
            d[k] = gen.part(z, True)
        else:
            real = any(c and tuple(t[j] for j in p) == t for p, c, s in eft.group(cls[name], len(t))) if cls[name] in eft.GENS else False
            d[k] = gen.part(z, real)
    return d


def roundtrip(rng, mon, i):
    which = UTILS[i % 4]
    u, wcs = get_util(which, rng)
    cls = classes(u)
    for _ in range(3):
        n = int(rng.choice([0, 1, 2, 10, 100, len(wcs)]))
        d = coeffs(rng, u, wcs, n)
        d0 = dict(d)
        C = u.wcxf2arrays_symmetrized(d)
        mon.check(d == d0, 'mutates-input', which)
        ref = eft.symmetric_reference(d, u.C_keys_shape, cls, wcs)
        mon.check(set(C) == set(ref), 'symmetrized-keys', f'{which}: {set(C) ^ set(ref)}')
        for k in ref:
            mon.close(C[k], ref[k], f'symmetrized:{cls[k]}', f'{which} {k}', rtol=3e-15, atol=1e-300)
            if cls[k] != 8:
                s = np.asarray(ref[k]) == 0
                mon.check(not np.any(np.asarray(C[k])[s]), f'symmetrized-zeros:{cls[k]}', f'{which} {k}')
        back = u.arrays2wcxf_nonred({k: copy.deepcopy(v) for k, v in C.items()} | {k: np.zeros(u.C_keys_shape[k]) if u.C_keys_shape[k] != 1 else 0. for k in u.dim4_keys})
        names = {k.split('_')[0] for k in back} & set(u.dim4_keys)
        mon.check(not names, 'nonred-parameter-leak', f'{names}')
        for k in d:
            mon.check(abs(complex(back.get(k, 0)) - complex(d[k])) <= 1e-13 * max(abs(complex(d[q])) for q in d), f'roundtrip:{cls[k.split("_")[0]]}', f'{which} {k}: {back.get(k)} vs {d[k]}')
        big = max([abs(complex(v)) for v in d.values()] + [0])
        for k in back:
            if k not in d:
                mon.check(k in set(wcs) and abs(back[k]) <= 1e-13 * big, f'roundtrip-extra:{cls[k.split("_")[0]]}', f'{which} {k}: {back[k]}')
        mon.check(all(v != 0 for v in back.values()), 'nonred-zeros', which)
        # linear: the view of a multiple/sum is the multiple/sum of the views
        e = coeffs(rng, u, wcs, n)
        x = float(rng.normal())
        S = u.wcxf2arrays_symmetrized({k: d.get(k, 0) + x * e.get(k, 0) for k in set(d) | set(e)})
        E = u.wcxf2arrays_symmetrized(e)
        for k in S:
            A = np.asarray(C[k]) + x * np.asarray(E[k])
            mon.close(S[k], A, f'linear:{cls[k]}', f'{which} {k}', rtol=1e-12, atol=1e-12 * big)
        mon.case('rt', which, tuple(sorted(d)), sample=[which, len(d), list(d)[:3]])


def pairing(rng, mon, i):
    """Physics content: sum over listed operators equals the sum over all index combinations."""
    which = ['SMEFT', 'WET', 'WET-4', 'SMEFT'][i % 4]
    u, wcs = get_util(which, rng)
    cls = classes(u)
    d = coeffs(rng, u, wcs, len(wcs))
    C = u.wcxf2arrays_symmetrized(d)
    idx = eft.nonred_indices(wcs)
    for k in u.WC_keys:
        s = u.C_keys_shape[k]
        if s == 1:
            mon.check(C[k] == d[k], 'scalar', k)
            continue
        c = cls[k]
        # random operator matrix element with the symmetry of the operator (transposed: hermitian operators O_ijkl^dag = O_jilk)
        O = rng.normal(size=s) + 1j * rng.normal(size=s)
        if c == 8:
            O = np.einsum('ab,bl->al', eft.proj8(), O.reshape(27, 3)).reshape(s)
        elif c in eft.GENS and c not in (9,):
            G = eft.group(c, len(s))
            O = sum(sg * (np.transpose(O, p).conj() if cc else np.transpose(O, p)) for p, cc, sg in G)
        herm = c in (2, 4, 5, 6)
        full = np.sum(C[k] * O)
        nonred = 0
        for t in idx[k]:
            v = d[k + '_' + ''.join(str(j + 1) for j in t)]
            if herm:
                selfconj = any(cc and tuple(t[j] for j in p) == t for p, cc, sg in eft.group(c, len(t)))
                nonred += v * O[t] if selfconj else v * O[t] + np.conj(v * O[t])
            elif c == 9:
                nonred += v * (O[t] if t[0] == t[1] else O[t] + O[t[::-1]])   # Weinberg operator: the format lists a symmetric matrix
            else:
                nonred += v * O[t]
        sc = np.sum(np.abs(C[k]) * np.abs(O))
        mon.check(abs(full - nonred) <= 1e-12 * sc, f'operator-sum:{c}', f'{which} {k}: {full} vs {nonred}')
        mon.case('pair', which, k, i)


def projections(rng, mon, i):
    """Symmetrisation: result symmetric, listed entries kept, idempotent, other entries ignored."""
    which = UTILS[i % 4]
    u, wcs = get_util(which, rng)
    cls = classes(u)
    idx = eft.nonred_indices(wcs)
    keys = [str(k) for k in rng.permutation(u.C_keys)[:int(rng.integers(3, len(u.C_keys) + 1))]]
    C = {}
    for k in keys:
        s = u.C_keys_shape[k]
        C[k] = np.float64(rng.normal()) if s == 1 else gen.carr(rng, s)
    zc = [k for k in keys if u.C_keys_shape[k] == 1 and rng.random() < .5]
    for k in zc:        # coefficients of real operators
        C[k] = [complex, np.complex128][int(rng.integers(2))](complex(*rng.normal(size=2)))
    C0 = copy.deepcopy(C)
    S = u.symmetrize(C)
    N = u.symmetrize_nonred(C)
    S2 = u.symmetrize(S)
    mon.check(set(S) == set(C) and set(N) == set(C), 'keys', f'{which} {set(S) ^ set(C)} {set(N) ^ set(C)}')
    mon.check(all(np.array_equal(C[k], C0[k]) for k in C), 'symmetrize-mutates', which)
    for k in keys:
        s, c = u.C_keys_shape[k], cls[k]
        if k in zc:
            mon.check(np.shape(S[k]) == () and S[k] == C[k].real and N[k] == C[k].real, 'real-scalar', f'{which} {k}: {C[k]} -> {S[k]}, {N[k]}')
            continue
        if s == 1 or c in (1, 3):
            mon.check(np.array_equal(np.asarray(S[k]), np.asarray(C[k])) and np.array_equal(np.asarray(N[k]), np.asarray(C[k])), f'unconstrained-changed:{c}', k)
            continue
        if k in u.dim4_keys:
            continue
        if c == 8:
            T = S[k]
            mon.close(T + T.transpose(1, 0, 2, 3), T.transpose(1, 2, 0, 3) + T.transpose(2, 1, 0, 3), 'symmetric:8', k, rtol=1e-13)
            for t in idx[k]:
                mon.check(T[t] == C[k][t], 'listed-entry-kept:8', f'{k} {t}')
            mon.close(S2[k], T, 'idempotent:8', k, rtol=1e-13)
            exp = np.zeros(s, complex)
            for t in idx[k]:
                exp[t] = C[k][t]
            mon.close(N[k], np.einsum('ab,bl->al', eft.proj8(), exp.reshape(27, 3)).reshape(s), 'nonred:8', k, rtol=1e-13)
            continue
        vals = {t: C[k][t] for t in idx[k]}
        ref = eft.orbit_fill(vals, c, s)
        ref[np.isnan(ref)] = 0
        got = np.array(S[k])
        for t in np.ndindex(*s):
            if c == 71 and t[0] == t[1]:
                continue      # entries that no operator has
            if not mon.check(got[t] == ref[t], f'symmetrized-entry:{c}', f'{which} {k}{t}: {got[t]} vs {ref[t]}'):
                break
        deg = eft.degeneracy(c, s)
        g2 = np.array(N[k])
        for t in np.ndindex(*s):
            if c == 71 and t[0] == t[1]:
                continue
            if not mon.check(abs(g2[t] - ref[t] / deg[t]) <= 1e-15 * abs(ref[t]), f'nonred-entry:{c}', f'{which} {k}{t}: {g2[t]} vs {ref[t] / deg[t]}'):
                break
        mon.check(np.array_equal(np.asarray(S2[k]), got), f'idempotent:{c}', k)
        mon.case('proj', which, k, i)


def inverse(rng, mon, i):
    """A tensor with the operator symmetry survives the detour through the exchange format; weight helpers are inverse."""
    from wilson.util.common import EFTutil
    which = UTILS[i % 4]
    u, wcs = get_util(which, rng)
    cls = classes(u)
    C = {}
    for k in u.C_keys:
        s, c = u.C_keys_shape[k], cls[k]
        if s == 1:
            C[k] = float(rng.normal())
            continue
        T = gen.carr(rng, s) if i % 2 else rng.normal(size=s) + 1j * rng.normal(size=s)
        if c == 8:
            T = np.einsum('ab,bl->al', eft.proj8(), T.reshape(27, 3)).reshape(s)
        elif c in eft.GENS and eft.GENS[c]:
            G = eft.group(c, len(s))
            T = sum(sg * (np.transpose(T, p).conj() if cc else np.transpose(T, p)) for p, cc, sg in G) / len(G)
        C[k] = T
    C0 = copy.deepcopy(C)
    d = u.arrays2wcxf_nonred(C)
    mon.check(all(np.array_equal(np.asarray(C[k]), np.asarray(C0[k])) for k in C), 'nonred-mutates', which)
    want = {k for k in wcs if i % 2 == 0 or np.asarray(C0[k.split('_')[0]])[tuple(int(c) - 1 for c in k.partition('_')[2])] != 0}
    if i % 2:
        want |= {k for k in d if cls[k.split('_')[0]] == 8 and k in wcs}
    mon.check(set(d) == want, 'nonred-keys', f'{which}: {sorted(set(d) ^ want)[:5]}')
    # some of the classes alone
    some = [str(k) for k in rng.permutation(u.C_keys)[:int(rng.integers(0, 6))]]
    part = u.arrays2wcxf_nonred({k: C[k] for k in some})
    mon.eq(part, {k: v for k, v in d.items() if k.split('_')[0] in some}, 'nonred-some', f'{which} {some}')
    R = u.wcxf2arrays_symmetrized(d)
    mon.fresh(lambda: u.wcxf2arrays_symmetrized(dict(d)), 'shared:wcxf2arrays_symmetrized', which)
    mon.fresh(lambda: u.arrays2wcxf_nonred(copy.deepcopy(C0)), 'shared:arrays2wcxf_nonred', which)
    for f in ('symmetrize', 'symmetrize_nonred', 'unscale_dict'):
        mon.fresh(lambda: getattr(u, f)(copy.deepcopy(C0)), 'shared:' + f, which)
    for k in u.WC_keys:
        mon.close(R[k], C0[k], f'tensor-roundtrip:{cls[k]}', f'{which} {k}', rtol=1e-13)
    for k in wcs:
        name, _, ind = k.partition('_')
        if not ind or cls[name] == 8:
            continue
        t = tuple(int(c) - 1 for c in ind)
        w = eft.degeneracy(cls[name], u.C_keys_shape[name])[t]
        mon.check(abs(d.get(k, 0) - w * C0[name][t]) <= 1e-13 * abs(d.get(k, 0)), f'nonred-weight:{cls[name]}', f'{which} {k}: {d.get(k, 0)} vs {w} * {C0[name][t]}')
    if which == 'SMEFT':
        b = rng.normal(size=(3,) * 4) + 1j * rng.normal(size=(3,) * 4)
        for f, g, n in ((EFTutil.scale_8, EFTutil.unscale_8, 'scale-unscale'), (EFTutil.unscale_8, EFTutil.scale_8, 'unscale-scale')):
            x = b.copy()
            y = g(f(x))
            mon.check(np.array_equal(x, b), n + '-mutates', '')
            for t in [q for q in eft.nonred_indices(wcs)['qqql']]:
                mon.check(abs(y[t] - b[t]) < 1e-13, n, f'{t}: {y[t]} vs {b[t]}')
    mon.case('inv', which, i)


def extreme(rng, mon, i):
    """Coefficients of any size survive the detour through the tensors, next to others of any size."""
    which = UTILS[i % 4]
    u, wcs = get_util(which, rng)
    cls = classes(u)
    d = coeffs(rng, u, wcs, int(rng.choice([1, 3, 30, len(wcs)])))
    one = 10.0**rng.uniform(-290, 250) if i % 3 else None
    scale = {}
    for k in d:
        name = k.split('_')[0]
        if name not in scale:
            scale[name] = one or 10.0**rng.uniform(-290, 250)
        d[k] = d[k] * scale[name]
    zero = {k: np.zeros(u.C_keys_shape[k]) if u.C_keys_shape[k] != 1 else 0. for k in u.dim4_keys}
    back = u.arrays2wcxf_nonred(u.wcxf2arrays_symmetrized(d) | zero)
    for k, v in d.items():
        name = k.split('_')[0]
        mon.check(k in back and abs(complex(back[k]) / scale[name] - complex(v) / scale[name]) <= 1e-10, f'extreme:{cls[name]}', f'{which} {k}: {v} -> {back.get(k)}')
    mon.case('extreme', which, tuple(sorted(d)), str(one), sample=[which, len(d), str(one)])


def direct(rng, mon, i):
    """Symmetrisation of bare tensors with three generations: symmetric, idempotent, the identity on symmetric tensors."""
    from wilson.util.common import EFTutil
    for c in (2, 4, 41, 5, 6, 7, 71, 8, 9):
        f = getattr(EFTutil, f'symmetrize_{c}', None)
        if f is None:
            continue
        n = 2 if c in (2, 9) else 4
        T = rng.normal(size=(3,) * n) + 1j * rng.normal(size=(3,) * n)
        T0 = T.copy()
        S = np.array(f(T))
        mon.check(np.array_equal(T, T0), f'direct-mutates:{c}', '')
        off = np.ones(T.shape, bool)
        if c == 71:
            off[[0, 1, 2], [0, 1, 2]] = False       # entries that no operator has
        if c == 8:
            proj = lambda A: np.einsum('ab,bl->al', eft.proj8(), A.reshape(27, 3)).reshape(A.shape)
            sym = proj(T)
            mon.close(proj(S), S, 'direct-symmetric:8', '', rtol=1e-12)
        else:
            G = eft.group(c, n)
            act = lambda A, p, cc, sg: sg * (np.transpose(A, p).conj() if cc else np.transpose(A, p))
            sym = sum(act(T, *g) for g in G) / len(G)
            for g in G:
                mon.check(np.array_equal(act(S, *g)[off], S[off]), f'direct-symmetric:{c}', f'{g}')
        mon.close(np.array(f(sym))[off], sym[off], f'direct-identity:{c}', '', rtol=1e-13)
        mon.close(np.array(f(S))[off], S[off], f'direct-idempotent:{c}', '', rtol=1e-13)
    mon.case('direct', i)


def wetlib_keys():
    from wilson import wcxf
    return wcxf.Basis['WET', 'JMS'].all_wcs


def wetscale(rng, mon, i):
    """The scaling of redundant WET arrays to the non-redundant convention: multiplicities, both directions, any set of coefficients."""
    from wilson.util import wet_jms, wetutil
    cls = classes(wetutil)
    keys = sorted({k.split('_')[0] for k in wetlib_keys()} & set(cls))
    sub = [keys[j] for j in rng.permutation(len(keys))[:int(rng.choice([0, 1, 5, len(keys)]))]]
    C = {}
    for k in sub:
        n = {0: 0, 1: 2}.get(cls[k], 4)
        C[k] = (rng.normal(size=(3,) * n) + 1j * rng.normal(size=(3,) * n)) * 10.0**rng.uniform(-20, 3)
        if n == 0:
            C[k] = complex(C[k])
    C0 = copy.deepcopy(C)
    a, b = wet_jms.scale_dict_wet(C), wet_jms.unscale_dict_wet(C)
    mon.eq((sorted(a), sorted(b)), (sorted(C), sorted(C)), 'wetscale:keys', '')
    mon.check(all(np.array_equal(C[k], C0[k]) for k in C), 'wetscale:mutates', '')
    for k in C:
        c = cls[k]
        if c in (4, 41, 6, 71):
            # number of distinct index tuples that the exchange symmetry alone (no conjugation) relates
            G = [p for p, cc, sg in eft.group(c, 4) if not cc]
            m = np.array([len({tuple(t[j] for j in p) for p in G}) for t in itertools.product(range(3), repeat=4)]).reshape((3,) * 4)
            off = np.ones((3,) * 4, bool)
            if c == 71:
                off[[0, 1, 2], [0, 1, 2]] = False
        else:
            m, off = np.ones(np.shape(C[k])), np.ones(np.shape(C[k]), bool)
        mon.close(np.asarray(b[k])[off], (np.asarray(C[k]) * m)[off], f'wetscale:unscale:{c}', k, rtol=1e-14)
        mon.close(np.asarray(a[k])[off], (np.asarray(C[k]) / m)[off], f'wetscale:scale:{c}', k, rtol=1e-14)
    back = wet_jms.scale_dict_wet(wet_jms.unscale_dict_wet(C))
    for k in C:
        mon.close(back[k], C[k], 'wetscale:roundtrip', k, rtol=1e-14)
    mon.fresh(lambda: wet_jms.unscale_dict_wet(copy.deepcopy(C0)), 'wetscale:fresh', '')
    mon.case('wetscale', tuple(sub), i)


FAMILIES = [Family('wetscale', wetscale, 24, 200), Family('direct', direct, 24, 200), Family('extreme', extreme, 48, 500), Family('roundtrip', roundtrip, 60, 700), Family('pairing', pairing, 40, 400), Family('projections', projections, 60, 600),
            Family('inverse', inverse, 48, 500)]
RULE = ('random coefficients/tensors of every flavour-symmetry class in four kinds of bases: orbit model for every entry, operator-sum '
        'pairing with random symmetric operators, both round trips, idempotence; a case is a distinct draw per basis or coefficient')
if __name__ == '__main__':
    mon.run('C11', RULE, FAMILIES)
