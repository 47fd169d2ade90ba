"""Array views of coefficient sets: layout, completeness and losslessness of all conversions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft
from mon import Family
import copy, itertools
import numpy as np

UTILS = ['SMEFT', 'WET', 'WET-4', 'synthetic']


def get_util(which, rng):
    """(util, list of coefficient names)"""
    from wilson import wcxf
    from wilson.util import smeftutil, wetutil
    from wilson.util.common import EFTutil
    if which == 'SMEFT':
        return smeftutil, wcxf.Basis['SMEFT', 'Warsaw'].all_wcs
    if which == 'WET':
        return wetutil, wcxf.Basis['WET', 'JMS'].all_wcs
    if which == 'WET-4':
        return EFTutil('WET-4', 'JMS', dim4_keys_shape={'e': 1, 'Mu': (2, 2)}, dim4_symm_keys={0: ['e'], 1: ['Mu']}), \
            wcxf.Basis['WET-4', 'JMS'].all_wcs
    return synthetic(rng)


def synthetic(rng):
    """A basis with one to three coefficients of random classes, names and order."""
    from wilson import wcxf
    src = wcxf.Basis['SMEFT', 'Warsaw'].sectors
    flat = {k: v for s in src.values() for k, v in s.items()}
    by = {}
    for k in flat:
        by.setdefault(k.split('_')[0], []).append(k)
    picks = ['phi'] + [str(k) for k in rng.choice([k for k in by if k != 'phi'], size=int(rng.integers(2, 6)), replace=False)] + \
        ['dphi', 'phiG']
    picks = list(dict.fromkeys(picks))
    rng.shuffle(picks)
    names, sec = {}, {'a': {}, 'b': {}}
    for n, k in enumerate(picks):
        new = ''.join(rng.choice(list('xyzXYZ'), size=3)) + str(n)
        names[new] = k
        items = list(by[k])
        rng.shuffle(items)
        for it in items:
            nn = new + (it[len(k):])
            sec[str(rng.choice(['a', 'b']))][nn] = copy.deepcopy(flat[it])
    e, b = 'SYN', 'B' + str(int(rng.integers(10**9)))
    wcxf.Basis(e, b, sec)
    from wilson.util.common import EFTutil
    try:
        u = EFTutil(e, b, dim4_keys_shape={'p4': 1, 'M4': (3, 3)}, dim4_symm_keys={0: ['p4'], 1: ['M4']})
        u._verif_names = names
        return u, list(wcxf.Basis[e, b].all_wcs)
    finally:
        wcxf.Basis.del_instance((e, b))


def shapes_from(wcs):
    idx = eft.nonred_indices(wcs)
    out = {}
    for k, v in idx.items():
        out[k] = 1 if v is None else tuple(max(t[j] for t in v) + 1 for j in range(len(v[0])))
    return out, idx


def rarr(rng, s, real=False):
    if s == 1:
        return float(rng.normal())
    return rng.normal(size=s) if real else gen.carr(rng, s)


def same_arrays(a, b):
    return set(a) == set(b) and all(np.shape(a[k]) == np.shape(b[k]) and np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


def layout(rng, mon, i):
    which = UTILS[i % 4]
    u, wcs = get_util(which, rng)
    shapes, idx = shapes_from(wcs)
    n0 = [k for k in idx if idx[k] is None]
    n2 = [k for k in idx if idx[k] and len(idx[k][0]) == 2]
    n4 = [k for k in idx if idx[k] and len(idx[k][0]) == 4]
    mon.eq((sorted(u.WC_keys_0f), sorted(u.WC_keys_2f), sorted(u.WC_keys_4f)), (sorted(n0), sorted(n2), sorted(n4)), 'key-lists', which)
    mon.eq(sorted(u.WC_keys), sorted(n0 + n2 + n4), 'WC_keys', which)
    mon.eq(sorted(u.C_keys), sorted(list(u.WC_keys) + list(u.dim4_keys)), 'C_keys', which)
    mon.check(len(set(u.C_keys)) == len(u.C_keys), 'C_keys-duplicates', which)
    anti = set(u.C_symm_keys.get(71, []))
    for k in u.WC_keys:
        s = shapes[k]
        if k in anti:
            s = (s[1],) + s[1:]
        mon.check(u.C_keys_shape[k] == s, 'shape', f'{which} {k}: {u.C_keys_shape[k]} != {s}')
    dim4 = {'SMEFT': dict(g=1, gp=1, gs=1, Lambda=1, m2=1, Gu=(3, 3), Gd=(3, 3), Ge=(3, 3)),
            'WET': dict(e=1, gs=1, Md=(3, 3), Mu=(2, 2), Me=(3, 3), Mnu=(3, 3)), 'WET-4': dict(e=1, Mu=(2, 2)), 'synthetic': dict(p4=1, M4=(3, 3))}[which]
    mon.eq({k: u.C_keys_shape[k] for k in u.dim4_keys}, dim4, 'shape-dim4', which)
    allk = [k for c in u.C_symm_keys.values() for k in c]
    mon.check(sorted(allk) == sorted(u.C_keys), 'symmetry-classes-partition', f'{which}: {sorted(set(allk) ^ set(u.C_keys))[:5]}')
    cls = {k: c for c, ks in u.C_symm_keys.items() for k in ks}
    if which == 'SMEFT':
        for k, c in eft.SMEFT_CLASS.items():
            mon.check(cls.get(k) == c, 'symmetry-class', f'{k}: {cls.get(k)} != {c}')
    if which == 'synthetic':
        for k, o in u._verif_names.items():
            mon.check(cls.get(k) == eft.SMEFT_CLASS[o], 'symmetry-class', f'{k} (like {o}): {cls.get(k)} != {eft.SMEFT_CLASS[o]}')
        mon.check(cls.get('p4') == 0 and cls.get('M4') == 1, 'symmetry-class-dim4', f'{cls}')
    # vector <-> dict: a bijection in which each parameter owns its slots
    C = {k: rarr(rng, u.C_keys_shape[k]) for k in u.C_keys}
    vec = u.C_dict2array(C)
    N = sum(int(np.prod(u.C_keys_shape[k])) for k in u.C_keys)
    mon.eq(vec.shape, (N,), 'vector-length', which)
    back = u.C_array2dict(vec)
    mon.check(same_arrays(back, C), 'vector-roundtrip', f'{which}')
    mon.check(list(back) == list(u.C_keys), 'vector-key-order', which)
    v2 = rng.normal(size=N) + 1j * rng.normal(size=N)
    mon.check(np.array_equal(u.C_dict2array(u.C_array2dict(v2)), v2), 'vector-roundtrip2', which)
    k = u.C_keys[int(rng.integers(len(u.C_keys)))]
    D = {q: copy.deepcopy(C[q]) for q in C}
    shuf = list(D)
    rng.shuffle(shuf)
    mon.check(np.array_equal(u.C_dict2array({q: D[q] for q in shuf}), vec), 'vector-order-dependence', which)
    if u.C_keys_shape[k] == 1:
        D[k] += 1
        nch = 1
    else:
        t = tuple(int(rng.integers(n)) for n in u.C_keys_shape[k])
        D[k][t] += 1
        nch = 1
    diff = np.flatnonzero(u.C_dict2array(D) != vec)
    mon.eq(len(diff), nch, 'vector-slot', f'{which} {k}')
    mon.check(abs(u.C_array2dict(np.arange(N + 50))[u.C_keys[-1]] if u.C_keys_shape[u.C_keys[-1]] == 1 else u.C_array2dict(np.arange(N + 50))[u.C_keys[-1]].ravel()[-1]) == N - 1,
              'vector-longer-input', which)
    mon.fresh(lambda: u.C_dict2array(copy.deepcopy(C)), 'shared:C_dict2array', which)
    mon.fresh(lambda: u.C_array2dict(vec.copy()), 'shared:C_array2dict', which)
    mon.case('layout', which, i, sample=[which, len(u.C_keys), N, k])


def wcxf_arrays(rng, mon, i):
    which = UTILS[i % 4]
    u, wcs = get_util(which, rng)
    idx = eft.nonred_indices(wcs)
    for _ in range(4):
        n = int(rng.choice([0, 1, 5, 50, len(wcs)]))
        keys = [wcs[j] for j in rng.permutation(len(wcs))[:n]]
        # any index combination within the shape may be given
        if rng.random() < .3:
            extra = []
            for k in rng.choice([q for q in idx if idx[q]], size=3):
                s = u.C_keys_shape[str(k)]
                extra.append(str(k) + '_' + ''.join(str(int(rng.integers(m)) + 1) for m in s))
            keys = list(dict.fromkeys(keys + extra))
        d = {k: complex(*rng.normal(size=2)) if '_' in k else float(rng.normal()) for k in keys}
        d0 = dict(d)
        A = u.wcxf2arrays(d)
        mon.check(d == d0, 'wcxf2arrays-mutates', which)
        mon.check(set(A) == {k.split('_')[0] for k in d}, 'wcxf2arrays-keys', f'{which}')
        cnt = 0
        for k, v in A.items():
            s = u.C_keys_shape[k]
            if s == 1:
                mon.check(v == d[k], 'wcxf2arrays-scalar', f'{k}')
                cnt += 1
                continue
            mon.check(v.shape == tuple(s), 'wcxf2arrays-shape', f'{k} {v.shape}')
            exp = np.zeros(s, dtype=complex)
            for q in d:
                if q.split('_')[0] == k:
                    exp[tuple(int(c) - 1 for c in q.split('_')[1])] = d[q]
                    cnt += 1
            mon.check(np.array_equal(v, exp), 'wcxf2arrays-values', f'{which} {k}')
        mon.eq(cnt, len(d), 'wcxf2arrays-count', which)
        W = u.arrays2wcxf(A)
        mon.check({k: v for k, v in W.items() if v != 0} == {k: v for k, v in d.items() if v != 0}, 'arrays2wcxf-roundtrip', which)
        mon.eq(len(W), sum(int(np.prod(np.shape(v))) if np.shape(v) else 1 for v in A.values()), 'arrays2wcxf-count', which)
        # completion with zeros
        for k in u.C_keys:
            if k not in A and rng.random() < .1:      # coefficients and parameters that are given as zero
                A[k] = 0. if u.C_keys_shape[k] == 1 else np.zeros(u.C_keys_shape[k], dtype=complex)
        keep = dict(A)
        F = u.add_missing(A)
        mon.check(set(A) == set(keep) and all(A[k] is keep[k] for k in keep), 'add_missing-mutates', which)
        mon.check(set(F) == set(u.WC_keys) | set(A), 'add_missing-keys', f'{which} {set(F) ^ (set(u.WC_keys) | set(A))}')
        for k in F:
            if k in A:
                mon.check(np.array_equal(np.asarray(F[k]), np.asarray(A[k])) and np.shape(F[k]) == np.shape(A[k]) and np.asarray(F[k]).dtype == np.asarray(A[k]).dtype, 'add_missing-changes', k)
            else:
                s = u.C_keys_shape[k]
                mon.check((np.shape(F[k]) == () if s == 1 else np.shape(F[k]) == tuple(s)) and not np.any(F[k]), 'add_missing-zero', f'{which} {k}')
        fz = [k for k in F if k not in A and u.C_keys_shape[k] != 1]
        if len(fz) > 1:     # fresh arrays, not one shared array
            F[fz[0]][(0,) * F[fz[0]].ndim] = 1
            mon.check(not any(np.any(F[k]) for k in fz[1:]) and not np.any(u.add_missing(A)[fz[0]]), 'add_missing-shared', which)
        C = {k: rarr(rng, u.C_keys_shape[k]) for k in rng.choice(u.WC_keys, size=min(5, len(u.WC_keys)), replace=False)}
        C = {str(k): v for k, v in C.items()}
        for q in C:     # the format holds complex numbers for coefficients without flavour as well
            if u.C_keys_shape[q] == 1 and rng.random() < .5:
                C[q] = complex(*rng.normal(size=2))
        R = u.wcxf2arrays(u.arrays2wcxf(C))
        mon.check(same_arrays(R, C), 'arrays-roundtrip', which)
        mon.fresh(lambda: u.wcxf2arrays(dict(d0)), 'shared:wcxf2arrays', which)
        mon.fresh(lambda: u.arrays2wcxf(copy.deepcopy(C)), 'shared:arrays2wcxf', which)
        mon.fresh(lambda: u.add_missing(copy.deepcopy(C)), 'shared:add_missing', which)
        mon.case('wcxf', which, tuple(sorted(d)), sample=[which, list(d)[:5]])


def padding(rng, mon, i):
    which = ['WET', 'WET-4', 'SMEFT', 'synthetic'][i % 4]
    u, wcs = get_util(which, rng)
    for _ in range(3):
        keys = [str(k) for k in rng.permutation(u.C_keys)[:int(rng.integers(1, 12))]]
        C = {k: rarr(rng, u.C_keys_shape[k], real=bool(rng.random() < .3)) for k in keys}
        C0 = copy.deepcopy(C)
        fill = [0, 1, 7][int(rng.integers(3))]
        Pd = u.pad_C(C) if fill == 0 and rng.random() < .5 else u.pad_C(C, fill_value=fill)
        mon.check(set(Pd) == set(C), 'pad-keys', which)
        for k, v in Pd.items():
            s = u.C_keys_shape[k]
            if s == 1:
                mon.check(v == C0[k], 'pad-scalar', k)
                continue
            mon.check(v.shape == (3,) * len(s), 'pad-shape', f'{which} {k} {v.shape}')
            exp = np.full((3,) * len(s), fill, dtype=C0[k].dtype)
            exp[tuple(slice(0, n) for n in s)] = C0[k]
            mon.check(np.array_equal(v, exp), 'pad-values', f'{which} {k}')
        U = u.unpad_C(Pd)
        mon.check(same_arrays(U, C0), 'unpad-inverse', which)
        mon.check(same_arrays(C, C0), 'pad-mutates', which)
        U2 = u.unpad_C(C)
        mon.check(same_arrays(U2, C0), 'unpad-unpadded', which)
        mon.case('pad', which, tuple(keys), fill)


def wet_layout(rng, mon, i):
    """Legacy low-energy helpers: dictionary -> arrays with conjugate entries filled in."""
    from wilson.util import wet_jms, wetutil
    from wilson import wcxf
    wcs = wcxf.Basis['WET', 'JMS'].all_wcs
    real = eft.sectors_real('WET', 'JMS')
    cls = {k: c for c, ks in wetutil.C_symm_keys.items() for k in ks}
    d = eft.random_wcs(rng, 'WET', 'JMS', n=int(rng.choice([1, 20, 300, 5000])))
    secs = None
    if rng.random() < .4:
        allsec = list(wcxf.Basis['WET', 'JMS'].sectors)
        secs = tuple(str(s) for s in rng.choice(allsec, size=int(rng.integers(1, 4)), replace=False))
    d0 = dict(d)
    A = wet_jms.JMS_to_array(d, sectors=secs)
    mon.check(d == d0, 'JMS_to_array-mutates', '')
    keys = wcs if secs is None else [k for s in secs for k in wcxf.Basis['WET', 'JMS'].sectors[s]]
    n = 0
    for k in keys:
        name, _, ind = k.partition('_')
        if not ind:
            mon.check(A[k] == d.get(k, 0), 'JMS_to_array-scalar', k)
            continue
        t = tuple(int(c) - 1 for c in ind)
        v = complex(d.get(k, 0))
        mon.check(A[name][t] == v, 'JMS_to_array-value', f'{k}: {A[name][t]} != {v}')
        if cls[name] in (4, 41, 5, 6, 71):
            for p, c, s in eft.group(cls[name], 4):
                w = A[name][tuple(t[j] for j in p)]
                mon.check(w == s * (v.conjugate() if c else v), 'JMS_to_array-symmetry', f'{k} {p}: {w} vs {v}')
        n += 1
    # names outside the non-redundant list are mapped into it
    red = {}
    full = eft.nonred_indices(wcs)
    for _ in range(20):
        name = str(rng.choice([k for k in full if full[k] and cls[k] in (4, 41, 5, 6, 71)]))
        t = full[name][int(rng.integers(len(full[name])))]
        base = name + '_' + ''.join(str(j + 1) for j in t)
        p, c, s = list(eft.group(cls[name], 4))[int(rng.integers(len(eft.group(cls[name], 4))))]
        k2 = name + '_' + ''.join(str(t[j] + 1) for j in p)
        v = float(rng.normal()) if real[base] else complex(*rng.normal(size=2))
        v = np.complex128(v)
        if base in red or any(k2 == q for q in red):
            continue
        r = wet_jms.symmetrize_JMS_dict({k2: v})
        want = s * (v.conjugate() if c else v)
        if k2 in set(wcs):
            base, want = k2, v
        mon.check(set(r) == {base} and r[base] == want, 'symmetrize_JMS_dict', f'{k2} = {v} -> {r}, expected {base} = {want}')
        red[k2] = 1
    mon.fresh(lambda: wet_jms.JMS_to_array(dict(d0), sectors=secs), 'shared:JMS_to_array')
    mon.case('wet_layout', i, secs, len(d))


def shapes(rng, mon, i):
    """Conversion of arrays with any number of generations, one included."""
    from wilson.util.common import EFTutil
    u, wcs = get_util('WET-4' if i % 2 else 'SMEFT', rng)
    C = {}
    for j in range(6):
        s = [(), (1,), (1, 1), (1,) * 4, (2, 1), (1, 3), (2, 2), (1, 2, 1, 1), (2, 3, 1, 2)][int(rng.integers(9))]
        C[f'c{j}'] = rarr(rng, s) if s else [float(rng.normal()), complex(*rng.normal(size=2)), np.float64(rng.normal())][j % 3]
    W = u.arrays2wcxf(C)
    want = {}
    for k, v in C.items():
        if np.shape(v) in ((), (1,)):
            want[k] = complex(np.ravel(v)[0])
        else:
            want.update({k + '_' + ''.join(str(t + 1) for t in ind): complex(v[ind]) for ind in np.ndindex(*v.shape)})
    mon.check(set(W) == set(want) and all(complex(np.ravel(W[k])[0]) == want[k] for k in want), 'arrays2wcxf-shapes',
              f'{ {k: np.shape(v) for k, v in C.items()} }: {sorted(set(W) ^ set(want))[:6]}')
    mon.case('shapes', i, sample=[str(np.shape(v)) for v in C.values()])


FAMILIES = [Family('shapes', shapes, 60, 600), Family('layout', layout, 48, 600), Family('wcxf_arrays', wcxf_arrays, 80, 900), Family('padding', padding, 80, 900),
            Family('wet_layout', wet_layout, 40, 400)]
RULE = ('coefficient/array conversions of the high-energy, low-energy, four-flavour and randomly generated synthetic bases '
        'compared entry by entry with an index model; a case is a distinct (basis, coefficient selection)')
if __name__ == '__main__':
    mon.run('C10', RULE, FAMILIES)
