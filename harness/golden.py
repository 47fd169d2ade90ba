"""Recorded reference values.

Each maker is a deterministic function of a seed that returns {key: array}; the
files in /verif/golden hold what the pinned tree returned.  A check calls
`compare` which recomputes the same points on the current tree.
"""
import os
import numpy as np
import eft, smeftgen

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'golden')


def path(n):
    return os.path.join(DIR, n + '.npz')


MAKERS = {}


def maker(f):
    MAKERS[f.__name__] = f
    return f


def make(n):
    os.makedirs(DIR, exist_ok=True)
    np.savez_compressed(path(n), **{k: np.asarray(v) for k, v in MAKERS[n]().items()})


def load(n):
    with np.load(path(n)) as z:
        return {k: z[k] for k in z.files}


@maker
def beta():
    from wilson.run.smeft import beta as b
    out = {}
    for s in range(3):
        rng = np.random.default_rng(1000 + s)
        C = smeftgen.point(rng)
        if s == 2:
            C = smeftgen.point(rng, yuk=.1)
        B = b.beta(C, [1, 1000., 1][s])
        for k in B:
            out[f'{s}:{k}'] = B[k]
    return out


WETRUN = {0: dict(mu=None, parameters=None), 1: dict(mu=None, parameters={'alpha_s': .121, 'm_b': 4.35, 'm_c': 1.21, 'm_s': .09, 'alpha_e': .0069})}
WETMU = {'WET': (150., 3.), 'WET-4': (5., 1.6), 'WET-3': (1.2, 2.4)}


def wet_names(e, s):
    from wilson import wcxf
    return sorted(wcxf.Basis[e, 'JMS'].sectors[s])


def wetmap_column(e, s, key, v):
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    mu, out = WETMU[e]
    w = wcxf.WC(e, 'JMS', mu, {key: 1.})
    return WETrunner(w, parameters=WETRUN[v]['parameters']).run(out, sectors=(s,)).dict


@maker
def wetmaps():
    from wilson import wcxf
    out = {}
    for e in WETMU:
        for v in WETRUN:
            for s in wcxf.Basis[e, 'JMS'].sectors:
                names = wet_names(e, s)
                pos = {k: j for j, k in enumerate(names)}
                R, C, V = [], [], []
                for c, k in enumerate(names):
                    for r, x in wetmap_column(e, s, k, v).items():
                        if abs(x) > 1e-16:
                            R.append(pos[r]); C.append(c); V.append(complex(x))
                V = np.array(V)
                out[f'{e}|{s}|{v}|r'] = np.array(R, dtype=np.int16)
                out[f'{e}|{s}|{v}|c'] = np.array(C, dtype=np.int16)
                out[f'{e}|{s}|{v}|v'] = V.real.copy() if not np.any(np.abs(V.imag) > 1e-14 * np.abs(V)) else V
    return out


def wetmap_entries(G, e):
    for k in G:
        if k.startswith(e + '|') and k.endswith('|v'):
            _, s, v, _ = k.split('|')
            yield s, int(v), G[k[:-1] + 'r'], G[k[:-1] + 'c'], G[k]


MATCH_CLASSES = sorted(k for k in eft.SMEFT_CLASS if k not in ('Gu', 'Gd', 'Ge'))
MATCH_P = [{'Vus': .3, 'Vub': .15, 'Vcb': .2, 'gamma': 1.1, 'm_u': 3., 'm_c': 17., 'm_t': 170., 'm_d': 5., 'm_s': 11., 'm_b': 29., 'm_e': 7., 'm_mu': 13., 'm_tau': 31.,
            'alpha_s': .13, 'alpha_e': .0085, 'm_W': 78., 'GF': 1.3e-5}, {}]


def match_point(name, v):
    """One-loop plus tree matching with one class of SMEFT coefficients switched on."""
    from wilson import wcxf
    rng = np.random.default_rng(77 + v)
    real = eft.sectors_real('SMEFT', 'Warsaw up')
    d = {k: 1e-10 * (x[0] if real[k] else complex(*x)) for k, x in ((k, rng.uniform(.3, 1, size=2) * rng.choice([-1, 1], size=2)) for k in sorted(real)) if k.split('_')[0] == name}
    p = dict(MATCH_P[v], loop_order=1)

    def f(s):
        return wcxf.WC('SMEFT', 'Warsaw up', [140., 110.][v], wcxf.WC.dict2values({k: s * x for k, x in d.items()})).match('WET', 'JMS', parameters=p).dict
    a, b = f(1), f(-1)
    return {k: complex((a.get(k, 0) - b.get(k, 0)) / 2) for k in set(a) | set(b)}


@maker
def match():
    out = {}
    for v in range(2):
        for n in MATCH_CLASSES:
            r = match_point(n, v)
            big = max([abs(x) for x in r.values()] + [0])
            ks = sorted(k for k in r if abs(r[k]) > 1e-12 * big)
            out[f'{n}|{v}|k'] = np.array(ks)
            out[f'{n}|{v}|v'] = np.array([r[k] for k in ks])
    return out


@maker
def eos():
    """Response of b->s::c1..c6 to every JMS coefficient of the b -> s q q sector."""
    from wilson import wcxf
    keys = sorted(k for s in ('sb',) for k in wcxf.Basis['WET', 'JMS'].sectors[s])
    outs = [f'b->s::c{j}' for j in range(1, 7)]
    M = np.zeros((len(keys), 2, len(outs)))
    for j, k in enumerate(keys):
        for u, z in enumerate((1, 1j)):
            if u and eft.sectors_real('WET', 'JMS')[k]:
                continue
            r = wcxf.WC('WET', 'JMS', 4.2, wcxf.WC.dict2values({k: z})).translate('EOS').dict
            M[j, u] = [r.get(o, 0) for o in outs]
    use = [j for j in range(len(keys)) if np.any(M[j])]
    return {'keys': np.array([keys[j] for j in use]), 'outs': np.array(outs), 'matrix': M[use], 'scale': 4.2}
