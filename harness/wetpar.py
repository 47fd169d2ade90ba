"""Parameters of the low-energy bases, obtained without the translators."""
import functools
import numpy as np
RTOL = 1e-9
FIXED = ['m_W', 'm_Z', 'GF', 'alpha_e', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_e', 'm_mu', 'm_tau']
MASSES = ['m_u', 'm_d', 'm_s', 'm_c', 'm_b']


def effective(user, scale, nf=5):
    from wilson.parameters import p as dp
    from wilson.util import qcd
    q = dict(dp, **(user or {}))
    p = {k: q[k] for k in FIXED}
    a = q['alpha_s']
    p['alpha_s'] = qcd.alpha_s(scale, nf, a)
    p['m_b'] = qcd.m_b(q['m_b'], scale, nf, a)
    p['m_c'] = qcd.m_c(q['m_c'], scale, nf, a)
    for k in ('m_u', 'm_d', 'm_s'):        # all defined at 2 GeV
        p[k] = qcd.m_s(q[k], scale, nf, a)
    return p


def valid(q):
    from ckmutil.ckm import ckm_tree
    with np.errstate(all='ignore'):
        return bool(np.all(np.isfinite(ckm_tree(q['Vus'], q['Vub'], q['Vcb'], q['gamma']))))


def draw(rng):
    """(user parameters or None, scale, effective parameters at that scale)."""
    from wilson.parameters import p as dp
    scale = float(rng.choice([2., 4.2, 5., 80., 91.1876, rng.uniform(1.5, 200), rng.uniform(.8, 1.5)]))
    kind = int(rng.integers(3))
    while True:
        user = None
        if kind:
            user = {'Vus': rng.uniform(.1, .5), 'Vub': rng.uniform(.003, .3), 'Vcb': rng.uniform(.03, .4), 'gamma': rng.uniform(-6.2, 6.2), 'GF': rng.uniform(.9e-5, 1.5e-5),
                    'alpha_e': rng.uniform(.006, .0085), 'alpha_s': rng.uniform(.11, .125), 'm_b': rng.uniform(3.8, 4.6), 'm_c': rng.uniform(1.1, 1.5), 'm_s': rng.uniform(.05, .2),
                    'm_u': rng.uniform(.001, .01), 'm_d': rng.uniform(.001, .01), 'm_e': rng.uniform(.0003, .001), 'm_mu': rng.uniform(.05, .2), 'm_tau': rng.uniform(1, 3), 'm_W': rng.uniform(70, 90)}
            user = {k: float(v) for k, v in user.items()}
            if kind == 2:
                user = {k: v for k, v in user.items() if rng.random() < .4}
        if valid(dict(dp, **(user or {}))):
            return user, scale, effective(user, scale)
