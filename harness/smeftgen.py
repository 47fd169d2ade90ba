"""Random points of the SMEFT parameter space as dictionaries of arrays."""
import numpy as np
import eft


def symm(k, T):
    c = eft.SMEFT_CLASS.get(k, 1)
    if c == 8:
        return np.einsum('ab,bl->al', eft.proj8(), T.reshape(27, 3)).reshape(T.shape)
    if eft.GENS[c]:
        G = eft.group(c, T.ndim)
        return sum(sg * (np.transpose(T, p).conj() if cc else np.transpose(T, p)) for p, cc, sg in G) / len(G)
    return T


def point(rng, size=1., yuk=1., keys=None, symmetric=True, shapes=None):
    """All parameters; Wilson coefficients of typical magnitude `size` (0 outside `keys`)."""
    C = {'g': .4 + .4 * rng.random(), 'gp': .2 + .3 * rng.random(), 'gs': .8 + .5 * rng.random(), 'Lambda': .1 + .4 * rng.random(),
         'm2': float(1e4 * (.5 + rng.random()))}
    for k in ('Gu', 'Gd', 'Ge'):
        C[k] = yuk * (rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3)))
    names = [k for k in (eft.SMEFT_CLASS if shapes is None else shapes) if k not in C]
    for k in names:
        n = 0 if eft.SMEFT_CLASS[k] == 0 else len(eft.FIELDS[k])
        if n == 0:
            x = float(rng.normal()) * size
        else:
            x = size * (rng.normal(size=(3,) * n) + 1j * rng.normal(size=(3,) * n))
            if symmetric:
                x = symm(k, x)
        C[k] = x if keys is None or k in keys else 0 * x
    return C


SM = ['g', 'gp', 'gs', 'Lambda', 'm2', 'Gu', 'Gd', 'Ge']
