"""Models of the coefficient names of the JMS basis: flavour content, canonical names, relabelling."""
import re
import eft

DIP = {'uG': 'g', 'dG': 'g', 'ugamma': 'gg', 'dgamma': 'gg', 'egamma': 'gg'}


def flavours(name, n):
    """Field type of every flavour index of a JMS coefficient."""
    if name in DIP:
        return [name[0]] * 2
    if n == 0:
        return []
    L = re.findall('nu|[ude]', re.match(r'[VST][18]?((?:nu|[ude])+)[LR]{2}$', name).group(1))
    if n == 4 and len(L) == 2:
        return [L[0], L[0], L[1], L[1]]
    if n == 4 and len(L) == 3:
        return L + ['e' if L.count('u') == 2 else 'nu']
    assert len(L) == n, (name, n)
    return L


def relabel(key, T):
    name, _, ind = key.partition('_')
    if not ind:
        return key
    return name + '_' + ''.join(str(T[f][int(c) - 1] + 1) for f, c in zip(flavours(name, len(ind)), ind))


def canonical():
    """(key, names) -> (listed key, sign, conjugated) under the index symmetries of the basis, or None."""
    from wilson.util import wetutil
    cls = {k: c for c, ks in wetutil.C_symm_keys.items() for k in ks}

    def canon(k, names):
        if k in names:
            return k, 1, False
        name, _, ind = k.partition('_')
        if cls.get(name) not in eft.GENS:
            return None
        for p, c, s in eft.group(cls[name], len(ind)):
            q = name + '_' + ''.join(ind[j] for j in p)
            if q in names:
                return q, s, c
        return None
    return canon
