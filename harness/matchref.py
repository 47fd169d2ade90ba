"""Reference for SMEFT -> WET tree-level matching.

W and Z are eliminated numerically: the kinetic and mass matrices of (W3, B) are diagonalised, couplings of every fermion current follow
from isospin and hypercharge plus the Higgs-current operators, and the product of currents is decomposed into JMS operators.  All
results are exact in the elimination but are used only to first order in the coefficients.
"""
import math, re
import numpy as np
import eft, wetlib

EYE = np.eye(3)
# class of every coefficient that receives a contribution (symmetry of the operator)
CL = {}
for k in 'VuuRR VddRR VuuLL VddLL'.split():
    CL[k] = 4
for k in 'VeeLL VeeRR VnunuLL'.split():
    CL[k] = 6


def default():
    from wilson.run.smeft.smpar import p
    return dict(p)


def neutral(g1, g2, C, v):
    """Kinetic mixing and masses of (W3, B): photon and Z as vectors in that space, Z mass squared."""
    e = C['phiWB'] * v * v
    K = np.array([[1, e], [e, 1]])
    M = v * v / 4 * (1 + v * v / 2 * C['phiD']) * np.array([[g2 * g2, -g1 * g2], [-g1 * g2, g1 * g1]])
    # normalise the kinetic matrix
    w, U = np.linalg.eigh(K)
    S = U @ np.diag(w**-.5) @ U.T
    m, R = np.linalg.eigh(S @ M @ S)
    X = S @ R                       # columns: photon, Z in terms of W3, B
    if X[0, 0] < 0:
        X[:, 0] *= -1
    if X[0, 1] < 0:
        X[:, 1] *= -1
    return X[:, 0], X[:, 1], m[1]


def solve(C, p):
    """v, g1, g2 from GF, m_W and alpha_e."""
    # muon decay: exchange of a W with shifted lepton couplings plus the contact term
    wl = C['phil3']
    contact = -(C['ll'][0, 1, 1, 0] + C['ll'][1, 0, 0, 1])
    # 4 GF/sqrt2 = 2/v^2 (1 + v^2 (wl_ee + wl_mumu)) + contact
    x = (4 * p['GF'] / math.sqrt(2) - 2 * (wl[0, 0] + wl[1, 1]).real - contact.real) / 2
    v = 1 / math.sqrt(x)
    g2 = 2 * p['m_W'] / v
    e0 = math.sqrt(4 * math.pi * p['alpha_e'])
    g1 = e0 * g2 / math.sqrt(g2**2 - e0**2)
    for _ in range(100):
        ph, Z, m = neutral(g1, g2, C, v)
        e = g2 * ph[0]            # photon coupling of a unit of T3 (equals that of a unit of hypercharge)
        g1n = g1 * (1 + (e0 - e) / e0 * 1.2)
        if abs(g1n - g1) < 1e-16:
            break
        g1 = g1n
    return v, g1, g2


def elimination(C, p):
    """JMS arrays (down quarks in the weak basis) including the SM part, all redundant entries filled."""
    v, g1, g2 = solve(C, p)
    ph, Z, mZ2 = neutral(g1, g2, C, v)
    mW2 = (g2 * v / 2)**2
    v2 = v * v
    e = g2 * ph[0]

    # coupling of Z to a current: L = - sum_a Z (psi-bar gamma a psi); universal part and Higgs-current operators
    # <phi^dag i D phi> = -(1/2) v^2 (g2 Z3 - g1 ZB)/... : operator phi-current contributes with half of the isospin combination
    k = (g2 * Z[0] - g1 * Z[1])

    def zc(T3, Y, *ops):
        # ops: signed coefficient matrices of the Higgs-current operators
        a = (g2 * T3 * Z[0] + g1 * Y * Z[1]) * EYE
        for s, T in ops:
            a = a - s * v2 / 2 * k * T
        return a
    a = {
        'nuL': zc(.5, -.5, (1, C['phil1']), (-1, C['phil3'])),
        'eL': zc(-.5, -.5, (1, C['phil1']), (1, C['phil3'])),
        'uL': zc(.5, 1 / 6, (1, C['phiq1']), (-1, C['phiq3'])),
        'dL': zc(-.5, 1 / 6, (1, C['phiq1']), (1, C['phiq3'])),
        'eR': zc(0, -1, (1, C['phie'])),
        'uR': zc(0, 2 / 3, (1, C['phiu'])),
        'dR': zc(0, -1 / 3, (1, C['phid'])),
    }
    # W couplings: L = - g2/sqrt2 W+ (nu wl e + u wq d + u wr d_R) + h.c.
    wl, wq, wr = EYE + v2 * C['phil3'], EYE + v2 * C['phiq3'], v2 / 2 * C['phiud']
    cc = -g2**2 / (2 * mW2)
    out = {}
    E = np.einsum

    def zz(x, y):
        return -E('pr,st->prst', a[x], a[y]) / mZ2
    sym = lambda T: (T + E('stpr->prst', T)) / 2
    fz = lambda T: (T + E('ptsr->prst', T)) / 2
    # leptons: (l l)(l l) contains nu nu, e e and the two orderings of nu e; Fierz brings all into one form
    ll = C['ll']
    out['VnunuLL'] = fz(sym(ll + zz('nuL', 'nuL') / 2))
    out['VeeLL'] = fz(sym(ll + zz('eL', 'eL') / 2))
    # L contains ll_prst (lbar_p l_r)(lbar_s l_t): nu e + e nu with indices exchanged
    out['VnueLL'] = ll + E('stpr->prst', ll) + zz('nuL', 'eL') + cc * E('pt,rs->prst', wl, wl.conj())
    out['VeeRR'] = fz(sym(C['ee'] + zz('eR', 'eR') / 2))
    out['VnueLR'] = C['le'] + zz('nuL', 'eR')
    out['VeeLR'] = C['le'] + zz('eL', 'eR')
    # semileptonic
    out['VnuuLL'] = C['lq1'] + C['lq3'] + zz('nuL', 'uL')
    out['VnudLL'] = C['lq1'] - C['lq3'] + zz('nuL', 'dL')
    out['VeuLL'] = C['lq1'] - C['lq3'] + zz('eL', 'uL')
    out['VedLL'] = C['lq1'] + C['lq3'] + zz('eL', 'dL')
    out['VnueduLL'] = 2 * C['lq3'] + cc * E('pr,ts->prst', wl, wq.conj())
    out['VnueduLR'] = cc * E('pr,ts->prst', wl, wr.conj())
    for x, n in (('nuL', 'nu'), ('eL', 'e')):
        out[f'V{n}uLR'] = C['lu'] + zz(x, 'uR')
        out[f'V{n}dLR'] = C['ld'] + zz(x, 'dR')
    out['VueLR'] = C['qe'] + zz('uL', 'eR')
    out['VdeLR'] = C['qe'] + zz('dL', 'eR')
    out['VeuRR'] = C['eu'] + zz('eR', 'uR')
    out['VedRR'] = C['ed'] + zz('eR', 'dR')
    # quarks; colour Fierz of (u_p d_t)(d_s u_r): 1/Nc singlet + 2 octet
    out['VuuLL'] = sym(C['qq1'] + C['qq3'] + zz('uL', 'uL') / 2)
    out['VddLL'] = sym(C['qq1'] + C['qq3'] + zz('dL', 'dL') / 2)
    q1, q3 = C['qq1'], C['qq3']
    # triplet: sum_I tau^I tau^I = tau3 tau3 + 2 (tau+ tau- + tau- tau+)
    cross = 2 * (E('ptsr->prst', q3) + E('srpt->prst', q3)) + cc * E('pt,rs->prst', wq, wq.conj())
    out['V1udLL'] = q1 + E('stpr->prst', q1) - q3 - E('stpr->prst', q3) + cross / 3 + zz('uL', 'dL')
    out['V8udLL'] = 2 * cross
    out['VuuRR'] = sym(C['uu'] + zz('uR', 'uR') / 2)
    out['VddRR'] = sym(C['dd'] + zz('dR', 'dR') / 2)
    crossR = cc * E('pt,rs->prst', wr, wr.conj())
    out['V1udRR'] = C['ud1'] + zz('uR', 'dR') + crossR / 3
    out['V8udRR'] = C['ud8'] + 2 * crossR
    for x in 'ud':
        out[f'V1{x}uLR'] = C['qu1'] + zz(x + 'L', 'uR')
        out[f'V1{x}dLR'] = C['qd1'] + zz(x + 'L', 'dR')
        out[f'V8{x}uLR'] = C['qu8']
        out[f'V8{x}dLR'] = C['qd8']
    out['V1udduLR'] = cc * E('pr,ts->prst', wq, wr.conj())
    # scalar and tensor: isospin components of eps_12 = +1
    out['SedRL'] = C['ledq']
    out['SnueduRL'] = C['ledq']
    out['SnueduRR'] = C['lequ1']
    out['SeuRR'] = -C['lequ1']
    out['TnueduRR'] = C['lequ3']
    out['TeuRR'] = -C['lequ3']
    for n in '18':
        out[f'S{n}udRR'] = C['quqd' + n]
        out[f'S{n}udduRR'] = -E('stpr->prst', C['quqd' + n])
    # baryon number violating (published: 1709.04486, table of Delta B operators)
    Q = C['qqql']
    out['SuddLL'] = E('rpst->prst', Q) + E('srpt->prst', Q) - E('rspt->prst', Q)
    out['SduuLL'] = out['SuddLL']
    out['SduuLR'] = -C['qque'] - E('rpst->prst', C['qque'])
    out['SduuRL'] = C['duql']
    out['SdudRL'] = -C['duql']
    out['SduuRR'] = C['duue']
    # dipoles and gluons
    r = v / math.sqrt(2)
    out['egamma'] = r * (ph[1] * C['eB'] - ph[0] * C['eW'])
    out['dgamma'] = r * (ph[1] * C['dB'] - ph[0] * C['dW'])
    out['ugamma'] = r * (ph[1] * C['uB'] + ph[0] * C['uW'])
    out['uG'], out['dG'] = r * C['uG'], r * C['dG']
    out['G'], out['Gtilde'] = C['G'], C['Gtilde']
    return out


def chir(name, n):
    """'L'/'R' for every flavour index of a JMS coefficient together with a bar flag."""
    if n == 2:
        return 'LR', (1, 0)
    c = name[-2:]
    fl = name[0]
    L = re.findall('nu|[ude]', re.match(r'[VST][18]?((?:nu|[ude])+)[LR]{2}$', name).group(1))
    if fl in 'ST' and len(L) == 3:
        return c[0] * 2 + c[1] * 2, (0, 0, 0, 0)
    if fl == 'V':
        return c[0] * 2 + c[1] * 2, (1, 0, 1, 0)
    return ('LRLR' if c == 'RR' else 'LRRL'), (1, 0, 1, 0)


def mass_basis(arr, p):
    from ckmutil.ckm import ckm_tree
    V = ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
    out = {}
    for name, T in arr.items():
        T = np.asarray(T)
        if T.ndim:
            ch, bar = chir(name, T.ndim)
            for ax, f in enumerate(wetlib.flavours(name, T.ndim)):
                if f == 'd' and ch[ax] == 'L':
                    M = V.conj() if bar[ax] else V
                    T = np.moveaxis(np.tensordot(M, T, axes=(0, ax)), 0, ax)
        out[name] = T
    return out


def jms(d, p):
    """First-order tree-level JMS coefficients in the exchange format."""
    from wilson import wcxf
    pp = default()
    pp.update(p or {})
    wcs = wcxf.Basis['SMEFT', 'Warsaw up'].all_wcs
    shapes = {k: (3,) * len(f) for k, f in eft.FIELDS.items()}
    C = eft.symmetric_reference(d, shapes, eft.SMEFT_CLASS, wcs)
    # derivative, exact to fourth order in the step
    big = max([abs(x) for x in d.values()] + [1e-300])
    h = 3e-9 / big

    def f(s):
        return mass_basis(elimination({k: s * x for k, x in C.items()}, pp), pp)
    lin = [k for k in d if k.split('_')[0] in ('phiWB', 'phiD', 'phil1', 'phil3', 'll', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid', 'phiud')]
    if lin:
        a, b, a2, b2 = f(h), f(-h), f(2 * h), f(-2 * h)
        D = {k: (8 * (a[k] - b[k]) - (a2[k] - b2[k])) / (12 * h) for k in a}
    else:
        # no modification of propagators or couplings: the dependence is exactly linear
        a, b = f(1.), f(0.)
        D = {k: a[k] - b[k] for k in a}
    names = set(wcxf.Basis['WET', 'JMS'].all_wcs)
    out = {}
    for n in names:
        name, _, ind = n.partition('_')
        if name not in D:
            continue
        if not ind:
            x = complex(D[name])
        else:
            t = tuple(int(c) - 1 for c in ind)
            x = complex(D[name][t]) * _deg(name, len(t))[t]
        if x != 0:
            out[n] = x
    return out


_D = {}


def _deg(name, n):
    if name not in _D:
        _D[name] = eft.degeneracy(CL.get(name, 3), (3,) * n)
    return _D[name]


def _canon(k, names, cls):
    name, _, ind = k.partition('_')
    if k in names or not ind:
        return k, 1, False
    if cls.get(name) in eft.GENS:
        for p, c, s in eft.group(cls[name], len(ind)):
            q = name + '_' + ''.join(ind[j] for j in p)
            if q in names:
                return q, s, c
    raise KeyError(k)


def relabel_smeft(d, T):
    """Relabel generations; coefficients without a simple index symmetry (qqql) keep their quark labels, so only lepton relabelling is meaningful."""
    from wilson import wcxf
    names = set(wcxf.Basis['SMEFT', 'Warsaw up'].all_wcs)
    out = {}
    for k, v in d.items():
        name, _, ind = k.partition('_')
        if ind:
            q = name + '_' + ''.join(str(T[f][int(c) - 1] + 1) for (f, b), c in zip(eft.FIELDS[name], ind))
        else:
            q = k
        q, s, c = _canon(q, names, eft.SMEFT_CLASS)
        out[q] = s * (np.conj(v) if c else v)
    return {k: (v.item() if hasattr(v, 'item') else v) for k, v in out.items()}


def relabel_wet(d, T):
    from wilson import wcxf
    names = set(wcxf.Basis['WET', 'JMS'].all_wcs)
    canon = wetlib.canonical()
    out = {}
    for k, v in d.items():
        q, s, c = canon(wetlib.relabel(k, T), names)
        out[q] = s * (np.conj(v) if c else v)
    return out
