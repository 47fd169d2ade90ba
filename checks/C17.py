"""Anomalous dimensions below the electroweak scale: flavour universality, published exponents, recorded evolution maps, complete sectors."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, golden, eft, wetlib
from mon import Family
import itertools, math
import numpy as np

MASS = ['m_u', 'm_d', 'm_s', 'm_c', 'm_b', 'm_e', 'm_mu', 'm_tau']
GEN = {'u': ['m_u', 'm_c'], 'd': ['m_d', 'm_s', 'm_b'], 'e': ['m_e', 'm_mu', 'm_tau']}


def matrices(sector, f, m):
    """(coefficient names, QCD matrix, QED matrix) acting on normalised coefficients of a sector."""
    from wilson.run.wet import adm, definitions
    cl = definitions.sectors[sector]
    lab = list(definitions.coeffs[sector])
    if cl == 'inv':
        z = np.zeros((len(lab), len(lab)))
        return lab, z, z
    args = (f,) + tuple(m[k] for k in MASS)
    return (lab,) + tuple(np.array(getattr(adm, f'adm_{t}_{cl}')(*args), dtype=complex).T for t in 'se')


def physical(sector, f, m):
    """The same with the dipoles not divided by the mass of the heavier generation."""
    lab, As, Ae = matrices(sector, f, m)
    N = np.array([m[{'u': ['m_u', 'm_c'], 'd': ['m_d', 'm_s', 'm_b'], 'e': ['m_e', 'm_mu', 'm_tau']}[k[0]][int(max(k[-2:])) - 1]]
                  if k.split('_')[0] in wetlib.DIP else 1. for k in lab])
    return lab, As * N[:, None] / N[None, :], Ae * N[:, None] / N[None, :]


def relabel(rng, mon, i):
    """Strong and electromagnetic interactions distinguish generations by their masses only."""
    from wilson.run.wet import definitions
    f = [5, 4, 3][i % 3] if i % 4 else 5
    m = {k: float(np.exp(rng.normal()) * .3) for k in MASS}
    T = {}
    for k, n in (('u', 2), ('d', 3), ('e', 3), ('nu', 3)):
        T[k] = [int(x) for x in rng.permutation(n)] + ([2] if n == 2 else [])
    if i % 3 == 0:
        keep = str(rng.choice(['u', 'd', 'e', 'nu']))
        T = {k: (v if k == keep else [0, 1, 2]) for k, v in T.items()}
    m2 = dict(m)
    for k, names in GEN.items():
        for g, n in enumerate(names):
            m2[names[T[k][g]]] = m[n]
    canon = wetlib.canonical()
    M = {s: physical(s, f, m) for s in definitions.coeffs}
    M2 = {s: physical(s, f, m2) for s in definitions.coeffs}
    sets = {s: set(ks) for s, ks in definitions.coeffs.items()}
    for s, (lab, As, Ae) in M.items():
        img = [wetlib.relabel(k, T) for k in lab]
        target = None
        for q, names in sets.items():
            if len(names) == len(lab) and canon(img[0], names):
                target = q
                break
        if target is None:
            mon.violate(f'relabel-image:{s}', f'{s} under {T}: {img[0]} in no sector')
            continue
        im = [canon(k, sets[target]) for k in img]
        mon.check(all(im), f'relabel-closed:{s}', f'{s} -> {target} under {T}: {[k for k, c in zip(img, im) if not c][:4]}')
        if not all(im):
            continue
        pos = {k: j for j, k in enumerate(M2[target][0])}
        P = [pos[c[0]] for c in im]
        mon.check(len(set(P)) == len(P), f'relabel-bijective:{s}', f'{s} -> {target}')
        S = np.array([c[1] for c in im])
        for name, A, B in (('qcd', As, M2[target][1]), ('qed', Ae, M2[target][2])):
            mon.event(A.size)
            D = B[np.ix_(P, P)] * S[:, None] * S[None, :] - A
            bad = np.abs(D) > 1e-9 * np.abs(A) + 1e-12
            if bad.any():
                a, b = np.argwhere(bad)[0]
                mon.violate(f'relabel-{name}:{s}', f'{s}->{target} {T} f={f}: d{lab[a]}/d{lab[b]} = {A[a, b]} but image {im[a][0]},{im[b][0]} has {B[P[a], P[b]]} ({int(bad.sum())} entries)')
        mon.case('relabel', s, target, f)
    mon.count('sectors')


def masses(rng, mon, i):
    """Masses enter as ratios: scaling all of them changes nothing."""
    from wilson.run.wet import definitions
    f = [5, 4, 3][i % 3]
    m = {k: float(np.exp(rng.normal()) * .3) for k in MASS}
    x = float(np.exp(rng.normal()))
    for s in definitions.coeffs:
        lab, As, Ae = matrices(s, f, m)
        _, Bs, Be = matrices(s, f, {k: v * x for k, v in m.items()})
        for n, A, B in (('qcd', As, Bs), ('qed', Ae, Be)):
            mon.event(A.size)
            # mixing of the three-gluon operators into dipoles carries no mass either
            bad = np.abs(A - B) > 1e-9 * np.abs(A) + 1e-13
            if bad.any():
                a, b = np.argwhere(bad)[0]
                mon.violate(f'mass-scaling-{n}:{s}', f'{lab[a]} <- {lab[b]}: {A[a, b]} vs {B[a, b]}')
        # the QED matrix is real; the QCD matrix too, except for the CP-odd three-gluon operator
        j = [k for k, n in enumerate(lab) if n != 'Gtilde']
        mon.check(np.all(np.isfinite(As)) and np.all(np.isfinite(Ae)), f'finite:{s}', '')
        mon.check(not np.any(As[:, j].imag) and not np.any(Ae.imag), f'real:{s}', '')
        mon.case('masses', s, f)


def labels(rng, mon, i):
    """Every sector evolves exactly the coefficients its basis lists."""
    from wilson import wcxf
    from wilson.run.wet import definitions, WETrunner
    for e in ('WET', 'WET-4', 'WET-3'):
        B = wcxf.Basis[e, 'JMS']
        mon.eq(set(B.sectors) - set(definitions.sectors), set(), 'unknown-sectors', e)
        for s, ks in B.sectors.items():
            lab = list(definitions.coeffs.get(s, []))
            mon.eq(len(set(lab)), len(lab), 'duplicate-labels', f'{e} {s}')
            mon.eq(set(ks) - set(lab), set(), 'missing-labels', f'{e} {s}')
            if e == 'WET':
                mon.eq(set(lab) - set(ks), set(), 'surplus-labels', f'{e} {s}')
            # observed: every coefficient survives the evolution and nothing else appears
            vals = {k: 1e-8 * float(rng.normal()) for k in ks}
            out = WETrunner(wcxf.WC(e, 'JMS', 3., wcxf.WC.dict2values(vals))).run(2.5).dict
            mon.eq(set(out), set(ks), 'coefficients-kept', f'{e} {s}')
            mon.case('labels', e, s)


def run1(e, mu, d, out, **kw):
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    return {k: complex(v) for k, v in WETrunner(wcxf.WC(e, 'JMS', mu, wcxf.WC.dict2values(d)), **kw).run(out).dict.items()}


def published(rng, mon, i):
    """Textbook leading-order exponents."""
    from wilson.util import qcd
    e, f, a, b = [('WET', 5, 160., 4.2), ('WET-4', 4, 4., 1.4), ('WET-3', 3, 2.5, 1.1)][i % 3]
    par = {'alpha_s': float(rng.uniform(.112, .124))}
    as_ = lambda mu: qcd.alpha_s(mu, f, par['alpha_s'], loop=3)
    eta, b0 = as_(a) / as_(b), 11 - 2 * f / 3
    kw = dict(parameters=par, qed_order=0)
    run = lambda d: run1(e, a, d, b, **kw)
    from wilson import wcxf
    B = wcxf.Basis[e, 'JMS']
    for s in B.sectors:
        for k in B.sectors[s]:
            n = k.split('_')[0]
            # semileptonic currents do not run, scalars like 1/m, tensors with gamma = 8/3 a_s/(4 pi)
            if s in ('sd', 'sb', 'db', 'cu', 'dF=0', 'mue', 'mutau', 'taue'):
                continue
            x = None
            if n in ('VnueduLL', 'VnueduLR', 'VnudLL', 'VnudLR', 'VnuuLL', 'VedLL', 'VedRR', 'VedLR', 'VdeLR', 'VeuLL', 'VeuRR', 'VeuLR', 'VueLR'):
                x = 0
            elif n in ('SnueduRL', 'SnueduRR', 'SedRL', 'SedRR', 'SeuRL', 'SeuRR'):
                x = -8 / (2 * b0)
            elif n in ('TnueduRR', 'TedRR', 'TeuRR'):
                x = 8 / 3 / (2 * b0)
            elif n[:5] in ('SduuL', 'SduuR', 'SuudL', 'SuudR', 'SuddL', 'SdudR', 'SdduR'):
                x = -4 / (2 * b0)       # all three-quark operators without derivatives
            elif n in ('VddLL', 'VddRR', 'VuuLL', 'VuuRR') and s in ('sbsb', 'dbdb', 'sdsd', 'cucu'):
                x = 4 / (2 * b0)
            if x is None:
                continue
            o = run({k: 1e-8})
            mon.check(set(o) == {k}, f'published-mixing:{n}', f'{e} {k} -> {sorted(o)[:4]}')
            mon.close(o.get(k, 0), 1e-8 * eta ** x, f'published:{n}', f'{e} {k}', rtol=1e-9)
            mon.case('published', e, n, s)
    # dF=2: left-right and scalar operators, eigenvalues of the published 2x2 matrices
    r241 = math.sqrt(241)
    for s, lr, sr in (('sbsb', 'ddLR', 'ddRR'), ('dbdb', 'ddLR', 'ddRR'), ('sdsd', 'ddLR', 'ddRR'), ('cucu', 'uuLR', 'uuRR')):
        if s not in B.sectors:
            continue
        for pre, fam, gam in (('V', lr, (2, -16)), ('S', sr, (2 * (1 + r241) / 3, 2 * (1 - r241) / 3))):
            ks = sorted(k for k in B.sectors[s] if k.split('_')[0] in (f'{pre}1{fam}', f'{pre}8{fam}'))
            for grp in ([ks] if len(ks) == 2 else []):
                U = np.array([[run({q: 1e-8}).get(k, 0) / 1e-8 for q in grp] for k in grp])
                want = sorted(eta ** (g / (2 * b0)) for g in gam)
                mon.close(np.array(sorted(np.linalg.eigvals(U).real)), np.array(want), f'published-dF2:{pre}', f'{e} {s}', rtol=1e-8)
                mon.case('published', e, s, pre)
    # radiative decays: C7 and C8
    q = {'WET': ('d', '23', 'm_b', 3), 'WET-4': ('u', '12', 'm_c', 2), 'WET-3': ('d', '12', 'm_s', 2)}[e]
    m = {'m_b': qcd.m_b, 'm_c': qcd.m_c, 'm_s': qcd.m_s}[q[2]]
    from wilson.parameters import p as dflt
    mass = lambda mu: m(dflt[q[2]], mu, f, par['alpha_s'], loop=3)
    for ind in (q[1], q[1][::-1]):
        kg, kG = f'{q[0]}gamma_{ind}', f'{q[0]}G_{ind}'
        c7, c8 = rng.normal(size=2) * 1e-8
        e7 = 1.            # electric charge factors drop out of the homogeneous part
        d = {kg: c7 * mass(a), kG: c8 * math.sqrt(as_(a)) * mass(a)}
        o = run(d)
        o7, o8 = o[kg] / mass(b), o[kG] / math.sqrt(as_(b)) / mass(b)
        mon.close(o8, c8 * eta ** (14 / 3 / b0) , 'published-C8', e, rtol=1e-8)
        Q = -1 / 3 if q[0] == 'd' else 2 / 3
        # published with unit charge -1/3: C7 = eta^{16/3b0} C7 + 8/3 (eta^{14/3b0}-eta^{16/3b0}) C8 (times e_q / (-1/3)), dipoles normalised with e and g
        e_ = math.sqrt(4 * math.pi * dflt['alpha_e'])
        mix = 8 / 3 * (eta ** (14 / 3 / b0) - eta ** (16 / 3 / b0)) * (Q / (-1 / 3)) * e_ / math.sqrt(4 * math.pi)
        mon.close(o7, c7 * eta ** (16 / 3 / b0) + c8 * mix, 'published-C7', f'{e} {ind} ratio {(o7 - c7 * eta ** (16 / 3 / b0)) / (c8 * mix)}', rtol=1e-8)
        mon.case('published', e, 'dipole', ind)


def recorded(rng, mon, i):
    """Evolution maps of every sector as recorded on the pinned tree."""
    e = ['WET', 'WET-4', 'WET-3'][i % 3]
    G = golden.load('wetmaps')
    full = i >= 3
    for s, v, rows, cols, vals in golden.wetmap_entries(G, e):
        want = {}
        names = golden.wet_names(e, s)
        for r, c, x in zip(rows, cols, vals):
            want.setdefault(int(c), {})[names[r]] = x
        pick = range(len(names)) if len(names) <= 40 or full else sorted(rng.choice(len(names), size=40, replace=False))
        for c in pick:
            got = golden.wetmap_column(e, s, names[c], v)
            w = want.get(int(c), {})
            top = max([abs(x) for x in w.values()] + [1e-30])
            mon.event(len(w))
            for k in set(got) | set(w):
                g, x = got.get(k, 0), w.get(k, 0)
                if abs(g - x) > 1e-7 * abs(x) + 1e-10 * top:
                    mon.violate(f'recorded:{s}', f'{e} variant {v}: {k} from {names[c]}: {g} recorded {x}')
                    break
            mon.case('recorded', e, s, int(c), v)


FAMILIES = [Family('relabel', relabel, 12, 300), Family('masses', masses, 6, 60), Family('labels', labels, 2, 20), Family('published', published, 6, 60),
            Family('recorded', recorded, 3, 6, 600)]
RULE = ('anomalous dimensions at random masses under random relabelling of generations, mass scaling, sector completeness, published leading-order '
        'exponents at the level of observed evolution, and recorded evolution maps; a case is a distinct sector and relabelling, coefficient or column')
if __name__ == '__main__':
    mon.run('C17', RULE, FAMILIES)
