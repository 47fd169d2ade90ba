"""Running below the electroweak scale: closed-form reference, sector closure, linearity, parity, interpolation, option handling."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, wetlib
from mon import Family
import copy, math
import numpy as np
import scipy.linalg

F = {'WET': 5, 'WET-4': 4, 'WET-3': 3}
RANGE = {'WET': (1.5, 200.), 'WET-4': (1.2, 8.), 'WET-3': (1.0, 3.)}
DIP = {'uG': 'g', 'dG': 'g', 'ugamma': 'gg', 'dgamma': 'gg', 'egamma': 'gg'}
UM, DM, EM = ['m_u', 'm_c', 'm_t'], ['m_d', 'm_s', 'm_b'], ['m_e', 'm_mu', 'm_tau']


def params(rng):
    if rng.random() < .3:
        return None
    p = {}
    for k, (a, b) in {'alpha_s': (.112, .124), 'm_b': (4., 4.4), 'm_c': (1.2, 1.35), 'm_s': (.08, .11), 'm_u': (.001, .003), 'm_d': (.003, .006),
                      'alpha_e': (.006, .009), 'm_e': (4e-4, 6e-4), 'm_mu': (.1, .11), 'm_tau': (1.7, 1.8)}.items():
        if rng.random() < .6:
            p[k] = float(rng.uniform(a, b))
    return p


def scale(rng, e):
    a, b = RANGE[e]
    return float(math.exp(rng.uniform(math.log(a), math.log(b))))


def running(mu, f, par):
    """Parameters at mu, straight from the QCD functions (checked by C01/C02)."""
    from wilson.util import qcd
    from wilson.parameters import p as dflt
    P = dict(dflt)
    P.update(par or {})
    a = P['alpha_s']
    out = {'alpha_s': qcd.alpha_s(mu, f, a, loop=3), 'm_b': qcd.m_b(P['m_b'], mu, f, a, loop=3), 'm_c': qcd.m_c(P['m_c'], mu, f, a, loop=3)}
    for k in ('m_s', 'm_u', 'm_d'):
        out[k] = qcd.m_s(P[k], mu, f, a, loop=3)
    for k in ('alpha_e', 'm_e', 'm_mu', 'm_tau'):
        out[k] = P[k]
    return out


def norm(key, p):
    """Factor turning a JMS coefficient into the normalisation of the anomalous dimensions."""
    name, _, ind = key.partition('_')
    g, e = math.sqrt(4 * math.pi * p['alpha_s']), math.sqrt(4 * math.pi * p['alpha_e'])
    if name in DIP:
        m = p[{'u': UM, 'd': DM, 'e': EM}[name[0]][int(max(ind)) - 1]]
        return g / m if DIP[name] == 'g' else g * g / e / m
    return g if name in ('G', 'Gtilde') else 1.


def reference(sector, names, d, f, pi, po, qcd, qed):
    """Leading-log QCD plus first-order QED by matrix exponentials (no eigendecomposition)."""
    from wilson.run.wet import adm, definitions
    cl = definitions.sectors[sector]
    full = definitions.coeffs[sector]
    keep = [j for j, n in enumerate(full) if n in names]
    lab = [full[j] for j in keep]
    x = np.array([complex(d.get(n, 0)) for n in lab])
    if cl == 'inv' or not np.any(x):
        return dict(zip(lab, x))
    args = (f, pi['m_u'], pi['m_d'], pi['m_s'], pi['m_c'], pi['m_b'], pi['m_e'], pi['m_mu'], pi['m_tau'])
    As, Ae = (np.array(getattr(adm, f'adm_{t}_{cl}')(*args), dtype=complex)[np.ix_(keep, keep)].T for t in 'se')
    b0 = 11 - 2 * f / 3
    L = math.log(pi['alpha_s'] / po['alpha_s']) if qcd or not qed else 0.
    if not qcd and qed:
        L = 0.
    n = len(lab)
    x = x * np.array([norm(k, pi) for k in lab])
    if qcd:
        # y' = M y + (ae/as) N y in the variable ln(as_in/as): as = as_in e^-t, so 1/as grows like e^t
        M = As / (2 * b0)
        N = Ae / (2 * b0) * pi['alpha_e'] / pi['alpha_s']
        Us = scipy.linalg.expm(M * L)
        U1 = scipy.linalg.expm(np.block([[M, N], [np.zeros((n, n)), M + np.eye(n)]]) * L)[:n, n:]
        y = Us @ x + (U1 @ x if qed else 0)
    else:
        y = x
    return dict(zip(lab, y / np.array([norm(k, po) for k in lab])))


def random_input(rng, e, sectors=None):
    from wilson import wcxf
    B = wcxf.Basis[e, 'JMS']
    R = eft.sectors_real(e, 'JMS')
    secs = list(B.sectors) if sectors is None else sectors
    d = {}
    for s in secs:
        ks = [k for k in B.sectors[s]]
        n = int(rng.choice([1, 2, 5, len(ks)]))
        for k in rng.permutation(ks)[:n]:
            k = str(k)
            z = gen.cplx(rng) * 1e-8
            d[k] = gen.part(z, R[k])
    return d


def wcof(e, mu, d):
    from wilson import wcxf
    return wcxf.WC(e, 'JMS', mu, wcxf.WC.dict2values(d))


def num(wc):
    return {k: complex(v) for k, v in wc.dict.items()}


def oracle(rng, mon, i):
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    e = ['WET', 'WET', 'WET-4', 'WET-3'][i % 4]
    B = wcxf.Basis[e, 'JMS']
    f = F[e]
    a, b = scale(rng, e), scale(rng, e)
    par = params(rng)
    big = i % 3 == 0
    secs = list(B.sectors) if big else [str(s) for s in rng.choice(list(B.sectors), size=min(12, len(B.sectors)), replace=False)]
    d = random_input(rng, e, secs)
    qcd, qed = [(1, 1), (1, 1), (1, 1), (1, 0), (0, 0), (0, 1)][int(rng.integers(6))]
    wc = wcof(e, a, d)
    w0, p0 = copy.deepcopy(wc.values), copy.deepcopy(par)
    kw = {} if (qcd, qed) == (1, 1) and rng.random() < .5 else dict(qcd_order=qcd, qed_order=qed)
    r = WETrunner(wc, parameters=par, **kw)
    out = r.run(b)
    mon.check(type(out) is wcxf.WC and (out.eft, out.basis, out.scale) == (e, 'JMS', b), 'labels', f'{out.eft} {out.basis} {out.scale}')
    mon.check(wc.values == w0 and par == p0, 'mutates', 'input coefficients or parameters changed')
    try:
        out.validate()
    except Exception as ex:
        mon.violate('invalid-output', repr(ex))
    got = num(out)
    pi, po = running(a, f, par), running(b, f, par)
    R = eft.sectors_real(e, 'JMS')
    for s in B.sectors:
        ref = reference(s, set(B.sectors[s]), d, f, pi, po, qcd, qed)
        mon.dclose({k: v for k, v in got.items() if k in B.sectors[s]}, ref, f'run:{s}', f'{e} {a:.3g}->{b:.3g} qcd={qcd} qed={qed} {par}',
                   rtol=1e-8, atol=1e-22)
        mon.case('run', e, s, qcd, qed, i)
    im = [k for k in got if R[k] and abs(got[k].imag) > 1e-9 * max(abs(v) for v in got.values())]
    mon.check(not im, 'real-output', f'{im[:4]}')
    # again, after runs with other parameters / flavour numbers on the shared caches
    for e2 in rng.permutation(list(F)):
        e2 = str(e2)
        WETrunner(wcof(e2, scale(rng, e2), random_input(rng, e2, [str(rng.choice(list(wcxf.Basis[e2, 'JMS'].sectors)))])), parameters=params(rng)).run(scale(rng, e2))
    again = num(WETrunner(wcof(e, a, d), parameters=par, **kw).run(b))
    mon.dclose(again, got, 'history', f'{e} same run after other runs', rtol=1e-12)
    mon.dclose(num(r.run(b)), got, 'history', f'{e} same runner again', rtol=1e-12)
    from wilson.parameters import p as dflt
    g0 = dict(dflt)
    r.parameters['m_b'] = 9.            # this runner's own business
    mon.check(dict(dflt) == g0 and par == p0, 'parameters-shared', 'changing the parameters of one runner changes those of others')
    dflt['m_b'] = g0['m_b']


def neighbours(rng, mon, i):
    """In one process, runs that differ in a single parameter (then back again): each follows its own parameters, not those of an earlier run."""
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    from wilson.parameters import p as dflt
    e = ['WET', 'WET', 'WET-4', 'WET-3'][i % 4]
    B = wcxf.Basis[e, 'JMS']
    f = F[e]
    a, b = scale(rng, e), scale(rng, e)
    base = params(rng) if i % 2 else None
    d = random_input(rng, e)
    keys = ['m_s', 'm_d', 'm_u', 'm_c', 'm_b', 'm_e', 'm_mu', 'm_tau', 'alpha_e', 'alpha_s']
    R = eft.sectors_real(e, 'JMS')
    first = None
    seq = [None] + [str(k) for k in rng.permutation(keys)] + [None]
    for k in seq:
        par = base
        if k is not None:
            v = {**dflt, **(base or {})}[k]
            # (small steps too: caches with rounded keys)
            par = dict(base or {}, **{k: v * (1 + float(rng.choice([1e-4, .01, .05] if k == 'alpha_s' else [1e-4, .01, .3])))})
        got = num(WETrunner(wcof(e, a, d), parameters=par).run(b))
        pi, po = running(a, f, par), running(b, f, par)
        for s in B.sectors:
            ref = reference(s, set(B.sectors[s]), d, f, pi, po, 1, 1)
            mon.dclose({q: v for q, v in got.items() if q in B.sectors[s]}, ref, f'neighbour:{s}', f'{e} {a:.3g}->{b:.3g} base={base} changed {k}: {par}',
                       rtol=1e-8, atol=1e-22)
        if first is None:
            first = got
        mon.case('neighbours', e, k, i)
    mon.check(got == first, 'neighbour-return', f'{e} {a:.3g}->{b:.3g} the same run again after others')
    # nearby scales, same parameters
    for x in (b * (1 + 1e-6), b * 1.004, a * 1.004):
        got = num(WETrunner(wcof(e, a, d), parameters=base).run(x))
        pi, po = running(a, f, base), running(x, f, base)
        for s in B.sectors:
            mon.dclose({q: v for q, v in got.items() if q in B.sectors[s]}, reference(s, set(B.sectors[s]), d, f, pi, po, 1, 1), f'neighbour-scale:{s}',
                       f'{e} {a!r}->{x!r} {base}', rtol=1e-8, atol=1e-22)


def laws(rng, mon, i):
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    e = ['WET', 'WET-4', 'WET-3'][i % 3]
    B = wcxf.Basis[e, 'JMS']
    a, b = scale(rng, e), scale(rng, e)
    par = params(rng)
    kw = [{}, dict(qed_order=0), dict(qcd_order=0), dict(qcd_order=0, qed_order=0)][int(rng.integers(4))]
    run = lambda d, mu=a, out=b, **k: num(WETrunner(wcof(e, mu, d), parameters=par, **kw).run(out, **k))
    d1, d2 = random_input(rng, e), random_input(rng, e)
    x = float(rng.normal())
    o1, o2 = run(d1), run(d2)
    s = {k: d1.get(k, 0) + x * d2.get(k, 0) for k in set(d1) | set(d2)}
    mon.dclose(run(s), {k: o1.get(k, 0) + x * o2.get(k, 0) for k in set(o1) | set(o2)}, 'linear', f'{e} {kw}', rtol=1e-10)
    # homogeneous at every magnitude: an effect is not lost because the coefficient is small
    z = 10. ** float(rng.uniform(-60, 12))
    mon.dclose({k: v / z for k, v in run({k: v * z for k, v in d1.items()}).items()}, o1, 'homogeneous', f'{e} {kw} {z:.1g}', rtol=1e-10)
    # QCD and QED conserve CP: conjugated input gives conjugated output
    cp = lambda d: {k: complex(v).conjugate() * (-1 if k == 'Gtilde' else 1) for k, v in d.items()}
    mon.dclose(run(cp(d1)), cp(o1), 'cp', f'{e} {kw}', rtol=1e-11)
    # sectors evolve independently
    for sec in rng.choice(list(B.sectors), size=4):
        sec = str(sec)
        part = run({k: v for k, v in d1.items() if k in B.sectors[sec]})
        mon.dclose(part, {k: v for k, v in o1.items() if k in B.sectors[sec]}, f'sector-closure', f'{e} {sec} {kw}', rtol=1e-11)
        mon.check(set(part) <= set(B.sectors[sec]), 'sector-leak', f'{sec}: {sorted(set(part) - set(B.sectors[sec]))[:5]}')
        mon.case('laws', e, sec, tuple(kw))
    secs = tuple(str(q) for q in rng.choice(list(B.sectors), size=3, replace=False))
    part = run(d1, sectors=secs)
    mon.dclose(part, {k: v for k, v in o1.items() if any(k in B.sectors[q] for q in secs)}, 'sector-selection', f'{e} {secs}', rtol=1e-12)
    mon.eq(run(d1, sectors=()), {}, 'no-sectors', e)
    # running to the same scale changes nothing; nothing comes from nothing
    mon.dclose(run(d1, out=a), d1, 'identity', f'{e} {kw}', rtol=1e-9)
    mon.check(run({}) == {}, 'from-nothing', f'{e} {kw}')
    if kw.get('qcd_order') == 0:
        # without QCD only the normalisation of dipole operators changes
        rest = [k for k in d1 if norm(k, {'alpha_s': 2., 'alpha_e': 3., **{m: 5. for m in UM + DM + EM}}) == 1]
        if kw.get('qed_order') == 0:
            mon.dclose({k: o1[k] for k in rest if k in o1}, {k: d1[k] for k in rest}, 'no-running', f'{e} {kw}', rtol=1e-12)
    if kw == {}:
        # baryon/lepton-flavour blocks without strong interaction are invariant
        inv = [k for q in B.sectors for k in B.sectors[q] if 'nunu' in q and 'ffnunu' not in q]
        mon.dclose({k: o1[k] for k in inv if k in o1}, {k: d1[k] for k in inv if k in d1}, 'invariant', e, rtol=1e-12)


def compose(rng, mon, i):
    """QCD evolution composes and reverses exactly where no masses enter."""
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    e = ['WET', 'WET-4', 'WET-3'][i % 3]
    B = wcxf.Basis[e, 'JMS']
    from wilson.run.wet import definitions
    massless = [s for s in B.sectors if definitions.sectors[s] in ('I', 'Iu', 'II', 'III', 'IV', 'Vb', 'Vb_c', 'uude', 'ucde', 'uddnu', 'udsnu', 'inv', 'Ie', 'IVe')]
    if not massless:
        massless = list(B.sectors)
    a, b, c = (scale(rng, e) for _ in range(3))
    par = params(rng)
    d = random_input(rng, e, massless)
    run = lambda d, mu, out: num(WETrunner(wcof(e, mu, d), parameters=par, qed_order=0).run(out))
    o = run(d, a, b)
    mon.dclose(run(run(d, a, c), c, b), o, 'compose', f'{e} {a:.3g}->{c:.3g}->{b:.3g}', rtol=1e-8)
    mon.dclose(run(o, b, a), d, 'reverse', f'{e} {a:.3g}->{b:.3g}', rtol=1e-8)
    # full running composes up to second order in alpha_e/alpha_s and the mass ratios' running
    runf = lambda d, mu, out: num(WETrunner(wcof(e, mu, d), parameters=par).run(out))
    d = random_input(rng, e)
    o = runf(d, a, b)
    # (dipoles mix with mass ratios frozen at the input scale, so they are left out)
    nd = lambda d: {k: v for k, v in d.items() if k.split('_')[0] not in DIP}
    mon.dclose(nd(runf(runf(d, a, math.sqrt(a * b)), math.sqrt(a * b), b)), nd(o), 'compose-full', f'{e}', rtol=2e-2)
    mon.dclose(nd(runf(o, b, a)), nd(d), 'reverse-full', f'{e}', rtol=5e-2)
    mon.case('compose', e, i)


def parity_name(k):
    """Parity image (key, sign, conjugated) of a coefficient; None if it leaves the basis."""
    name, _, ind = k.partition('_')
    if name == 'G':
        return k, 1, 0
    if name == 'Gtilde':
        return k, -1, 0
    if name[:4] in ('Vnud', 'Vnuu', 'Vnue') and len(name) == 6:
        return name[:-2] + {'LL': 'LR', 'LR': 'LL'}[name[-2:]] + '_' + ind, 1, 0
    if 'nu' in name:
        return None
    if name in DIP:
        return name + '_' + ind[::-1], 1, 1
    if name[0] == 'V' and name[-2:] in ('LL', 'RR'):
        return name[:-2] + {'LL': 'RR', 'RR': 'LL'}[name[-2:]] + '_' + ind, 1, 0
    if 'uddu' in name:
        return name + '_' + ind[::-1], 1, 1
    if name[0] == 'V' and name.endswith('LR'):
        q = name[:-2]
        n = len(q)
        x = [c for c in q[1:] if c in 'ude']
        h = q[:len(q) - len(x)]
        return h + x[1] + x[0] + 'LR_' + ind[2:] + ind[:2], 1, 0
    if name[:4] in ('Sduu', 'Suud') and len(name) == 6:
        return name[:4] + name[4:].translate(str.maketrans('LR', 'RL')) + '_' + ind, 1, 0
    if name[0] in 'ST' and name[-2:] in ('RR', 'RL'):
        return name + '_' + ind[1] + ind[0] + ind[3] + ind[2], 1, 1
    return None


def parity(rng, mon, i):
    """QCD and QED do not distinguish left from right."""
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    e = ['WET', 'WET-4', 'WET-3'][i % 3]
    B = wcxf.Basis[e, 'JMS']
    canon = wetlib.canonical()
    secs = [s for s in B.sectors if 'nu' not in s]
    nusecs = [s for s in B.sectors if s in ('sbnunu', 'dbnunu', 'sdnunu', 'cununu', 'ffnunu', 'nunumue', 'nunumutau', 'nunutaue')]
    a, b = scale(rng, e), scale(rng, e)
    par = params(rng)
    d = random_input(rng, e, secs + nusecs)
    img = {}
    for s in secs + nusecs:
        for k in B.sectors[s]:
            r = parity_name(k)
            q = canon(r[0], B.sectors[s]) if r else None
            if q is not None:
                img[k] = q[0], r[1] * q[1], r[2] ^ q[2]
    whole = [s for s in secs + nusecs if all(k in img for k in B.sectors[s]) and len({img[k][0] for k in B.sectors[s]}) == len(B.sectors[s])]
    mon.count('sectors closed under parity', len(whole))
    for s in secs + nusecs:
        if s not in whole:
            mon.count('not closed: ' + s)
    keys = {k for s in whole for k in B.sectors[s]}

    def image(d):
        return {img[k][0]: img[k][1] * (complex(v).conjugate() if img[k][2] else v) for k, v in d.items()}
    d = {k: v for k, v in d.items() if k in keys}
    run = lambda d: num(WETrunner(wcof(e, a, d), parameters=par).run(b, sectors=tuple(whole)))
    mon.dclose(run(image(d)), image(run(d)), 'parity', f'{e} {a:.3g}->{b:.3g}', rtol=1e-10)
    for s in whole:
        mon.case('parity', e, s)


def continuous(rng, mon, i):
    from wilson import wcxf
    from wilson.run.wet import WETrunner
    e = ['WET', 'WET-4', 'WET-3'][i % 3]
    B = wcxf.Basis[e, 'JMS']
    a, b = scale(rng, e), scale(rng, e)
    par = params(rng)
    secs = 'all' if i % 2 else tuple(str(q) for q in rng.choice(list(B.sectors), size=2, replace=False))
    d = random_input(rng, e)
    r = WETrunner(wcof(e, a, d), parameters=par)
    sol = r.run_continuous(b, sectors=secs)
    mon.check((sol.scale_min, sol.scale_max) == (min(a, b), max(a, b)), 'continuous-range', f'{a} {b}: {sol.scale_min} {sol.scale_max}')
    pts = [a, b, math.sqrt(a * b)]
    for x in pts:
        got = {k: v for k, v in sol.fun(x).items() if k in B.all_wcs}
        ref = num(r.run(x, sectors=secs))
        mon.dclose({k: v for k, v in got.items() if v != 0}, ref, 'continuous', f'{e} at {x:.3g}', rtol=1e-12)
    many = sol.fun(np.array(pts))
    mon.check(len(many) == 3 and all(dict(m) == dict(sol.fun(x)) for m, x in zip(many, pts)), 'continuous-vector', '')
    mon.raises(ValueError, lambda: r.run_continuous(a), 'continuous-same-scale', '')
    mon.raises(AssertionError, lambda: WETrunner({'a': 1}), 'accepts-dict', '')
    for bas in ('flavio', 'Bern'):
        mon.raises(AssertionError, lambda: WETrunner(wcxf.WC('WET', bas, 80., {})), 'accepts-basis', bas)
    mon.case('continuous', e, i)


FAMILIES = [Family('oracle', oracle, 24, 600), Family('neighbours', neighbours, 8, 160), Family('laws', laws, 18, 400), Family('compose', compose, 12, 300), Family('parity', parity, 9, 200),
            Family('continuous', continuous, 6, 60)]
RULE = ('random Wilson coefficients in all sectors, scales, parameters and coupling orders; observed output compared with matrix-exponential references, '
        'and with linearity, CP, parity, composition and closure laws; a case is a distinct sector, EFT and option set')
if __name__ == '__main__':
    mon.run('C16', RULE, FAMILIES)
