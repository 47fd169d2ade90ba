"""SMEFT renormalisation group evolution: reference integration, composition, reversal, leading log, continuous solution, basis independence."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, smeftgen
from mon import Family
import copy, math
import numpy as np
SM = smeftgen.SM
PHI3 = {'dphi', 'uphi', 'ephi', 'phi'}


def tight(size):
    return dict(rtol=1e-8, atol=max(1e-6 * size, 1e-16), method='DOP853')



def ew_point(rng, size=None, keys=None, rotated=None, scale=None):
    """Physical parameters plus Wilson coefficients; optionally in an arbitrary weak basis."""
    from wilson.run.smeft import smpar
    size = float(10.0**rng.uniform(-10, -7.3)) if size is None else size
    kind = int(rng.integers(3))
    if keys is None and kind == 1:
        keys = {str(k) for k in rng.choice([k for k in eft.SMEFT_CLASS if k not in SM], size=int(rng.integers(1, 6)), replace=False)}
    C = smeftgen.point(rng, size=size, keys=keys)
    C.update(smpar.smeftpar(91.1876, C, str(rng.choice(['Warsaw', 'Warsaw up']))))
    for k in ('Gu', 'Gd', 'Ge'):
        C[k] = C[k].astype(complex)
    if rng.random() < .5 if rotated is None else rotated:
        C = eft.rotate(C, {f: eft.unitary(rng) for f in 'qudle'})
    return C, size


def scales(rng, lo=3):
    a = float(rng.choice([91.1876, 160., 1000., 10.0**rng.uniform(2, 4)]))
    b = float(a * 10.0**(rng.choice([-1, 1]) * rng.uniform(.02, lo)))
    return a, max(b, 20.)


def rk4(C, a, b, n, newphys=True):
    from wilson.run.smeft import beta
    from wilson.util import smeftutil
    f = lambda y: beta.beta_array(smeftutil.C_array2dict(y), newphys=newphys) / (16 * np.pi**2)
    y = smeftutil.C_dict2array(C).astype(complex)
    h = math.log(b / a) / n
    for _ in range(n):
        k1 = f(y)
        k2 = f(y + h / 2 * k1)
        k3 = f(y + h / 2 * k2)
        k4 = f(y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return smeftutil.C_array2dict(y)


def same(mon, A, B, key, msg, size, rtol, wcatol=0., smatol=0.):
    mon.check(set(A) == set(B), key + '-keys', f'{msg} {sorted(set(A) ^ set(B))[:5]}')
    for k in B:
        x = A[k]
        if k in SM:
            mon.close(x, B[k], f'{key}:{k}', f'{msg} {k}', rtol=rtol, atol=smatol * (1e4 if k == 'm2' else 1))
        else:
            mon.close(x, B[k], f'{key}:{k}', f'{msg} {k}', rtol=rtol, atol=wcatol * size)


def unchanged(mon, C, C0, what):
    mon.check(set(C) == set(C0) and all(np.array_equal(C[k], C0[k]) for k in C0), f'mutates:{what}', 'the initial values were changed')


def reference(rng, mon, i):
    """The numerical solution solves d C / d log mu = beta/(16 pi^2) (own Runge-Kutta integration on the real beta functions)."""
    from wilson.run.smeft import rge
    C, size = ew_point(rng)
    a, b = scales(rng, 1.6)
    newphys = bool(rng.random() < .75)
    C0 = copy.deepcopy(C)
    n = 8 if abs(math.log(b / a)) < 1 else 20
    R = rk4(C, a, b, n, newphys)
    E = rge.smeft_evolve(C, a, b, newphys=newphys, **tight(size))
    unchanged(mon, C, C0, 'smeft_evolve')
    same(mon, E, R, 'evolve', f'{a:g}->{b:g} newphys={newphys}', size, 2e-6, 1e-7, 1e-6)
    D = rge.smeft_evolve(C, a, b, newphys=newphys)
    same(mon, D, R, 'evolve-default', f'{a:g}->{b:g} newphys={newphys}', size, 2e-2, 1e-2, 2e-3)
    for k in C:
        if k not in SM and not newphys:
            mon.check(np.array_equal(np.asarray(E[k]), np.asarray(C[k])), f'frozen:{k}', 'evolved without new physics running')
    mon.case('reference', a, b, newphys, size)


def laws(rng, mon, i):
    from wilson.run.smeft import rge
    C, size = ew_point(rng)
    a, b = scales(rng, 2)
    m = float(math.sqrt(a * b) * 10**rng.uniform(-.3, .3))
    newphys = bool(rng.random() < .8)
    kw = dict(newphys=newphys, **tight(size))
    E = rge.smeft_evolve(C, a, b, **kw)
    M = rge.smeft_evolve(C, a, m, **kw)
    same(mon, rge.smeft_evolve(M, m, b, **kw), E, 'composition', f'{a:g}->{m:g}->{b:g}', size, 1e-5, 1e-6, 1e-5)
    same(mon, rge.smeft_evolve(E, b, a, **kw), C, 'reversal', f'{a:g}->{b:g}->{a:g}', size, 1e-5, 1e-6, 1e-5)
    # evolution commutes with flavour rotations
    U = {f: eft.unitary(rng) for f in 'qudle'}
    if not np.any(C['quqd1']):
        # (the phi^3 psi^2 class and phi are left out: one term of dphi is not covariant, a finding recorded under C13)
        keep = lambda D: {k: v for k, v in D.items() if k not in PHI3}
        same(mon, keep(rge.smeft_evolve(eft.rotate(C, U), a, b, **kw)), keep(eft.rotate(E, U)), 'covariance', f'{a:g}->{b:g}', size, 1e-5, 1e-6, 1e-5)
    # only the ratio of scales matters; the same interval gives the same again
    s = float(10**rng.uniform(-1, 1))
    same(mon, rge.smeft_evolve(C, a * s, b * s, **kw), E, 'scale-ratio', f'x{s:g}', size, 1e-6, 1e-7, 1e-7)
    same(mon, rge.smeft_evolve(copy.deepcopy(C), a, b, **kw), E, 'repeat', '', size, 0)
    same(mon, rge.smeft_evolve(C, a, a, **kw), C, 'identity', f'{a:g}', size, 1e-13, 0)
    same(mon, rge.smeft_evolve(C, a, a), C, 'identity', f'{a:g}', size, 1e-13, 0)
    # small Wilson coefficients evolve linearly in the background of the Standard Model
    Z = {k: C[k] if k in SM else 0 * C[k] for k in C}
    t = 1e-2
    S1 = {k: C[k] if k in SM else t * C[k] for k in C}
    S2 = {k: C[k] if k in SM else 2 * t * C[k] for k in C}
    e0, e1, e2 = (rge.smeft_evolve(q, a, b, **dict(kw, atol=max(1e-6 * t * size, 1e-16))) for q in (Z, S1, S2))
    for k in C:
        if k not in SM:
            mon.check(not np.any(e0[k]), f'generated-from-nothing:{k}', f'{np.max(np.abs(e0[k]))}')
            mon.close(e2[k], 2 * np.asarray(e1[k]), f'linear:{k}', f'{a:g}->{b:g}', rtol=1e-4, atol=1e-5 * t * size)
    mon.case('laws', a, b, m, newphys)


def leadinglog(rng, mon, i):
    from wilson.run.smeft import rge, beta
    for j in range(4):
        C, size = ew_point(rng)
        a, b = scales(rng)
        newphys = bool(rng.random() < .7)
        C0 = copy.deepcopy(C)
        L = rge.smeft_evolve_leadinglog(C, a, b, newphys=newphys) if rng.random() < .7 or not newphys else rge.smeft_evolve_leadinglog(C, a, b)
        unchanged(mon, C, C0, 'leadinglog')
        B = beta.beta(C, newphys=newphys)
        R = {k: np.asarray(C[k]) + np.asarray(B[k]) / (16 * math.pi**2) * math.log(b / a) for k in C}
        same(mon, L, R, 'leadinglog', f'{a:g}->{b:g}', size, 1e-12)
        for v in L.values():
            if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                v[...] = 5
        unchanged(mon, C, C0, 'leadinglog-alias')
        same(mon, rge.smeft_evolve_leadinglog(C, a, a), C, 'leadinglog-identity', '', size, 1e-14)
        mon.case('ll', a, b, newphys)
    # difference to the full solution is second order in the logarithm
    a = float(rng.choice([91.1876, 1000.]))
    e = float(rng.choice([1, -1])) * .02
    d = []
    for x in (e, 2 * e, 4 * e):
        b = a * math.exp(x)
        E, L = rge.smeft_evolve(C, a, b, **tight(size)), rge.smeft_evolve_leadinglog(C, a, b)
        d.append({k: np.max(np.abs(np.asarray(E[k]) - np.asarray(L[k]))) for k in C})
    for k in C:
        if d[2][k] > 1e-7 * (np.max(np.abs(C[k])) + (size if k not in SM else 0)):
            mon.check(2.6 < d[1][k] / d[0][k] < 6 and 2.6 < d[2][k] / d[1][k] < 6, f'second-order:{k}', f'{d[0][k]} {d[1][k]} {d[2][k]}')


def steps(rng, mon, i):
    """Arbitrarily short intervals are evolved too: the change is the beta function times the logarithm."""
    from wilson.run.smeft import rge, beta
    C, size = ew_point(rng)
    a = float(rng.choice([91.1876, 160., 1000., 10.0**rng.uniform(2, 4)]))
    B = beta.beta(C)
    for x in (1e-6, 1e-4, 1e-3, .004, .009, .02):
        x *= float(rng.choice([-1, 1]) * rng.uniform(.5, 1))
        b = a * math.exp(x)
        for acc in ('integrate', 'leadinglog', 'default'):
            E = rge.smeft_evolve_leadinglog(C, a, b) if acc == 'leadinglog' else rge.smeft_evolve(C, a, b, **({} if acc == 'default' else tight(size)))
            for k in C:
                ch = np.asarray(E[k]) - np.asarray(C[k])
                ref = np.asarray(B[k]) / (16 * math.pi**2) * math.log(b / a)
                scale = float(np.max(np.abs(C[k])))
                # second order in the step, solver tolerance and rounding
                top = max(float(np.max(np.abs(ref))), abs(x) * (scale + (0 if k in SM else size)) * .5)
                mon.close(ch, ref, f'step-{acc}:{k}', f'{a:g} x exp({x:g})', rtol=0, atol=abs(x) * top * 3 + 1e-14 * scale + (0 if acc != 'default' else 2e-2 * top))
        mon.case('steps', a, x)


def random_wc(rng, size=None, scale=None, n=None, safe=False):
    from wilson import wcxf
    B = wcxf.Basis['SMEFT', 'Warsaw']
    size = float(10.0**rng.uniform(-10, -8)) if size is None else size
    scale = float(rng.choice([160., 1000., 1e4, 10.0**rng.uniform(2, 4.5)])) if scale is None else scale
    names = [k for k in B.all_wcs]
    if safe:
        names = [k for k in names if k.split('_')[0] not in ('uphi', 'dphi', 'ephi')]
    n = int(rng.choice([0, 1, 2, 5, 50, len(names)])) if n is None else n
    n = min(n, len(names))
    R = eft.sectors_real('SMEFT', 'Warsaw')
    d = {}
    for k in rng.permutation(names)[:n]:
        k = str(k)
        v = rng.normal() * size
        d[k] = float(v) if R[k] else complex(v, rng.normal() * size)
    return wcxf.WC('SMEFT', 'Warsaw', scale, wcxf.WC.dict2values(d)), d, size


def valid(mon, wc, scale, key='output'):
    from wilson import wcxf
    mon.check(type(wc) is wcxf.WC and (wc.eft, wc.basis, wc.scale) == ('SMEFT', 'Warsaw', scale), f'{key}-labels',
              f'{type(wc)} {wc.eft} {wc.basis} {wc.scale} expected {scale}')
    R = eft.sectors_real('SMEFT', 'Warsaw')
    bad = [k for k in wc.dict if k not in R]
    mon.check(not bad, f'{key}-names', f'{bad[:4]}')
    top = max([abs(complex(v)) for v in wc.dict.values()] + [0])
    im = [k for k in wc.dict if R.get(k) and abs(complex(wc.dict[k]).imag) > 1e-9 * top]
    mon.check(not im, f'{key}-real', f'{im[:4]}')
    mon.check(all(np.isfinite(complex(v)) for v in wc.dict.values()), f'{key}-finite', '')
    try:
        wc.validate()
    except Exception as e:
        mon.violate(f'{key}-invalid', repr(e))


def api(rng, mon, i):
    """SMEFT objects: run = evolve the initial point and express it in the default basis; objects are not changed by running."""
    from wilson.run.smeft.classes import SMEFT
    from wilson.run.smeft import rge
    from wilson.util import smeftutil
    wc, d, size = random_wc(rng)
    w0 = copy.deepcopy(wc.values)
    s = SMEFT(wc)
    mon.check(s.scale_in == wc.scale, 'scale_in', f'{s.scale_in}')
    # the initial coefficients are those given
    ref = smeftutil.wcxf2arrays_symmetrized(wc.dict)
    for k in eft.SMEFT_CLASS:
        if k not in SM:
            want = ref[k] if k in ref else 0
            mon.close(np.asarray(s.C_in[k]) - np.asarray(want), np.zeros(np.shape(s.C_in[k])), f'initial:{k}', '', rtol=0, atol=0)
    C0 = copy.deepcopy(s.C_in)
    b = float(wc.scale * 10.0**rng.uniform(-1.2, 1.2))
    for acc in ('integrate', 'leadinglog') if i % 2 else ('leadinglog', 'integrate'):
        out = s.run(b, accuracy=acc) if acc != 'integrate' or rng.random() < .5 else s.run(b)
        valid(mon, out, b)
        E = rge.smeft_evolve(C0, wc.scale, b) if acc == 'integrate' else rge.smeft_evolve_leadinglog(C0, wc.scale, b)
        ref = smeftutil.arrays2wcxf_nonred(SMEFT._rotate_defaultbasis(E)) if hasattr(SMEFT, '_rotate_defaultbasis') else dict(out.dict)
        mon.dclose(dict(out.dict), ref, f'run-{acc}', f'{wc.scale:g}->{b:g}', rtol=1e-12)
        unchanged(mon, s.C_in, C0, 'run')
        again = s.run(b, accuracy=acc)
        mon.check(dict(again.dict) == dict(out.dict), 'run-repeat', acc)
    # the same with parameters given separately instead of extracted
    t = SMEFT(copy.deepcopy(wc), get_smpar=False)
    have = {k for k in C0 if k not in SM}
    mon.check(have <= set(t.C_in), 'nosm:missing', f'{sorted(have - set(t.C_in))}')
    for k in have & set(t.C_in):
        mon.close(t.C_in[k], C0[k], f'nosm:{k}', '', rtol=0)
    t.C_in.update(copy.deepcopy({k: C0[k] for k in SM if k in C0}))
    mon.dclose(dict(t.run(b, accuracy='leadinglog').dict), dict(s.run(b, accuracy='leadinglog').dict), 'nosm:run', f'{wc.scale:g}->{b:g}', rtol=1e-12)
    if not (hasattr(SMEFT, '_rotate_defaultbasis') and hasattr(s, '_set_initial')):      # internal helpers
        mon.case('api', wc.scale, b, len(d))
        return
    # solver options are honoured
    kw = dict(rtol=1e-7, atol=max(1e-6 * size, 1e-15))
    out = s.run(b, **kw)
    ref = smeftutil.arrays2wcxf_nonred(SMEFT._rotate_defaultbasis(rge.smeft_evolve(C0, wc.scale, b, **tight(size))))
    # magnitudes: the phases of lepton fields and of baryon number are pure conventions without Majorana masses
    mon.dclose({k: abs(complex(v)) for k, v in out.dict.items()}, {k: abs(v) for k, v in ref.items()}, 'run-options', f'{wc.scale:g}->{b:g}', rtol=1e-4, atol=1e-5 * size)
    mon.check(wc.values == w0, 'mutates:wc', 'input object changed')
    # identical instances behave identically, with other objects created in between
    SMEFT(random_wc(rng)[0]).run(300., accuracy='leadinglog')
    t = SMEFT(copy.deepcopy(wc))
    for k in C0:
        mon.close(t.C_in[k], C0[k], f'same-initial:{k}', '', rtol=0)
    # parameters supplied by the user instead of extracted
    u = SMEFT(wc=None)
    U = {f: eft.unitary(rng) for f in 'qudle'}
    # (the phases of the lepton fields are only defined by a neutrino mass matrix without degeneracies)
    C0['llphiphi'] = smeftgen.symm('llphiphi', size * (rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))))
    # (coefficients that do not feed quqd1, whose contribution to dphi is not covariant: finding recorded under C13)
    good = SM + 'll ee le phil1 phil3 phie llphiphi eW eB lq1 lq3 ed eu qe ld lu duue G W phiB phiW'.split()
    C0 = {k: v if k in good else 0 * np.asarray(v) for k, v in C0.items()}
    u._set_initial(eft.rotate(C0, U), wc.scale)
    o2 = u.run(b, **tight(size))
    o1 = SMEFT._rotate_defaultbasis(rge.smeft_evolve(C0, wc.scale, b, **tight(size)))
    o1, o2 = smeftutil.arrays2wcxf_nonred(o1), {k: complex(v) for k, v in o2.dict.items()}
    # one overall quark phase (baryon number) is not fixed by masses and mixing: align it on the largest baryon number violating coefficient
    bv = [k for k in o1 if k.split('_')[0] in ('duql', 'qque', 'qqql', 'duue') and k in o2]
    if bv:
        top = max(bv, key=lambda k: abs(o1[k]))
        if o1[top] and o2[top]:
            ph = o1[top] / o2[top]
            ph /= abs(ph)
            o2.update({k: o2[k] * ph for k in bv})
    o1, o2 = ({k: v for k, v in o.items() if k.split('_')[0] not in PHI3} for o in (o1, o2))
    mon.dclose(o2, o1, 'weak-basis-independence', f'{wc.scale:g}->{b:g}', rtol=1e-3, atol=1e-3 * size)
    mon.raises(ValueError, lambda: s.run(b, accuracy='bogus'), 'accuracy-accepted', '')
    mon.raises(ValueError, lambda: s.get_smpar(accuracy='bogus'), 'accuracy-accepted', 'get_smpar')
    mon.raises(Exception, lambda: SMEFT(wc=None).run(b), 'no-initial-accepted', '')
    mon.case('api', wc.scale, b, len(d))


def refuse(rng, mon, i):
    from wilson.run.smeft.classes import SMEFT
    from wilson import wcxf
    for e, b in [k for k in wcxf.Basis.instances]:
        if (e, b) == ('SMEFT', 'Warsaw'):
            continue
        mon.raises(ValueError, lambda: SMEFT(wcxf.WC(e, b, 100., {})), f'accepts:{e}/{b}', '')
        mon.case('refuse', e, b)


def smpars(C):
    """The SM parameters as plain numbers, labelled like coefficients."""
    d = {k: complex(C[k]) for k in ('g', 'gp', 'gs', 'Lambda', 'm2')}
    for k in ('Gu', 'Gd', 'Ge'):
        for (a, b), v in np.ndenumerate(np.asarray(C[k])):
            d[f'{k}_{a + 1}{b + 1}'] = complex(v)
    for k in ('Theta', 'Thetap', 'Thetas'):
        if k in C:
            d[k] = complex(C[k])
    return d


def continuous(rng, mon, i):
    """The interpolated solution passes through the solution at every scale of its range."""
    from wilson.run.smeft.classes import SMEFT
    from wilson.run.smeft import rge
    from wilson.util import smeftutil
    C, size = ew_point(rng)
    a, b = scales(rng, 1.5)
    C0 = copy.deepcopy(C)
    kw = dict(rtol=1e-7, atol=max(1e-6 * size, 1e-15))
    f = rge.smeft_evolve_continuous(C, a, b, **kw)
    unchanged(mon, C, C0, 'continuous')
    pts = [a, b] + [float(math.exp(rng.uniform(math.log(min(a, b)), math.log(max(a, b))))) for _ in range(3)]
    for x in pts:
        got = f(x)
        mon.check(isinstance(got, dict), 'continuous-type', f'{type(got)}')
        full = rge.smeft_evolve(C, a, x, **tight(size))
        ref = smeftutil.arrays2wcxf_nonred(full)
        sm = smpars(full)
        mon.dclose({k: got.get(k, 1e99) for k in sm}, sm, 'continuous-sm', f'{a:g}->{b:g} at {x:g}', rtol=1e-4, atol=1e-5)
        got = {k: v for k, v in got.items() if k not in sm}
        mon.dclose(got, ref, 'continuous', f'{a:g}->{b:g} at {x:g}', rtol=1e-4, atol=1e-5 * size)
    many = f(np.array(pts))
    mon.check(np.shape(many) == (len(pts),), 'continuous-shape', f'{np.shape(many)}')
    for x, m in zip(pts, many):
        mon.check(m == f(x), 'continuous-vector', f'{x}')
    # through the object
    wc, d, size = random_wc(rng, scale=float(rng.choice([500., 3000.])))
    s = SMEFT(wc)
    C0 = copy.deepcopy(s.C_in)
    b = float(wc.scale * 10.0**(rng.choice([-1, 1]) * rng.uniform(.1, 1)))
    sol = s.run_continuous(b)
    unchanged(mon, s.C_in, C0, 'run_continuous')
    mon.check((sol.scale_min, sol.scale_max) == (min(b, wc.scale), max(b, wc.scale)), 'continuous-range', f'{sol.scale_min} {sol.scale_max}')
    for x in (wc.scale, b, math.sqrt(b * wc.scale)):
        ref = smeftutil.arrays2wcxf_nonred(rge.smeft_evolve(C0, wc.scale, x))
        mon.dclose({k: v for k, v in sol.fun(x).items() if k not in sm}, ref, 'run_continuous', f'{wc.scale:g}->{b:g} at {x:g}', rtol=2e-2, atol=2e-2 * size)
    mon.dclose({k: v for k, v in sol.fun(wc.scale).items() if k not in sm}, smeftutil.arrays2wcxf_nonred(C0), 'run_continuous-start', '', rtol=1e-10)
    mon.raises(ValueError, lambda: s.run_continuous(wc.scale), 'continuous-same-scale', '')
    mon.case('continuous', a, b)


def pdg(U):
    """Standard parametrisation with the angles and the phase of the given matrix."""
    t13 = math.asin(min(abs(U[0, 2]), 1.))
    t12, t23 = math.atan2(abs(U[0, 1]), abs(U[0, 0])), math.atan2(abs(U[1, 2]), abs(U[2, 2]))
    e = np.exp(-1j * np.angle(U[0, 2]))         # e^{i delta}
    (s12, c12), (s13, c13), (s23, c23) = ((math.sin(t), math.cos(t)) for t in (t12, t13, t23))
    return np.array([[c12 * c13, s12 * c13, s13 / e],
                     [-s12 * c23 - c12 * s23 * s13 * e, c12 * c23 - s12 * s23 * s13 * e, s23 * c13],
                     [s12 * s23 - c12 * c23 * s13 * e, -c12 * s23 - s12 * c23 * s13 * e, c23 * c13]])


def basis(rng, mon, i):
    """Results are given in the documented basis, whatever the weak basis of the input. Dipole coefficients chosen proportional to the
    running mass matrices (dimension six included) show those matrices in the basis of the result."""
    from wilson.run.smeft.classes import SMEFT
    from wilson.util import smeftutil
    size = float(10.0**rng.uniform(-9, -6.5))
    C, _ = ew_point(rng, size=10.0**rng.uniform(-9, -8), rotated=True)
    H = lambda: rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
    if i % 2:       # any masses and mixings, not only those of nature
        for k in ('Gu', 'Gd', 'Ge'):
            C[k] = eft.unitary(rng) @ np.diag(np.sort(10.0**rng.uniform(-3.5, 0, 3)) * [1, 1.2, 1.5]) @ eft.unitary(rng)
    top = {k: np.linalg.norm(C[g], 2) for k, g in (('uphi', 'Gu'), ('dphi', 'Gd'), ('ephi', 'Ge'))}
    for k in top:
        C[k] = C[k] * 0 + size * H() * top[k] if rng.random() < .8 else 0 * C[k]
    v2 = 246.22**2
    M = {k: C[g] - C[p] * v2 / 2 for k, g, p in (('uW', 'Gu', 'uphi'), ('dW', 'Gd', 'dphi'), ('eW', 'Ge', 'ephi'))}
    C.update({k: m * 1e-8 / np.linalg.norm(m, 2) for k, m in M.items()})
    C['llphiphi'] = -smeftgen.symm('llphiphi', 1e-12 * H())
    a = float(rng.choice([91.1876, 1000.]))
    s = SMEFT(wc=None)
    if not hasattr(s, '_set_initial'):      # an internal helper
        return
    s._set_initial(C, a)
    out = s.run(a) if rng.random() < .5 else s.run(a, accuracy='leadinglog')
    A = smeftutil.wcxf2arrays_symmetrized(out.dict)
    tol = 1e-9
    for k in ('dW', 'eW'):
        m = A[k] / 1e-8
        mon.check(np.abs(m - np.diag(np.diag(m).real)).max() < 1e-12 + 1e-13 * len(m), f'basis:{k}', f'not diagonal and real: {m}')
        x = np.diag(m).real
        mon.check(x[0] > 0 and x[0] < x[1] < x[2], f'basis-order:{k}', f'{x}')
        mon.close(x, np.sort(np.linalg.svd(M[k] / np.linalg.norm(M[k], 2), compute_uv=False)), f'basis-masses:{k}', '', rtol=1e-9)
    m = A['uW'] / 1e-8
    x = np.linalg.norm(m, axis=0)
    mon.check(x[0] < x[1] < x[2], 'basis-order:uW', f'{x}')
    K = (m / x).conj().T
    mon.close(K @ K.conj().T, np.eye(3), 'basis:VS', f'{m}', rtol=0, atol=tol)
    mon.close(K, pdg(K), 'basis:ckm', f'{K}', rtol=0, atol=tol)
    mon.close(x, np.sort(np.linalg.svd(M['uW'] / np.linalg.norm(M['uW'], 2), compute_uv=False)), 'basis-masses:uW', '', rtol=1e-9)
    n = -A['llphiphi'] / np.linalg.norm(A['llphiphi'], 2)
    w, U = np.linalg.eigh(n.conj().T @ n)
    if w[0] > 1e-4 and min(w[1] - w[0], w[2] - w[1]) > 1e-2:
        U = U * np.exp(-.5j * np.angle(np.diag(U.T @ n @ U)))       # U^T M U = positive diagonal
        mon.close(np.abs(U[:, 2].imag[1:]), np.zeros(2), 'basis:pmns-third', f'{U}', rtol=0, atol=2e-5)
        U = U * np.exp(-1j * np.angle([U[0, 0], U[0, 1], U[2, 2]]))
        mon.close(U, pdg(U), 'basis:pmns', f'{U}', rtol=0, atol=2e-5)
        mon.count('pmns')
    mon.case('basis', a, size, i % 2)


FAMILIES = [Family('basis', basis, 24, 400), Family('reference', reference, 16, 300), Family('laws', laws, 8, 200, 600), Family('leadinglog', leadinglog, 12, 200), Family('steps', steps, 12, 200),
            Family('api', api, 16, 300, 300), Family('refuse', refuse, 1, 1), Family('continuous', continuous, 8, 200, 300)]
RULE = ('SMEFT evolution between random scales at physical parameter points with random Wilson coefficients (in random weak bases), compared with an own '
        'Runge-Kutta integration and with composition, reversal, covariance, linearity, leading-log and interpolation laws; a case is a distinct point and pair of scales')
if __name__ == '__main__':
    mon.run('C14', RULE, FAMILIES)
