"""Translations out of JMS into EOS, formflavor and FlavorKit, and from FlavorKit."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import gen, mon, eft, lagr, wetpar, golden
from mon import Family
import copy, re
import numpy as np

E = 'WET'
PAIRS = [('JMS', 'EOS'), ('JMS', 'formflavor'), ('JMS', 'FlavorKit'), ('FlavorKit', 'JMS'), ('FlavorKit', 'flavio')]
REAL_EOS = {f'b->s::c{i}' for i in range(1, 7)} | {'b->s::c8', "b->s::c8'"}
DIAG = re.compile(r'C[AG]R_(uu|dd)$')
_c = {}


def theory(b, p):
    if b == 'JMS':
        if b not in _c:
            t = lagr.jms(eft.sectors_real(E, b))
            _c[b] = t, lagr.Solver(t)
        return _c[b]
    t = {'EOS': lagr.eos, 'formflavor': lagr.formflavor, 'FlavorKit': lambda q: lagr.flavorkit(sorted(eft.sectors_real(E, 'FlavorKit')), q),
         'flavio': lambda q: lagr.flavio(eft.sectors_real(E, 'flavio'), q)}[b](p)
    return t, lagr.Solver(t)


def names(t):
    return sorted(k for k in t if k != '__parts__')


def split_complex(k):
    return k.startswith('b->s') and k not in REAL_EOS


def wire(b, C):
    """Names under which the translator reports coefficients."""
    if b == 'formflavor':          # flavour-diagonal dipoles: both chiralities of a hermitian operator are listed
        return {**C, **{k.replace('R_', 'L_'): v.conjugate() for k, v in C.items() if DIAG.match(k)}}
    if b != 'EOS':
        return dict(C)
    out = {}
    for k, v in C.items():
        if split_complex(k):
            h, n = k.split('::')
            out[f'{h}::Re{{{n}}}'], out[f'{h}::Im{{{n}}}'] = v.real, v.imag
        else:
            out[k] = v
    return out


def wc(b, d, scale):
    from wilson import wcxf
    return wcxf.WC(E, b, scale, wcxf.WC.dict2values(d))


def size(rng):
    return float(10.0**rng.uniform(-12, 0))


def pick(rng, keys):
    keys = sorted(keys)
    if rng.random() < .3:
        return keys
    n = int(rng.choice([1, 2, 5, 20, 80]))
    return [keys[j] for j in sorted(rng.choice(len(keys), size=min(n, len(keys)), replace=False))]


def target(rng, mon, b):
    """Random wanted output, JMS input describing the same Lagrangian plus coefficients it cannot depend on."""
    user, scale, p = wetpar.draw(rng)
    T, S = theory(b, p)
    J, SJ = theory('JMS', p)
    rj = eft.sectors_real(E, 'JMS')
    s = size(rng)
    want = {}
    for k in pick(rng, names(T)):
        if re.match(r'C[AG]L_(uu|dd)$', k):
            continue
        z = gen.cplx(rng) * s * 10**rng.uniform(-2, 2)
        want[k] = z.real if b == 'EOS' and k in REAL_EOS else z
    d, bad = SJ.solve(lagr.lagrangian(T, want))
    assert not bad, bad
    d = {k: (v.real if rj[k] else v) for k, v in d.items() if v != 0}
    big = {}
    for k, v in d.items():
        g = SJ.component(SJ.cls[k][0])
        big[g] = max(big.get(g, 0), abs(v))
    d = {k: v for k, v in d.items() if abs(v) > 1e-13 * big[SJ.component(SJ.cls[k][0])]}
    n = 0
    for k in sorted(rj):
        if (k not in J or all(S.component(c) is None for c in SJ.cls[k])) and rng.random() < .1:
            assert k not in d
            z = gen.cplx(rng) * s
            d[k] = gen.part(z, rj[k])
            n += 1
    return user, scale, T, S, want, d, n


def outof(b):
    def f(rng, mon, i):
        user, scale, T, S, want, d, n = target(rng, mon, b)
        w = wc('JMS', d, scale)
        got = dict(w.translate(b, parameters=user).dict)
        ref = wire(b, want)
        comp = {}
        for k, v in want.items():
            g = S.component(S.cls[k][0])
            comp[g] = max(comp.get(g, 0), abs(v))
        known = set(wire(b, {k: 1j for k in names(T)}))
        for k in sorted(set(got) | set(ref)):
            if not mon.check(k in known, f'{b}:unknown', f'{k} = {got.get(k)}'):
                continue
            x, y = got.get(k, 0), ref.get(k, 0)
            c = re.sub(r'(Re|Im)\{(.*)\}', r'\2', k) if b == 'EOS' else k
            mon.check(abs(x - y) <= wetpar.RTOL * (abs(y) + 1e-2 * comp.get(S.component(S.cls[c][0]), 0)), f'{b}:value', f'{k}: {x} expected {y}; {user}, scale {scale}, {n} unrelated')
            if b == 'EOS' and ('{' in k or k in REAL_EOS):
                mon.check(isinstance(x, (int, float)) or np.isrealobj(x) and np.ndim(x) == 0, 'EOS:real', f'{k}: {x!r}')
        mon.event(n, 'coefficients without counterpart')
        mon.event(len(ref), 'expected outputs')
        mon.case(b, tuple(sorted(want))[:60], len(want), n, str(user), scale)
    f.__name__ = b.lower()
    return f


def kit_out(rng, mon, i):
    """JMS -> FlavorKit: the function of the fields is kept in every component FlavorKit can describe."""
    user, scale, p = wetpar.draw(rng)
    T, S = theory('FlavorKit', p)
    J, SJ = theory('JMS', p)
    rj = eft.sectors_real(E, 'JMS')
    s = size(rng)
    d = {}
    for k in pick(rng, rj):
        z = gen.cplx(rng) * s * 10**rng.uniform(-2, 2)
        d[k] = gen.part(z, rj[k])
    ref, skip = {}, set()
    groups = {}
    for k in d:
        if k in J:
            groups.setdefault(SJ.component(SJ.cls[k][0]), {})[k] = d[k]
    for g, sub in groups.items():
        L = lagr.lagrangian(J, sub)
        r, bad = S.solve(L)
        if bad:
            comps = {S.component(c) for c in bad} | {S.component(c) for c in L}
            skip |= comps - {None}
            continue
        for k, v in r.items():
            ref[k] = ref.get(k, 0) + v
    got = dict(wc('JMS', d, scale).translate('FlavorKit', parameters=user).dict)
    comp = {}
    for k, v in ref.items():
        g = S.component(S.cls[k][0])
        comp[g] = max(comp.get(g, 0), abs(v))
    n = 0
    for k in sorted(set(got) | set(ref)):
        if not mon.check(k in T, 'kitout:unknown', k):
            continue
        g = S.component(S.cls[k][0])
        if g in skip:
            mon.count('partly expressible')
            continue
        n += 1
        x, y = got.get(k, 0), ref.get(k, 0)
        mon.check(abs(x - y) <= wetpar.RTOL * (abs(y) + 1e-2 * comp.get(g, 0)), 'kitout:value', f'{k}: {x} expected {y}; {user}, scale {scale}')
    mon.event(n, 'coefficients')
    mon.case('kit_out', tuple(sorted(d))[:60], len(d), str(user), scale)


def kit_in(rng, mon, i):
    """FlavorKit -> JMS and flavio describe the same function of the fields."""
    user, scale, p = wetpar.draw(rng)
    T, S = theory('FlavorKit', p)
    s = size(rng)
    d = {k: gen.cplx(rng) * s * 10**rng.uniform(-2, 2) for k in pick(rng, names(T))}
    w = wc('FlavorKit', d, scale)
    L1 = lagr.lagrangian(T, d)
    J, SJ = theory('JMS', p)
    r = dict(w.translate('JMS', parameters=user).dict)
    if not mon.check(all(k in J for k in r), 'kitin:unknown', str([k for k in r if k not in J][:5])):
        return
    L2 = lagr.lagrangian(J, r)
    top = max([np.max(abs(v)) for v in L1.values()] + [0])
    for c in set(L1) | set(L2):
        x, y = L1.get(c, 0), L2.get(c, 0)
        ref = max(np.max(np.abs(x)), 1e-10 * top if c not in L1 else 0)
        mon.check(np.max(np.abs(x - y)) <= wetpar.RTOL * ref, 'kitin:JMS', f'fields {c}: off by {np.max(np.abs(x - y))} of {np.max(np.abs(x))}; {user}, scale {scale}')
    F, SF = theory('flavio', p)
    q = dict(w.translate('flavio', parameters=user).dict)
    if not mon.check(all(k in F for k in q), 'kitin:unknown', str([k for k in q if k not in F][:5])):
        return
    ref, skip = {}, set()
    groups = {}
    for k in d:
        groups.setdefault(S.component(S.cls[k][0]), {})[k] = d[k]
    for g, sub in groups.items():
        L = lagr.lagrangian(T, sub)
        x, bad = SF.solve(L)
        if bad:
            skip |= {SF.component(c) for c in L} - {None}
            continue
        for k, v in x.items():
            ref[k] = ref.get(k, 0) + v
    comp = {}
    for k, v in ref.items():
        g = SF.component(SF.cls[k][0])
        comp[g] = max(comp.get(g, 0), abs(v))
    for k in sorted(set(q) | set(ref)):
        g = SF.component(SF.cls[k][0])
        if g in skip:
            mon.count('partly expressible')
            continue
        x, y = q.get(k, 0), ref.get(k, 0)
        mon.check(abs(x - y) <= wetpar.RTOL * (abs(y) + 1e-2 * comp.get(g, 0)), 'kitin:flavio', f'{k}: {x} expected {y}; {user}, scale {scale}')
    mon.event(len(L1), 'field products')
    mon.case('kit_in', tuple(sorted(d))[:60], len(d), str(user), scale)


def interface(rng, mon, i):
    """Result object, inputs untouched, only names of the basis, superposition, refused requests."""
    a, b = PAIRS[i % len(PAIRS)]
    user, scale, p = wetpar.draw(rng)
    real = eft.sectors_real(E, a)
    rb = eft.sectors_real(E, b)
    s = size(rng)
    d = {}
    for k in pick(rng, real):
        z = gen.cplx(rng) * s * 10**rng.uniform(-2, 2)
        d[k] = gen.part(z, real[k])
    w = wc(a, d, scale)
    before = (copy.deepcopy(w.values), dict(w.dict), copy.deepcopy(user))
    r = w.translate(b, parameters=user)
    mon.check(before == (w.values, dict(w.dict), user), 'mutates', f'{a}->{b}')
    mon.eq((r.eft, r.basis, r.scale), (E, b, scale), 'header')
    full = dict(r.dict)
    mon.eq(dict(wc(a, d, scale).translate(b, parameters=copy.deepcopy(user)).dict), full, 'repeatable', f'{a}->{b}')
    big = max([abs(v) for v in full.values()] + [1e-300])
    for k, v in full.items():
        if not mon.check(k in rb, 'unknown-key', f'{a}->{b}: {k}'):
            break
        mon.check(np.isfinite(v) and np.ndim(v) == 0 and not (rb[k] and abs(complex(v).imag) > 1e-13 * big), 'number', f'{a}->{b} {k}: {v!r}')
    d1 = {k: v for j, (k, v) in enumerate(sorted(d.items())) if j % 2}
    d2 = {k: 2. * v for j, (k, v) in enumerate(sorted(d.items())) if not j % 2}
    r1, r2 = (wc(a, x, scale).translate(b, parameters=user).dict for x in (d1, d2))
    for k in set(full) | set(r1) | set(r2):
        x, y = r1.get(k, 0) + r2.get(k, 0) / 2, full.get(k, 0)
        mon.check(abs(x - y) <= 1e-10 * abs(y) + 1e-14 * big, 'linear', f'{a}->{b} {k}: {x} vs {y}')
    if b == 'JMS':
        back = dict(r.translate('FlavorKit', parameters=user).dict)
        top = max(abs(v) for v in d.values())
        # dipoles and four-fermion operators with identical fermions have more than one name in FlavorKit
        again = dict(wc('FlavorKit', back, scale).translate('JMS', parameters=user).dict)
        J, SJ = theory('JMS', p)
        T, S = theory('FlavorKit', p)
        L1, L2 = lagr.lagrangian(J, full), lagr.lagrangian(J, again)
        for c in L1:
            if S.component(c) is not None and S.rank(S.component(c))[0] == 2 * len(S.groups[S.component(c)]):
                mon.check(np.max(np.abs(L1[c] - L2.get(c, 0))) <= 1e-9 * np.max(np.abs(L1[c])), 'roundtrip', f'{c}')
    mon.eq(w.translate(a, parameters=user) is w, True, 'self')
    if b in ('EOS', 'formflavor'):
        mon.raises(ValueError, lambda: wc(b, {}, scale).translate('JMS'), 'one-way')
    mon.case('interface', a, b, tuple(sorted(d))[:40], len(d), str(user))


def recorded(rng, mon, i):
    """b -> s q q in EOS: a projection for operators outside the six standard ones; recorded on the pinned tree."""
    G = golden.load('eos')
    keys, outs, M = [str(x) for x in G['keys']], [str(x) for x in G['outs']], G['matrix']
    scale = float(G['scale'])
    d, ref = {}, np.zeros(len(outs), complex)
    real = eft.sectors_real(E, 'JMS')
    use = range(len(keys)) if i == 0 else sorted(rng.choice(len(keys), size=min(len(keys), int(rng.choice([1, 3, 20]))), replace=False))
    for j in use:
        z = gen.cplx(rng)
        if real[keys[j]]:
            z = z.real
        d[keys[j]] = z
        z = complex(z)
        ref += M[j, 0] * z.real + M[j, 1] * z.imag
    got = wc('JMS', d, scale).translate('EOS').dict
    for k, y in zip(outs, ref):
        mon.check(abs(got.get(k, 0) - y) <= 1e-6 * max(abs(ref).max(), 1e-12), 'recorded:EOS', f'{k}: {got.get(k, 0)} recorded {y}; {sorted(d)[:5]}')
    mon.case('recorded', tuple(sorted(d)))


FAMILIES = [Family('eos', outof('EOS'), 60, 3000), Family('formflavor', outof('formflavor'), 60, 3000), Family('kit_out', kit_out, 60, 2000), Family('kit_in', kit_in, 60, 2000),
            Family('interface', interface, 80, 2000), Family('recorded', recorded, 40, 800)]
RULE = ('operators of every basis evaluated as functions of anticommuting fields; wanted outputs turned into JMS inputs that describe the same Lagrangian, plus unrelated coefficients; '
        'a case is a distinct translation, coefficient set, parameters and scale')
if __name__ == '__main__':
    mon.run('C21', RULE, FAMILIES)
