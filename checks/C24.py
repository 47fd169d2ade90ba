"""The Wilson object: construction, per-instance options and class defaults, parameter merging, hash, views."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft
from mon import Family
import copy, io, json, math, pickle, warnings
import numpy as np

CHOICE = {'smeft_accuracy': ['integrate', 'leadinglog'], 'qed_order': [0, 1], 'qcd_order': [0, 1], 'smeft_matching_order': [0, 1]}
FLOATS = ['smeft_matchingscale', 'mb_matchingscale', 'mc_matchingscale']
SHIPPED = {'smeft_accuracy': 'integrate', 'qed_order': 1, 'qcd_order': 1, 'smeft_matching_order': 0, 'smeft_matchingscale': 91.1876,
           'mb_matchingscale': 4.2, 'mc_matchingscale': 1.3, 'parameters': {}}
SETS = [(e, b) for e, bs in (('SMEFT', ('Warsaw', 'Warsaw up', 'Warsaw mass')),
                             ('WET', ('flavio', 'JMS', 'Bern', 'EOS')), ('WET-4', ('flavio', 'JMS', 'Bern')),
                             ('WET-3', ('flavio', 'JMS', 'Bern')))
        for b in bs]


class Sandbox:
    """Class defaults are global state: save and restore them."""

    def __enter__(self):
        from wilson import Wilson
        self.saved = copy.deepcopy(Wilson._default_options)
        return self

    def __exit__(self, *a):
        from wilson import Wilson
        Wilson._default_options.clear()
        Wilson._default_options.update(self.saved)


def coeffs(rng, e, b, n=None):
    real = eft.sectors_real(e, b) if e != 'SMEFT' else {}
    from wilson import wcxf
    keys = sorted(wcxf.Basis[e, b].all_wcs)
    r = {k: all(s.get(k, {}) is None or not s[k].get('real', False) if k in s else True for s in wcxf.Basis[e, b].sectors.values()) for k in keys}
    n = n or int(rng.integers(1, 6))
    out = {}
    for j in rng.choice(len(keys), size=n, replace=False):
        k = keys[j]
        z = gen.cplx(rng) * 10**rng.uniform(-12, -4)
        out[k] = gen.part(z, not r[k])
    return out


def valid(rng):
    r = int(rng.integers(10))
    if r < 4:
        k = list(CHOICE)[r]
        v = CHOICE[k][int(rng.integers(2))]
        return k, v, v
    if r < 7:
        k = FLOATS[r - 4]
        x = float(10.0**rng.uniform(0, 3))
        v = [x, int(x) + 1, str(x), np.float64(x), f'{x:.3e}'][int(rng.integers(5))]
        return k, v, float(v)
    names = ['alpha_s', 'm_b', 'm_h', 'GF', 'Vcb', 'gamma', 'my_own', 'delta', 'loop_order']
    d = {}
    for n in rng.choice(names, size=int(rng.integers(0, 4)), replace=False):
        x = float(rng.uniform(.1, 2))
        d[str(n)] = [x, int(x) + 1, str(x), np.float64(x)][int(rng.integers(4))]
    want = {('gamma' if k == 'delta' else k): float(v) for k, v in d.items() if not (k == 'gamma' and 'delta' in d)}
    return 'parameters', d, want


def invalid(rng):
    r = int(rng.integers(12))
    return [('smeft_accuracy', 'exact'), ('qed_order', 2), ('qcd_order', -1), ('qcd_order', 'one'), ('smeft_matching_order', 2),
            ('smeft_matchingscale', 'high'), ('mb_matchingscale', None), ('mc_matchingscale', [1.]), ('no_such_option', 1),
            ('parameters', {'m_b': 'heavy'}), ('parameters', {'m_b': None}), ('Parameters', {})][r]


def setopt(mon, f, k, v):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        f(k, v)
    future = [x for x in w if issubclass(x.category, FutureWarning)]
    mon.check(bool(future) == (k == 'parameters' and 'delta' in v), 'delta-warning', f'{k}={v!r}: {len(w)} warnings')


def options(rng, mon, i):
    """Random histories over several instances and the class defaults against a dictionary model."""
    from wilson import Wilson, parameters
    import voluptuous as vol
    with Sandbox():
        defaults = copy.deepcopy(SHIPPED)
        mon.eq({k: Wilson._default_options.get(k) for k in SHIPPED}, SHIPPED, 'shipped-defaults')
        p0 = dict(parameters.p)
        inst = []
        trace = []
        given = []
        for step in range(int(rng.integers(8, 30))):
            r = int(rng.integers(9))
            if r == 0 or not inst:
                e, b = SETS[int(rng.integers(len(SETS)))]
                if len(inst) < 5:
                    inst.append((Wilson(coeffs(rng, e, b), 1000. if e == 'SMEFT' else 91., e, b), copy.deepcopy(defaults)))
                    trace.append('new')
            elif r in (1, 2, 3):
                j = int(rng.integers(len(inst)))
                k, v, want = valid(rng)
                v0 = copy.deepcopy(v)
                setopt(mon, inst[j][0].set_option, k, v)
                mon.eq(v, v0, 'value-mutated', k)
                inst[j][1][k] = want
                given.append(v)
                trace.append(f'set {j} {k}={v!r}')
            elif r == 4:
                k, v, want = valid(rng)
                v0 = copy.deepcopy(v)
                setopt(mon, Wilson.set_default_option, k, v)
                mon.eq(v, v0, 'value-mutated', k)
                defaults[k] = want
                given.append(v)
                trace.append(f'default {k}={v!r}')
            elif r == 5:
                k, v = invalid(rng)
                f = [inst[int(rng.integers(len(inst)))][0].set_option, Wilson.set_default_option][int(rng.integers(2))]
                mon.raises((vol.Invalid, TypeError), lambda: f(k, v), f'accepted:{k}', f'{v!r}')
                trace.append(f'bad {k}={v!r}')
            elif r == 6:
                x, name = inst[int(rng.integers(len(inst)))][0], ['nope', 'delta', ''][int(rng.integers(3))]
                mon.raises(KeyError, lambda: x.get_option(name), 'get-unknown', name)
                trace.append('get?')
            elif r == 7 and given:
                v = given[int(rng.integers(len(given)))]
                if isinstance(v, dict):       # the caller goes on using his dictionary
                    v['m_c'] = 99.
                    v.pop('m_b', None)
                    trace.append('mutate')
            else:
                trace.append('look')
            # observe everything after each operation
            for n, (w, model) in enumerate(inst):
                got = {k: w.get_option(k) for k in model}
                mon.eq(got, model, 'option', f'instance {n} after {trace[-6:]}')
                mon.check(all(type(got[k]) is float for k in FLOATS) , 'coerce', f'{got}')
                want = dict(p0)
                want.update(model['parameters'])
                mon.eq(w.parameters, want, 'parameters', f'instance {n} after {trace[-6:]}')
                want['loop_order'] = model['smeft_matching_order']
                mon.eq(w.matching_parameters, want, 'matching-parameters', f'instance {n} after {trace[-6:]}')
                w.parameters['m_b'] = -1        # a copy for the caller
                w.matching_parameters['m_b'] = -1
            mon.eq(dict(parameters.p), p0, 'global-parameters', f'{trace[-3:]}')
        mon.count('operations', len(trace))
        mon.case('options', tuple(trace))


def hashes(rng, mon, i):
    """The hash is stable; every option or coefficient change is visible; setting back restores."""
    from wilson import Wilson
    with Sandbox(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        e, b = SETS[i % len(SETS)]
        d = coeffs(rng, e, b)
        sc = 91. if e != 'SMEFT' else 1000.
        import random
        reseed = (lambda: random.seed(5)) if i % 2 else (lambda: None)     # the caller's business
        reseed()
        w = Wilson(d, sc, e, b)
        w2 = Wilson(d, sc, e, b)
        h0, h2 = hash(w), hash(w2)
        mon.eq(hash(w), h0, 'hash:stable', f'{e} {b}')
        other = dict(d)
        k = sorted(other)[0]
        other[k] = other[k] * 2
        reseed()
        mon.check(hash(Wilson(other, sc, e, b)) != h0, 'hash:value', k)
        reseed()
        mon.check(hash(Wilson(d, sc * 2, e, b)) != h0, 'hash:scale', k)
        seen = {}
        ref = {k: w.get_option(k) for k in SHIPPED}

        def state(x):
            return tuple(sorted((k, tuple(sorted(v.items())) if isinstance(v, dict) else v) for k, v in ((k, x.get_option(k)) for k in SHIPPED)))
        seen = {(0, state(w)): h0, (1, state(w2)): h2}
        for _ in range(14):
            k, v, _w = valid(rng)
            j = int(rng.integers(2))
            x = [w, w2][j]
            x.set_option(k, v)
            s, h = (j, state(x)), hash(x)
            mon.event()
            if s in seen:
                mon.check(seen[s] == h, 'hash:unstable', f'{k}={v!r}')
            else:
                mon.check(h not in seen.values(), 'hash:insensitive', f'{k}={v!r}')
                seen[s] = h
        for x, h in ((w, h0), (w2, h2)):
            for k, v in ref.items():
                x.set_option(k, v)
            mon.eq(hash(x), h, 'hash:restored')
        # running must not be visible in the hash
        if e != 'SMEFT' and b != 'EOS':
            h = hash(w)
            w.match_run(50., e, b)
            w.clear_cache()
            mon.eq(hash(w), h, 'hash:after-run')
        mon.case('hash', e, b, tuple(seen))


def construct(rng, mon, i):
    from wilson import Wilson, wcxf
    e, b = SETS[i % len(SETS)]
    d = coeffs(rng, e, b, n=int(rng.integers(0, 8)))
    sc = [91.1876, 1000, np.float64(5.), 1e4, float(10.0**rng.uniform(0, 5))][int(rng.integers(5))]
    d0 = copy.deepcopy(d)
    w = Wilson(wcdict=d, scale=sc, eft=e, basis=b)
    mon.eq(d, d0, 'dict-mutated')
    mon.eq((w.wc.eft, w.wc.basis, w.wc.scale), (e, b, sc), 'header')
    mon.eq({k: complex(v) for k, v in w.wc.dict.items()}, {k: complex(v) for k, v in d.items() if v != 0}, 'values')
    d.update({k: 77. for k in d})
    mon.eq({k: complex(v) for k, v in w.wc.dict.items()}, {k: complex(v) for k, v in d0.items() if v != 0}, 'aliases-input')
    # identical through every door
    doors = {'from_wc': Wilson.from_wc(w.wc)}
    for fmt in ('json', 'yaml'):
        s = w.wc.dump(fmt=fmt)
        doors[fmt + ' text'] = Wilson.load_wc(s)
        doors[fmt + ' stream'] = Wilson.load_wc(io.StringIO(s))
    for n, x in doors.items():
        mon.eq((x.wc.eft, x.wc.basis, float(x.wc.scale)), (e, b, float(sc)), 'door:header', n)
        mon.eq({k: complex(v) for k, v in x.wc.dict.items()}, {k: complex(v) for k, v in d0.items() if v != 0}, 'door:values', n)
        mon.eq({k: x.get_option(k) for k in SHIPPED}, SHIPPED, 'door:options', n)
    # a Wilson object is of the class it was asked of and is not connected with what it was made from
    sub = type('Sub', (Wilson,), {})
    src = wcxf.WC(e, b, float(sc), wcxf.WC.dict2values(d0))
    made = {'from_wc': sub.from_wc(src), 'load_wc': sub.load_wc(src.dump(fmt='json'))}
    for n, x in made.items():
        mon.check(type(x) is sub, 'door:class', f'{n}: {type(x).__name__}')
    x = made['from_wc']
    src.values.clear()
    src.scale = 3.
    mon.eq((x.wc.eft, x.wc.basis, float(x.wc.scale)), (e, b, float(sc)), 'door:aliases-header')
    mon.eq({k: complex(v) for k, v in x.wc.dict.items()}, {k: complex(v) for k, v in d0.items() if v != 0}, 'door:aliases-values')
    # refused inputs
    bad = dict(d0)
    bad['no_such_coefficient'] = 1.
    mon.raises((AssertionError, ValueError), lambda: Wilson(bad, sc, e, b), 'accepts-unknown-coefficient')
    other = [x for x in SETS if set(wcxf.Basis[x].all_wcs) - set(wcxf.Basis[e, b].all_wcs)]
    o = other[int(rng.integers(len(other)))]
    foreign = sorted(set(wcxf.Basis[o].all_wcs) - set(wcxf.Basis[e, b].all_wcs))
    mon.raises((AssertionError, ValueError), lambda: Wilson({foreign[int(rng.integers(len(foreign)))]: 1e-6}, sc, e, b), 'accepts-foreign-coefficient')
    mon.raises((AssertionError, ValueError, KeyError), lambda: Wilson(d0, sc, e, 'no such basis'), 'accepts-unknown-basis')
    mon.raises((AssertionError, ValueError, KeyError), lambda: Wilson(d0, sc, 'WET-17', b), 'accepts-unknown-eft')
    # html view: every coefficient is displayed
    import html as htmllib
    html = htmllib.unescape(w._repr_html_())
    mon.check(isinstance(html, str) and all(k in html for k in w.wc.dict), 'html', f'{e} {b}')
    mon.check(str(e) in html and b in html, 'html-header', f'{e} {b}')
    # instances are independent
    w1, w2 = Wilson(d0, sc, e, b), Wilson(d0, sc, e, b)
    w1.set_option('parameters', {'m_b': 4.})
    w1.set_option('qed_order', 0)
    mon.eq({k: w2.get_option(k) for k in SHIPPED}, SHIPPED, 'instances-share')
    mon.eq({k: Wilson(d0, sc, e, b).get_option(k) for k in SHIPPED}, SHIPPED, 'class-shares')
    mon.case('construct', e, b, len(d0), float(sc), tuple(sorted(d0)))


def effect(rng, mon, i):
    """What the options mean: an object whose options were set (in any history) behaves like the pieces called with those options."""
    from wilson import Wilson
    with Sandbox(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        e, b = [('WET', 'JMS'), ('WET', 'flavio'), ('WET-4', 'flavio'), ('WET-3', 'JMS'), ('SMEFT', 'Warsaw')][i % 5]
        target = {'WET': ('WET', 'JMS'), 'WET-4': ('WET-3', 'flavio'), 'WET-3': ('WET-3', 'flavio'), 'SMEFT': ('WET', 'JMS')}[e]
        d = coeffs(rng, e, b, n=4)
        sc = {'WET': 91., 'WET-4': 4., 'WET-3': 2., 'SMEFT': 1000.}[e]
        out = {'WET': 10., 'WET-4': 1., 'WET-3': 1.2, 'SMEFT': 50.}[e]
        opts = {'qed_order': int(rng.integers(2)), 'qcd_order': int(rng.integers(2)), 'mc_matchingscale': float(rng.uniform(1.2, 1.6)),
                'smeft_matchingscale': float(rng.uniform(80, 170)), 'smeft_accuracy': 'leadinglog',
                'parameters': {'alpha_s': float(rng.uniform(.11, .125)), 'm_b': float(rng.uniform(4, 4.4))}}
        a = Wilson(d, sc, e, b)                       # options through instance, with detours and earlier requests
        for k in rng.permutation(list(opts)):
            a.set_option(k, SHIPPED[k])
            if rng.random() < .15 and e != 'SMEFT':
                a.match_run(out, *target)
            a.set_option(k, opts[k])
        if i % 2:      # a request, and then the parameters changed by way of the dictionary in use
            a.set_option('parameters', dict(opts['parameters'], alpha_s=.117, m_b=4.18))
            a.match_run(out, *target)
            p = a.get_option('parameters')
            p.update(opts['parameters'])
            a.set_option('parameters', p)
        for k, v in opts.items():
            Wilson.set_default_option(k, v)
        c = Wilson(d, sc, e, b)                       # through class defaults
        x, y = (dict(z.match_run(out, *target).dict) for z in (a, c))
        mon.event(len(x))
        mon.eq(x, y, 'instance-vs-default', f'{e} {b} {opts}')
        for k in opts:
            c.set_option(k, SHIPPED[k])
        with Sandbox():
            for k, v in SHIPPED.items():
                Wilson.set_default_option(k, v)
            f = Wilson(d, sc, e, b)
            f.set_option('smeft_accuracy', 'leadinglog')
            c.set_option('smeft_accuracy', 'leadinglog')
            mon.eq(dict(c.match_run(out, *target).dict), dict(f.match_run(out, *target).dict), 'reset', f'{e} {b}')
        mon.case('effect', e, b, tuple(sorted(d)), str(opts))


def constants(rng, mon, i):
    """The default parameters are the published values (PDG), and the Z-scale set of SMEFT running is the same physics."""
    from wilson import parameters
    from wilson.run.smeft import smpar
    from wilson.util import qcd
    p, z = parameters.p, smpar.p
    pdg = dict(m_W=80.385, m_Z=91.1876, m_h=125., GF=1.1663787e-5, alpha_e=1 / 127.9, alpha_s=.1185, Vus=.2243, Vub=3.62e-3, Vcb=4.221e-2, gamma=1.27,
               m_b=4.18, m_s=.095, m_c=1.28, m_u=.0022, m_d=.0047, m_e=.0005109989461, m_mu=.1056583745, m_tau=1.77686)
    mon.eq({k: p.get(k) for k in pdg}, pdg, 'default-parameters', '')
    for k in ('GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb', 'gamma'):
        mon.eq(z[k], p[k], 'z-scale:' + k, '')
    for k in ('m_e', 'm_mu', 'm_tau'):
        mon.check(abs(z[k] / p[k] - 1) < 1e-3, 'z-scale:' + k, f'{z[k]} {p[k]}')
    # quark masses: the same, run to the Z mass (small electroweak corrections)
    run = {'m_b': qcd.m_b(p['m_b'], 91.1876, 5), 'm_c': qcd.m_c(p['m_c'], 91.1876, 5), **{k: qcd.m_s(p[k], 91.1876, 5) for k in ('m_s', 'm_u', 'm_d')}}
    for k, v in run.items():
        mon.check(abs(z[k] / v - 1) < .05, 'z-scale:' + k, f'{z[k]} {v}')
    for k, v in {'m_t': 169.0, 'm_W': 80.20, 'm_Z': 91.46, 'm_h': 130.6, 'm_u': .00127, 'm_c': .635, 'm_d': .0027, 'm_s': .0551, 'm_b': 2.85}.items():
        mon.check(abs(z[k] / v - 1) < 1e-3, 'z-scale:' + k, f'{z[k]}, recorded {v}')
    mon.case('constants')


if __name__ == '__main__':
    mon.run('C24', 'runtime monitoring: dictionary-model oracle over option and construction histories', [
        Family('options', options, 120, 1500, 60),
        Family('hash', hashes, 60, 600, 60),
        Family('construct', construct, 90, 900, 60),
        Family('constants', constants, 1, 1),
        Family('effect', effect, 10, 120, 120),
    ])
