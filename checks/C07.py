"""Translation and matching dispatch: recorded calls of user functions against a call model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen
from mon import Family
from C03 import _Saved
import copy
import numpy as np


def outdict(rng):
    """What a translation function may return, and the coefficients to be kept."""
    d = {}
    for _ in range(int(rng.choice([0, 1, 3, 8]))):
        x, y = float(gen.number(rng)), float(gen.number(rng))
        r = int(rng.integers(10))
        d[gen.name(rng)] = [0, 0., 0j, -0., x, complex(x, y), np.complex128(complex(x, y)), np.float64(x),
                            complex(0, y), np.float64(0)][r]
    return d


def dispatch(rng, mon, i):
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher):
        wcxf.Translator.clear_all()
        wcxf.Matcher.clear_all()
        efts, bases = ['E0', 'E1', 'E2'], ['B0', 'B1', 'B2']
        log = []
        ret = {}

        def make(tag, with_sectors):
            if with_sectors:
                def f(C, scale, parameters, sectors=None):
                    log.append((tag, C, scale, parameters, sectors))
                    return dict(ret[tag])
            else:
                def f(C, scale, parameters):
                    log.append((tag, C, scale, parameters, None))
                    return dict(ret[tag])
            return f
        tr, ma, sect = {}, {}, {}
        for e in efts:
            for a in bases:
                for b in bases:
                    if rng.random() < .5:
                        k = (e, a, b)
                        ret[('t',) + k] = outdict(rng)
                        sect[k] = bool(rng.random() < .5)
                        f = make(('t',) + k, sect[k])
                        if rng.random() < .5:
                            wcxf.Translator(*k, f)
                        else:
                            wcxf.translator(*k)(f)
                        tr[k] = f
                    for e2 in efts:
                        if rng.random() < .25:
                            k = (e, a, e2, b)
                            ret[('m',) + k] = outdict(rng)
                            f = make(('m',) + k, False)
                            if rng.random() < .5:
                                wcxf.Matcher(*k, f)
                            else:
                                wcxf.matcher(*k)(f)
                            ma[k] = f
        for _ in range(30):
            vals = {gen.name(rng): gen.value(rng)[0] for _ in range(int(rng.integers(0, 6)))}
            e, a = str(rng.choice(efts)), str(rng.choice(bases))
            scale = float(rng.uniform(1, 1e4))
            w = wcxf.WC(e, a, scale, copy.deepcopy(vals), metadata={'m': 1})
            if rng.random() < .5:
                w.dict
            params = [None, {}, {'p': float(rng.normal()), 'q': {'deep': 1}}][int(rng.choice(3, p=[.3, .2, .5]))]
            pcopy = copy.deepcopy(params)
            del log[:]
            if rng.random() < .1:
                x = ['B', 'b0', '', None, 'B0 ', ('B0',)][int(rng.integers(6))]
                for f in (lambda: w.translate(x), lambda: w.match(e, x), lambda: w.match(str(rng.choice(efts)), x), lambda: w.match(x, a)):
                    mon.raises(ValueError, f, 'unknown-name', f'{(e, a)} -> {x!r}')
                mon.check(not log, 'unknown-name-calls', f'{log}')
            if rng.random() < .5:
                b = str(rng.choice(bases))
                secs = None if rng.random() < .6 else [['s1', 's2'], ('s2',), [], (), {'s1'}, 's1', frozenset()][int(rng.integers(7))]
                k = (e, a, b)
                if b == a:
                    r = w.translate(b) if params is None else w.translate(b, parameters=params)
                    mon.check(r is w and not log, 'translate-same-basis', f'{k}: {r!r}, calls {log}')
                    mon.count('identity')
                    continue
                if k not in tr:
                    mon.raises(ValueError, lambda: w.translate(b, params), 'translate-unknown', str(k))
                    mon.check(not log, 'translate-unknown-calls', f'{k} {log}')
                    continue
                if secs is not None and not sect[k]:
                    continue
                args = {}
                if params is not None or rng.random() < .5:
                    args['parameters'] = params
                if secs is not None:
                    args['sectors'] = secs
                r = w.translate(b, **args)
                tag, oe, ob = ('t',) + k, e, b
            else:
                e2, b = str(rng.choice(efts)), str(rng.choice(bases))
                secs = None
                k = (e, a, e2, b)
                if (e2, b) == (e, a):
                    r = w.match(e2, b)
                    mon.check(r is w and not log, 'match-same', f'{k}: {r!r}, calls {log}')
                    mon.count('identity')
                    continue
                if k not in ma:
                    mon.raises(ValueError, lambda: w.match(e2, b, params), 'match-unknown', str(k))
                    mon.check(not log, 'match-unknown-calls', f'{k} {log}')
                    continue
                r = w.match(e2, b, parameters=params) if params is not None or rng.random() < .5 else w.match(e2, b)
                tag, oe, ob = ('m',) + k, e2, b
            what = 'translate' if tag[0] == 't' else 'match'
            mon.check(len(log) == 1 and log[0][0] == tag, f'{what}-calls', f'{tag}: calls {[l[0] for l in log]}')
            if log:
                _, C, s, p, sc = log[0]
                want = {kk: vv for kk, vv in w.dict.items()}
                mon.check(list(C) == list(want) and all(C[x] == want[x] for x in C) and s == scale, f'{what}-arguments', f'{C} {s}')
                mon.check(p == params and (p is None) == (params is None), f'{what}-parameters', f'{p} != {params}')
                mon.check(sc == secs, f'{what}-sectors', f'{sc} != {secs}')
            mon.eq((r.eft, r.basis, r.scale), (oe, ob, scale), f'{what}-labels', str(tag))
            exp = {x: complex(v) for x, v in ret[tag].items() if v != 0}
            mon.check(set(r.values) == set(exp) and all(complex(r[x]) == exp[x] for x in exp), f'{what}-values', f'{r.values} != {ret[tag]}')
            mon.check(gen.same(w.values, vals) and (w.eft, w.basis, w.scale) == (e, a, scale), f'{what}-input-changed', f'{w.values} != {vals}')
            mon.check(params == pcopy, f'{what}-parameters-changed', f'{params}')
            import json
            try:
                r2 = wcxf.WC.load(r.dump())
                mon.check(all(complex(r2[x]) == exp[x] for x in exp), f'{what}-result-dumps', '')
            except Exception as ex:
                mon.violate(f'{what}-result-dumps', repr(ex))
            mon.count(what)
            mon.case(tag, vals, params, secs)


def real(rng, mon, i):
    """The translators and matchers of the package itself: labels, scale, input untouched, nonzero numbers only."""
    from wilson import wcxf
    keys = [('t',) + k for k in wcxf.Translator.instances] + [('m',) + k for k in wcxf.Matcher.instances]
    for tag in [keys[j] for j in rng.permutation(len(keys))[:6]]:
        e, a = tag[1], tag[2]
        if (e, a) not in wcxf.Basis.instances:
            mon.event()
            continue
        allw = wcxf.Basis[e, a].all_wcs
        def real_wc(k):
            for s in wcxf.Basis[e, a].sectors.values():
                if k in s:
                    return bool((s[k] or {}).get('real', False))
        vals = {}
        for k in rng.choice(allw, size=min(len(allw), int(rng.choice([1, 3, 10]))), replace=False):
            x, y = rng.normal(size=2) * 1e-8
            vals[str(k)] = float(x) if real_wc(str(k)) or rng.random() < .5 else {'Re': float(x), 'Im': float(y)}
        scale = {'SMEFT': 160., 'WET': 4.8, 'WET-4': 3., 'WET-3': 2., 'WET-2': 1.5}.get(e, 100.)
        w = wcxf.WC(e, a, scale, copy.deepcopy(vals))
        d0 = dict(w.dict)
        if tag[0] == 't':
            r = w.translate(tag[3])
            lab = (e, tag[3])
        else:
            r = w.match(tag[3], tag[4])
            lab = (tag[3], tag[4])
        mon.eq((r.eft, r.basis, r.scale), lab + (scale,), 'real-labels', str(tag))
        mon.check(gen.same(w.values, vals) and set(w.dict) == set(d0) and all(w.dict[k] == d0[k] for k in d0), 'real-input-changed', str(tag))
        mon.check(all(v != 0 for v in r.dict.values()), 'real-zero-kept', str(tag))
        mon.check(all(np.isfinite(complex(v)) for v in r.dict.values()), 'real-not-finite', str(tag))
        if i % 2:
            P = {k: float(v * rng.uniform(.97, 1.03)) for k, v in BASE.items() if rng.random() < .6}
            P0 = dict(P)
            w.translate(tag[3], parameters=P) if tag[0] == 't' else w.match(tag[3], tag[4], parameters=P)
            mon.check(P == P0, 'real-parameters-changed', str(tag))
        mon.case('real', tag, vals, sample=[tag, len(vals), len(r.values)])


BASE = {'m_b': 4.18, 'm_c': 1.28, 'm_s': .095, 'm_tau': 1.777, 'Vus': .2243, 'Vub': 3.6e-3, 'Vcb': .0422, 'gamma': 1.27, 'GF': 1.166e-5,
        'alpha_e': 1 / 127.9, 'alpha_s': .1185, 'm_W': 80.385, 'm_Z': 91.1876, 'm_h': 125.}
ROUTES = [   # direct routes and the ones they abbreviate
    (('SMEFT', 'Warsaw'), [('t', 'Warsaw up'), ('m', 'WET', 'JMS')], ('m', 'WET', 'JMS')),
    (('SMEFT', 'Warsaw'), [('m', 'WET', 'JMS'), ('t', 'flavio')], ('m', 'WET', 'flavio')),
    (('SMEFT', 'Warsaw'), [('m', 'WET', 'JMS'), ('t', 'EOS')], ('m', 'WET', 'EOS')),
    (('SMEFT', 'Warsaw'), [('m', 'WET', 'JMS'), ('t', 'Bern')], ('m', 'WET', 'Bern')),
    (('SMEFT', 'Warsaw up'), [('m', 'WET', 'JMS'), ('t', 'flavio')], ('m', 'WET', 'flavio')),
    (('SMEFT', 'Higgs-Warsaw up'), [('t', 'Warsaw up'), ('t', 'Warsaw')], ('t', 'Warsaw')),
    (('SMEFT', 'Warsaw'), [('t', 'Warsaw up'), ('t', 'Higgs-Warsaw up')], ('t', 'Higgs-Warsaw up')),
    (('WET', 'FlavorKit'), [('t', 'JMS'), ('t', 'flavio')], ('t', 'flavio')),
]


def composed(rng, mon, i):
    """Direct routes of the package give what the routes they abbreviate give one after the other, with the same parameters."""
    from wilson import wcxf
    (e, a), steps, direct = ROUTES[i % len(ROUTES)]
    n = len(wcxf.Basis[e, a].all_wcs)
    import dets
    d = dets.draw(rng, e, a, int(rng.choice([3, 30, n])))
    scale = float(rng.choice([91.1876, rng.uniform(80, 300)])) if e == 'SMEFT' else float(rng.uniform(3, 160))
    P = {k: float(v * rng.uniform(.9, 1.1)) for k, v in BASE.items() if rng.random() < .7} if rng.random() < .8 else None
    if P is not None and rng.random() < .3 and direct[0] == 'm':
        P['loop_order'] = 1
    w = wcxf.WC(e, a, scale, wcxf.WC.dict2values(d))
    go = lambda w, s: w.translate(s[1], parameters=P) if s[0] == 't' else w.match(s[1], s[2], parameters=P)
    x = w
    for s in steps:
        x = go(x, s)
    y = go(w, direct)
    mon.eq((x.eft, x.basis, x.scale), (y.eft, y.basis, y.scale), 'composed-labels', str(direct))
    top = max([abs(v) for v in x.dict.values()] + [0])
    bad = [k for k in sorted(set(x.dict) | set(y.dict)) if not abs(x[k] - y[k]) <= 1e-9 * abs(x[k]) + 1e-13 * top]
    mon.event(len(x.dict))
    mon.check(not bad, 'composed:' + '-'.join(direct), f'{e} {a} {direct} at {scale}, {P}: {[(k, y[k], x[k]) for k in bad[:3]]} of {len(bad)}')
    mon.case('composed', e, a, direct, scale, str(P), sample=[e, a, direct, len(d)])


FAMILIES = [Family('dispatch', dispatch, 120, 1500), Family('real', real, 60, 600), Family('composed', composed, 40, 400)]
RULE = ('random sets of registered translation/matching functions that record their calls; random translate/match requests '
        'checked for: right function called exactly once with the right arguments, labels and scale of the result, '
        'nonzero values kept exactly, inputs untouched, unknown routes refused, identity without calls; plus the '
        "package's own translators and matchers, whose direct routes are compared with the routes they abbreviate; a case is a distinct request")
if __name__ == '__main__':
    mon.run('C07', RULE, FAMILIES)
