"""Wilson.match_run: the documented sequence of running, matching and translating, whatever was asked before."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, wetpar
from mon import Family
import copy, math
import numpy as np

CHAIN = ['WET', 'WET-4', 'WET-3']
DEFAULT = dict(smeft_accuracy='integrate', qed_order=1, qcd_order=1, smeft_matching_order=0, smeft_matchingscale=91.1876, mb_matchingscale=4.2, mc_matchingscale=1.3, parameters={})
OUT = {'WET': ['JMS', 'flavio', 'Bern', 'EOS', 'formflavor', 'FlavorKit'], 'WET-4': ['JMS', 'flavio', 'Bern'], 'WET-3': ['JMS', 'flavio', 'Bern'], 'SMEFT': ['Warsaw', 'Warsaw up', 'Higgs-Warsaw up', 'Warsaw mass']}
RANGE = {'WET': (4, 160), 'WET-4': (1.5, 6), 'WET-3': (1.1, 2.5), 'SMEFT': (91.1876, 2000)}


def options(rng, full=True, smeft=True):
    """A few option settings and what they imply."""
    o = {}
    if rng.random() < .5:
        o['smeft_accuracy'] = str(rng.choice(['leadinglog', 'leadinglog', 'integrate']))
    else:
        o['smeft_accuracy'] = 'leadinglog'
    if rng.random() < .3:
        o['qed_order'] = int(rng.integers(2))
    if rng.random() < .3:
        o['qcd_order'] = int(rng.integers(2))
    if rng.random() < .3:
        o['smeft_matching_order'] = int(rng.integers(2))
    if rng.random() < .3:
        o['smeft_matchingscale'] = float(rng.choice([80., 91.1876, 120., 160.]))
    if rng.random() < .3:
        o['mb_matchingscale'] = float(rng.uniform(3.8, 5.5))
    if rng.random() < .3:
        o['mc_matchingscale'] = float(rng.uniform(1.2, 1.9))
    if rng.random() < .5:
        u, _, _ = wetpar.draw(rng)
        u = {k: v for k, v in (u or {}).items() if k not in ('m_W', 'alpha_e', 'GF')}
        if smeft:                       # SMEFT running takes CKM from the defaults: moderate values
            u = {k: v for k, v in u.items() if k not in ('Vub', 'Vcb', 'Vus')}
        o['parameters'] = u
    return o


def coefficients(rng, e, b):
    real = eft.sectors_real(e, b)
    keys = sorted(real)
    n = int(rng.choice([1, 3, 10, 60]))
    pick = [keys[j] for j in sorted(rng.choice(len(keys), size=min(n, len(keys)), replace=False))]
    if rng.random() < .2 and e != 'SMEFT':
        pick = keys
    size = 10.0**rng.uniform(-10, -8) if e == 'SMEFT' else 10.0**rng.uniform(-9, 0)
    d = {}
    for k in pick:
        z = gen.cplx(rng) * size * 10**rng.uniform(-1, 0)
        if k in ('phi', 'deltalambda3', 'deltag1z', 'deltakgamma', 'lambdaz'):
            z = z * 1e-2
        d[k] = gen.part(z, real[k])
    return d


def source(rng, smeft):
    if smeft:
        e, b = 'SMEFT', str(rng.choice(['Warsaw', 'Warsaw', 'Warsaw up', 'Higgs-Warsaw up']))
        scale = float(rng.choice([91.1876, 160., 1000., 10.0**rng.uniform(2, 3.3)]))
    else:
        e = str(rng.choice(CHAIN, p=[.6, .2, .2]))
        b = str(rng.choice(['JMS', 'flavio', 'Bern']))
        scale = float(rng.choice([rng.uniform(*RANGE[e]), np.mean(RANGE[e])]))
    if rng.random() < .25:          # next to one of the matching scales, where hardly any running is left to do
        x = {'SMEFT': 91.1876, 'WET': 4.2, 'WET-4': 1.3, 'WET-3': 1.3}[e]
        scale = float(x * (1 + rng.choice([-1, 1]) * 10.0**rng.uniform(-5, -1.5)))
    return e, b, scale, coefficients(rng, e, b)


def request(rng, e, b0, scale0):
    efts = CHAIN[CHAIN.index(e):] if e in CHAIN else CHAIN + ['SMEFT']
    out = str(rng.choice(efts))
    if out == 'SMEFT':
        scale = float(rng.choice([scale0, rng.uniform(*RANGE[out])]))
    else:
        scale = float(rng.choice([rng.uniform(*RANGE[out]), scale0 if out == e else np.mean(RANGE[out]), np.mean(RANGE[out])]))
    b = str(rng.choice(OUT[out]))
    if out == e and scale == scale0:      # only direct translations exist
        from wilson import wcxf
        b = str(rng.choice([x for x in OUT[out] if x == b0 or (e, b0, x) in wcxf.Translator.instances]))
    sectors = 'all'
    if out != 'SMEFT' and rng.random() < .35 and b in ('JMS', 'flavio', 'Bern'):
        from wilson import wcxf
        names = sorted(wcxf.Basis[out, b].sectors)
        sectors = tuple(str(x) for x in rng.choice(names, size=min(len(names), int(rng.choice([1, 1, 2, 4]))), replace=False))
    return scale, out, b, sectors


def stops(rng, e, opts):
    """A request at one of the points a longer way passes through."""
    o = dict(DEFAULT, **opts)
    pts = [(o['mb_matchingscale'], 'WET-4'), (o['mc_matchingscale'], 'WET-3'), (o['mc_matchingscale'], 'WET-4'), (o['mb_matchingscale'], 'WET')]
    if e == 'SMEFT':
        pts.append((o['smeft_matchingscale'], 'WET'))
    pts = [p for p in pts if e == 'SMEFT' or CHAIN.index(p[1]) >= CHAIN.index(e)]
    p = pts[int(rng.integers(len(pts)))]
    return p + (str(rng.choice(['JMS', 'JMS', 'flavio'])), 'all')


def direct(e, a, b):
    from wilson import wcxf
    return (e, a, b) in wcxf.Translator.instances


def wilson_obj(src, opts):
    from wilson import Wilson
    e, b, scale, d = src
    w = Wilson(d, scale, e, b)
    for k, v in opts.items():
        w.set_option(k, copy.deepcopy(v))
    return w


def reference(src, opts, req):
    """The documented route, step by step, for all sectors."""
    from wilson import wcxf
    from wilson.run.smeft import SMEFT
    from wilson.run.wet import WETrunner
    from wilson.parameters import p as dp
    e, b, scale0, d = src
    o = dict(DEFAULT, **opts)
    P = dict(dp, **o['parameters'])
    M = dict(P, loop_order=o['smeft_matching_order'])
    scale, e1, b1, _ = req
    w = wcxf.WC(e, b, scale0, wcxf.WC.dict2values(d))
    if e == e1 and scale == scale0:
        return w.translate(b1, parameters=P)
    if e == 'SMEFT':
        w = w.translate('Warsaw', parameters=P)
        to = scale if e1 == 'SMEFT' else o['smeft_matchingscale']
        if to != scale0:
            w = SMEFT(w).run(to, accuracy=o['smeft_accuracy'])
        if e1 == 'SMEFT':
            return w.translate(b1, parameters=P)
        w = w.match('WET', 'JMS', parameters=M)
    else:
        w = w.translate('JMS', parameters=P)

    def run(w, s):
        return WETrunner(w, parameters=P, qed_order=o['qed_order'], qcd_order=o['qcd_order']).run(s)
    for lower, thr in (('WET-4', 'mb_matchingscale'), ('WET-3', 'mc_matchingscale')):
        if CHAIN.index(w.eft) < CHAIN.index(lower) <= CHAIN.index(e1):
            w = run(w, o[thr]).match(lower, 'JMS', parameters=M)
    return run(w, scale).translate(b1, parameters=P)


def compare(mon, got, ref, req, key, msg):
    from wilson import wcxf
    scale, e1, b1, sectors = req
    mon.eq((got.eft, got.basis, got.scale), (e1, b1, scale), key + ':header', msg)
    inside = None
    if sectors != 'all' and e1 != 'SMEFT':
        secs = wcxf.Basis[e1, b1].sectors
        inside = {k for s in sectors for k in secs.get(s, {})}
    x, y = got.dict, ref.dict
    big = max([abs(v) for v in y.values()] + [0])
    for k in set(x) | set(y):
        u, v = x.get(k, 0), y.get(k, 0)
        if inside is not None and k not in inside:
            mon.check(abs(u) <= 1e-14 * big, key + ':sector', f'{msg}: {k} = {u} outside of {sectors}')
            continue
        mon.check(abs(u - v) <= 1e-8 * abs(v) + 1e-12 * big, key, f'{msg}: {k}: {u} expected {v} (sectors {sectors})')
    mon.event(len(y), 'coefficients compared')


def compose(smeft):
    def f(rng, mon, i):
        src = source(rng, smeft)
        opts = options(rng, smeft=smeft)
        w = wilson_obj(src, opts)
        before = (dict(w.wc.dict), copy.deepcopy(w.wc.values), w.wc.scale, copy.deepcopy({k: w.get_option(k) for k in DEFAULT}))
        for _ in range(2 if smeft else 4):
            req = request(rng, *src[:3]) if rng.random() < .8 else stops(rng, src[0], opts)
            if req[0] == src[2] and req[1] == src[0] and req[2] != src[1] and not direct(src[0], src[1], req[2]):
                continue
            got = w.match_run(*req[:3], **({} if req[3] == 'all' and rng.random() < .5 else {'sectors': req[3]}))
            ref = reference(src, opts, req)
            msg = f'{src[0]} {src[1]} {src[2]} {opts} {sorted(src[3])[:4]} -> {req}'
            compare(mon, got, ref, req, f'compose:{src[0]}->{req[1]}', msg)
            if req[2] not in ('EOS', 'Warsaw mass'):
                got.validate()
            mon.count(f'{src[0]}:{src[1]}->{req[1]}:{req[2]}')
            mon.case(src[0], src[1], req, str(opts), tuple(sorted(src[3]))[:20])
        after = (dict(w.wc.dict), copy.deepcopy(w.wc.values), w.wc.scale, copy.deepcopy({k: w.get_option(k) for k in DEFAULT}))
        mon.check(before == after, 'input-changed', f'{src[0]} {src[1]}')
    f.__name__ = 'compose_smeft' if smeft else 'compose_wet'
    return f


def history(smeft):
    def f(rng, mon, i):
        """One object serving many requests, option changes and failed requests in between."""
        from wilson import wcxf
        src = source(rng, smeft)
        opts = options(rng, smeft=smeft)
        w = wilson_obj(src, opts)
        pool = [request(rng, *src[:3]) for _ in range(3)]
        trace = []
        seen = []

        def look(req):
            got = w.match_run(*req[:3], sectors=req[3])
            fresh = wilson_obj(src, opts).match_run(*req[:3], sectors=req[3])
            trace.append(req)
            compare(mon, got, fresh, req[:3] + ('all',), 'history', f'after {trace[:-1]}: {req} with {opts}')
            mon.check(w.match_run(*req[:3], sectors=req[3]).dict == got.dict, 'history:again', f'{req}')
            seen.append((got, dict(got.dict)))
        for step in range(6 if smeft else 12):
            op = int(rng.integers(10))
            if op < 6:
                u = rng.random()
                req = pool[int(rng.integers(len(pool)))] if u < .55 else stops(rng, src[0], opts) if u < .8 else request(rng, *src[:3])
                if rng.random() < .2:
                    req = req[:3] + ('all',)
                asked = [t for t in trace if len(t) == 4 and not isinstance(t, str)]
                if asked and rng.random() < .35:     # the same question for related sectors
                    prev = asked[int(rng.integers(len(asked)))]
                    if prev[1] != 'SMEFT' and prev[2] in ('JMS', 'flavio', 'Bern'):
                        names = [str(x) for x in rng.permutation(sorted(wcxf.Basis[prev[1:3]].sectors))]
                        old = list(prev[3]) if prev[3] != 'all' else [q for q in names if any(k in seen[-1][1] for k in wcxf.Basis[prev[1:3]].sectors[q])][:2] or names[:1]
                        how = int(rng.integers(5))
                        new = [old[:1], old + names[:2], old[:1] + names[:2], old[::-1], names[:1] + old][how]
                        req = prev[:3] + (tuple(dict.fromkeys(new)),)
                if asked and rng.random() < .15:        # a point passed on the way, for the sectors asked for last
                    st = stops(rng, src[0], opts)
                    if (st[1], 'JMS') in wcxf.Basis.instances:
                        req = st[:2] + ('JMS', asked[-1][3])
                elif rng.random() < .15:      # a scale next to one asked for before
                    req = (req[0] * (1 + float(rng.choice([-1, 1]) * 10**rng.uniform(-12, -3))),) + req[1:]
                if req[0] == src[2] and req[1] == src[0] and req[2] != src[1] and not direct(src[0], src[1], req[2]):
                    continue
                look(req)
            elif op < 8:
                new = options(rng, smeft=smeft)
                k = str(rng.choice(sorted(new)))
                if rng.random() < .3 and 'mb_matchingscale' in opts:    # nearly the same value
                    k = 'mb_matchingscale'
                    new[k] = opts[k] * (1 + float(rng.choice([-1, 1]) * 10**rng.uniform(-6, -3)))
                elif rng.random() < .3 and opts.get('parameters'):
                    k = 'parameters'
                    new[k] = {q: v * (1 + 1e-4 * float(rng.normal())) for q, v in opts[k].items()}
                elif rng.random() < .5:
                    k = ['qed_order', 'qcd_order'][int(rng.integers(2))]
                    new[k] = 1 - opts.get(k, 1)
                opts = dict(opts, **{k: new[k]})
                w.set_option(k, copy.deepcopy(new[k]))
                trace.append((k, new[k]))
                asked = [t for t in trace if len(t) == 4 and not isinstance(t, str)]
                if asked and rng.random() < .7:     # the question asked last, under the new option
                    look(asked[-1])
            elif op == 8:
                bad = [lambda: w.match_run(10., 'Foo', 'JMS'), lambda: w.match_run(10., 'WET-2', 'JMS'), lambda: w.match_run(100. if src[0] != 'SMEFT' else 50., 'SMEFT' if src[0] != 'SMEFT' else 'WET', 'Warsaw'),
                       lambda: w.match_run(RANGE[src[0]][0] + .123, src[0], 'Foo')][int(rng.integers(4))]
                mon.raises(ValueError, bad, 'history:refused', f'{src[0]}')
                trace.append('refused')
            else:
                w.clear_cache()
                trace.append('clear_cache')
        for got, d in seen:
            mon.check(dict(got.dict) == d, 'history:result-changed', 'an earlier result was modified by later requests')
        mon.case('history', src[0], src[1], str(trace))
    f.__name__ = 'history_smeft' if smeft else 'history_wet'
    return f


def pieces(rng, mon, i):
    """Stopping on the way and starting again from there gives the same (coupling orders for which evolution composes)."""
    from wilson import Wilson
    src = source(rng, False)
    b = src[1]
    opts = dict(options(rng, smeft=False), qed_order=0)
    o = dict(DEFAULT, **opts)
    w = wilson_obj(src, opts)
    e = src[0]
    out = str(rng.choice(CHAIN[CHAIN.index(e):]))
    mid = str(rng.choice(CHAIN[CHAIN.index(e):CHAIN.index(out) + 1]))
    s1, s2 = float(rng.uniform(*RANGE[mid])), float(rng.uniform(*RANGE[out]))
    b = 'JMS'                # dipoles: evolution with frozen mass ratios does not compose
    direct = w.match_run(s2, out, b)
    w2 = Wilson.from_wc(w.match_run(s1, mid, 'JMS'))
    for k, v in opts.items():
        w2.set_option(k, v)
    two = w2.match_run(s2, out, b)
    x, y = two.dict, direct.dict
    big = max([abs(v) for k, v in y.items() if 'gamma' not in k and k[1:3] != 'G_' and k not in ('G', 'Gtilde')] + [1e-6 * max(abs(v) for v in src[3].values())])
    for k in set(x) | set(y):
        u, v = x.get(k, 0), y.get(k, 0)
        if 'gamma' in k or k[1:3] == 'G_' or k in ('G', 'Gtilde'):
            continue
        mon.check(abs(u - v) <= 1e-6 * abs(v) + 1e-8 * big, 'pieces', f'{src[:3]} -> {mid} {s1} -> {out} {b} {s2}: {k}: {u} vs {v}; {opts}')
    mon.case('pieces', src[:3], mid, s1, out, b, s2, str(opts))


def influence(rng, mon, i):
    """Every option has the documented influence: it changes what it should and nothing else."""
    from wilson import Wilson

    def run(e, b, scale, d, req, **opts):
        w = Wilson(d, scale, e, b)
        for k, v in dict(dict(smeft_accuracy='leadinglog'), **opts).items():
            w.set_option(k, v)
        return w.match_run(*req).dict

    def same(x, y):
        big = max([abs(v) for v in list(x.values()) + list(y.values())] + [0])
        return all(abs(x.get(k, 0) - y.get(k, 0)) <= 1e-10 * big for k in set(x) | set(y))
    z = float(rng.uniform(.5, 2))
    jms = ('WET', 'JMS', 100.)
    d = {'S1ddRR_2323': z * 1e-6, 'dG_23': z * 1e-6}
    lep = {'SedRR_2223': z * 1e-6}
    low, w4, w3 = (5., 'WET', 'JMS'), (3., 'WET-4', 'JMS'), (1.2, 'WET-3', 'JMS')
    light = {'S1ddRR_1212': z * 1e-6, 'dG_12': z * 1e-6}
    cases = [('qcd_order off stops strong running', jms, {'S1ddRR_2323': z * 1e-6}, low, {'qcd_order': 0, 'qed_order': 0}, True, 'identity'),
             ('qed_order', jms, d, low, {'qed_order': 0}, True, None),
             ('qcd_order', jms, d, low, {'qcd_order': 0}, True, None),
             ('alpha_s', jms, d, low, {'parameters': {'alpha_s': .125}}, True, None),
             ('alpha_e', jms, lep, low, {'parameters': {'alpha_e': 1 / 120}}, True, None),
             ('m_b', jms, d, low, {'parameters': {'m_b': 4.4}}, False, None),
             ('mb_matchingscale', jms, light, w4, {'mb_matchingscale': 6.}, True, None),
             ('mb_matchingscale', jms, d, low, {'mb_matchingscale': 6.}, False, None),
             ('mc_matchingscale', jms, light, w3, {'mc_matchingscale': 2.}, True, None),
             ('mc_matchingscale', jms, light, w4, {'mc_matchingscale': 2.}, False, None),
             ('smeft_matchingscale', ('SMEFT', 'Warsaw', 500.), {'ledq_2223': z * 1e-8}, low, {'smeft_matchingscale': 160.}, True, None),
             ('smeft_matchingscale', ('SMEFT', 'Warsaw', 500.), {'ledq_2223': z * 1e-8}, (200., 'SMEFT', 'Warsaw'), {'smeft_matchingscale': 160.}, False, None),
             ('smeft_matching_order', ('SMEFT', 'Warsaw', 91.1876), {'uG_33': z * 1e-8}, low, {'smeft_matching_order': 1}, True, None),
             ('smeft_accuracy', ('SMEFT', 'Warsaw', 2000.), {'ledq_2223': z * 1e-8}, (200., 'SMEFT', 'Warsaw'), {'smeft_accuracy': 'integrate'}, True, None),
             ('smeft_accuracy', jms, d, low, {'smeft_accuracy': 'integrate'}, False, None),
             ('Vus in the output basis', ('SMEFT', 'Warsaw', 500.), {'lq1_2223': z * 1e-8}, (200., 'SMEFT', 'Warsaw up'), {'parameters': {'Vus': .3}}, True, None),
             ('Vus in the input basis', ('SMEFT', 'Warsaw up', 500.), {'lq1_2223': z * 1e-8}, (200., 'SMEFT', 'Warsaw'), {'parameters': {'Vus': .3}}, True, None),
             ('GF in the low-energy basis', ('WET', 'flavio', 5.), {'C9_bsmumu': z}, (5., 'WET', 'JMS'), {'parameters': {'GF': 1.2e-5}}, True, None),
             ('GF in both bases', ('WET', 'flavio', 100.), {'C9_bsmumu': z}, (5., 'WET', 'flavio'), {'parameters': {'GF': 1.2e-5}}, False, None)]
    name, (e, b, s), d, req, opt, changes, extra = cases[i % len(cases)]
    x, y = run(e, b, s, d, req), run(e, b, s, d, req, **opt)
    mon.check(same(x, y) != changes, f'influence:{name}', f'{e} {b} {s} {d} -> {req} with {opt}: expected {"a" if changes else "no"} change')
    if extra == 'identity':
        mon.check(same(y, d), 'influence:identity', f'{y} vs {d}')
    mon.case('influence', i % len(cases), z)


def smeft_parameters(rng, mon, i):
    """The parameters option also applies to SMEFT running."""
    from wilson import Wilson
    out = []
    for p in ({}, {'alpha_s': .13}):
        w = Wilson({'lequ3_2233': 1e-8}, 2000., 'SMEFT', 'Warsaw')
        w.set_option('parameters', p)
        out.append(w.match_run(200., 'SMEFT', 'Warsaw').dict['lequ3_2233'])
    mon.check(abs(out[0] - out[1]) > 1e-4 * abs(out[0]), 'smeft-running-ignores-parameters', f'alpha_s=0.13 has no effect: {out[0]} and {out[1]}')
    mon.case('smeft_parameters')


def impossible(rng, mon, i):
    """Requests that no sequence of steps serves are refused, whatever the scales, and change nothing."""
    from wilson import wcxf, Wilson
    order = ['SMEFT', 'WET', 'WET-4', 'WET-3', 'WET-2']
    scales = {'SMEFT': 1000., 'WET': 20., 'WET-4': 3., 'WET-3': 1.2, 'WET-2': 1.1}
    bases = sorted(wcxf.Basis.instances)
    for e, b in bases:
        keys = wcxf.Basis[e, b].all_wcs
        d = {keys[int(j)]: 1e-9 * (1 + abs(rng.normal())) for j in rng.integers(0, len(keys), 3)}
        w = Wilson(d, scales[e], e, b)
        own = w.match_run(scales[e], e, b)
        mon.check((own.eft, own.basis, own.scale) == (e, b, scales[e]) and dict(own.dict) == d, 'impossible:own', f'{e}/{b}: {own.dict} vs {d}')
        reach = {(e, b)} | {(e, y) for (x, a, y) in wcxf.Translator.instances if (x, a) == (e, b)}
        for e2, b2 in [bases[int(j)] for j in rng.integers(0, len(bases), 4)] + [('WET-2', 'JMS'), ('Foo', 'JMS'), (e, 'Foo')]:
            for s in (scales[e], scales[e] * .9):
                if (e2, b2) == (e, b) and s == scales[e]:
                    continue
                down = e in order and e2 in order and order.index(e2) >= order.index(e)
                inner = 'Warsaw' if e == 'SMEFT' else 'JMS'
                step = lambda x, a, y: a == y or (x, a, y) in wcxf.Translator.instances
                if e2 == e and s == scales[e]:
                    ok = (e2, b2) in reach
                else:
                    ok = down and 'WET-2' not in (e, e2) and step(e, b, inner) and step(e2, 'Warsaw' if e2 == 'SMEFT' else 'JMS', b2) and (e2, b2) in wcxf.Basis.instances
                if not ok:
                    mon.raises(ValueError, lambda: w.match_run(s, e2, b2), 'impossible:accepted', f'{e}/{b} at {scales[e]} -> {e2}/{b2} at {s}')
                    mon.case('impossible', e, b, e2, b2, s == scales[e])
        mon.check(dict(w.match_run(scales[e], e, b).dict) == d, 'impossible:changed', f'{e}/{b}')


FAMILIES = [Family('impossible', impossible, 4, 40), Family('compose_wet', compose(False), 160, 6000), Family('compose_smeft', compose(True), 48, 2000, timeout=60), Family('history_wet', history(False), 64, 2000, timeout=60),
            Family('history_smeft', history(True), 32, 800, timeout=120), Family('pieces', pieces, 80, 3000), Family('influence', influence, 38, 380, timeout=60),
            Family('smeft_parameters', smeft_parameters, 1, 1, timeout=60)]
RULE = ('the documented sequence of single steps rebuilt from the translators, runners and matchers; fresh objects as reference for objects with a history; '
        'a case is a distinct input, option setting and request or a distinct history')
if __name__ == '__main__':
    mon.run('C23', RULE, FAMILIES)
