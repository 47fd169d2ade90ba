"""Matching at the quark thresholds: exactly the coefficients of the smaller theory survive, unchanged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, lagr, wetpar
from mon import Family
import copy
import numpy as np

STEPS = [('WET', 'WET-4', b) for b in ('flavio', 'Bern', 'JMS')] + [('WET-4', 'WET-3', b) for b in ('flavio', 'Bern', 'JMS')] + [('WET-3', 'WET-2', 'JMS')]
HEAVY = {'WET-4': {'b'}, 'WET-3': {'b', 'c', 'tau'}, 'WET-2': {'b', 'c', 'tau', 's'}}     # as defined by WCxf


def wc(e, b, d, scale):
    from wilson import wcxf
    return wcxf.WC(e, b, scale, wcxf.WC.dict2values(d))


def contains(term, heavy):
    """Does the operator contain a heavy fermion?"""
    names = {'b': 'd3', 'c': 'u2', 's': 'd2', 'tau': 'e3', 'mu': 'e2'}
    bad = {names[h] for h in heavy}
    fields = set()
    for _, op in term.ops:
        for x in op:
            if isinstance(x, str):
                fields.add(x)
            elif isinstance(x, tuple):
                fields |= set(x)
    return bool(fields & bad)


def draw(rng, real, p_full=.3, wild=False):
    keys = sorted(real)
    if rng.random() > p_full:
        n = int(rng.choice([1, 2, 5, 30, 200]))
        keys = [keys[j] for j in sorted(rng.choice(len(keys), size=min(n, len(keys)), replace=False))]
    out = {}
    s = 10.0**rng.uniform(-12, 0)
    for k in keys:
        r = int(rng.integers(8))
        z = gen.cplx(rng) * s * 10**rng.uniform(-3, 3)
        z = [z, z, z, z, 1j * z.imag, complex(z.real), complex(gen.number(rng)) if wild else z, z][r]
        out[k] = gen.part(z, real[k])
    return out


def keep(rng, mon, i):
    a, c, b = STEPS[i % len(STEPS)]
    from wilson import wcxf
    d = draw(rng, eft.sectors_real(a, b), wild=True)
    scale = float(10.0**rng.uniform(-.3, 3))
    w = wc(a, b, d, scale)
    before = (copy.deepcopy(w.values), dict(w.dict))
    user = [None, {}, {'m_b': 4.3, 'loop_order': 1}][int(rng.integers(3))]
    u0 = copy.deepcopy(user)
    r = w.match(c, b, parameters=user)
    mon.check(before == (w.values, dict(w.dict)) and u0 == user, 'mutates', f'{a}->{c} {b}')
    mon.eq((r.eft, r.basis, r.scale), (c, b, scale), 'header')
    target = eft.sectors_real(c, b)
    want = {k: v for k, v in d.items() if k in target and v != 0}
    mon.eq(dict(r.dict), want, f'keep:{a}->{c}:{b}', f'{len(d)} coefficients')
    for k, v in r.values.items():
        mon.event()
        if k in want and (complex(v.get('Re', 0), v.get('Im', 0)) if isinstance(v, dict) else v) != want[k]:
            mon.violate('value', f'{k}: {v} vs {want[k]}')
    r.validate()
    mon.count('kept', len(want))
    mon.count('dropped', len(d) - len(want))
    mon.case('keep', a, c, b, tuple(sorted(d))[:60], len(d), scale)


def content(rng, mon, i):
    """What is dropped contains a heavy fermion, what is kept contains none (by the field content of the operators)."""
    a, c, b = STEPS[i % len(STEPS)]
    from wilson import wcxf
    p = wetpar.effective(None, 2.)
    real = eft.sectors_real(a, b)
    terms = {'JMS': lambda: lagr.jms(real), 'flavio': lambda: lagr.flavio(real, p), 'Bern': lambda: lagr.bern(real, p)}[b]()
    d = {k: 1. if real[k] else gen.cplx(rng) for k in real}
    got = dict(wc(a, b, d, 2.).match(c, b).dict)
    n = 0
    for k in sorted(d):
        if k not in terms:
            mon.count('no field content known')
            continue
        n += 1
        if contains(terms[k], HEAVY[c]):
            mon.check(k not in got, f'content:heavy:{a}->{c}:{b}', f'{k} contains a heavy fermion')
        elif b != 'JMS' or k in got:
            mon.count('light')
            mon.check(k in got, f'content:light:{a}->{c}:{b}', f'{k} contains no heavy fermion')
        else:
            mon.check(False, f'content:light:{a}->{c}:{b}', f'{k} contains no heavy fermion')
    mon.event(n, 'operators classified')
    mon.case('content', a, c, b)


def commute(rng, mon, i):
    """Changing the basis before or after the threshold is the same."""
    a, c, _ = STEPS[[0, 3][i % 2]]
    b1, b2 = [('JMS', 'flavio'), ('JMS', 'Bern'), ('flavio', 'JMS'), ('flavio', 'Bern'), ('Bern', 'JMS'), ('Bern', 'flavio')][(i // 2) % 6]
    user, scale, p = wetpar.draw(rng)
    d = draw(rng, eft.sectors_real(a, b1))
    x = dict(wc(a, b1, d, scale).translate(b2, parameters=user).match(c, b2).dict)
    y = dict(wc(a, b1, d, scale).match(c, b1).translate(b2, parameters=user).dict)
    big = max([abs(v) for v in y.values()] + [0])
    for k in set(x) | set(y):
        u, v = x.get(k, 0), y.get(k, 0)
        mon.check(abs(u - v) <= 1e-11 * abs(v) + 1e-15 * big, 'commute', f'{a}->{c}, {b1}->{b2}, {k}: {u} vs {v}')
    mon.case('commute', a, c, b1, b2, tuple(sorted(d))[:60], len(d), str(user), scale)


def refused(rng, mon, i):
    """Everything that is not one of the supported steps is refused."""
    from wilson import wcxf
    efts, bases = ['WET', 'WET-4', 'WET-3', 'WET-2', 'SMEFT', 'Foo'], ['flavio', 'Bern', 'JMS', 'Warsaw', 'EOS', 'FlavorKit', 'Foo']
    for a in ('WET', 'WET-4', 'WET-3'):
        for b in ('flavio', 'Bern', 'JMS'):
            real = eft.sectors_real(a, b)
            w = wc(a, b, draw(rng, real, p_full=0), 2.)
            for c in efts:
                for b2 in bases:
                    if (c, b2) == (a, b):
                        mon.check(w.match(c, b2) is w, 'self', f'{a} {b}')
                    elif b == b2 and (a, c, b) in STEPS:
                        mon.eq(w.match(c, b2).eft, c, 'supported')
                    else:
                        mon.raises(ValueError, lambda: w.match(c, b2), f'refused:{a}:{b}->{c}:{b2}')
    mon.case('refused', i)


FAMILIES = [Family('keep', keep, 210, 21000), Family('content', content, 7, 7), Family('commute', commute, 60, 2400), Family('refused', refused, 2, 10)]
RULE = ('coefficients before and after the threshold compared with membership in the target basis and with the field content of the operators; '
        'basis change before or after; a case is a distinct step, basis, coefficient set and scale')
if __name__ == '__main__':
    mon.run('C22', RULE, FAMILIES)
