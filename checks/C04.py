"""Numeric access to Wilson coefficient values (dict, [], df, dict2values)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen
from mon import Family
import copy, random
import numpy as np


def access(rng, mon, i):
    """Random access histories against the expected numbers."""
    from wilson import wcxf
    vals, nums = {}, {}
    for _ in range(int(rng.choice([0, 1, 2, 4, 9, 30]))):
        k = gen.name(rng)
        v, x = gen.value(rng)
        if rng.random() < .15:      # numbers may arrive as text from YAML files
            x = gen.number(rng)
            if rng.random() < .5:
                v, x = repr(float(x)), float(x)
            else:
                v, x = {'Re': repr(float(x)), 'Im': '1e-3'}, complex(float(x), 1e-3)
        elif rng.random() < .1:
            x = np.float64(gen.number(rng))
            v = x
        vals[k], nums[k] = v, x
    orig = copy.deepcopy(vals)
    w = wcxf.WC('E', 'B', 1., vals)
    keys = list(nums)
    missing = [k for k in (gen.name(rng) for _ in range(5)) if k not in nums] + ['no such coefficient']
    for _ in range(12):
        op = int(rng.integers(6))
        if op == 0 and keys:
            k = keys[int(rng.integers(len(keys)))]
            mon.check(complex(w[k]) == complex(nums[k]), 'getitem', f'wc[{k!r}] = {w[k]} != {nums[k]}')
        elif op == 1:
            k = missing[int(rng.integers(len(missing)))]
            mon.check(w[k] == 0, 'missing-is-zero', f'wc[{k!r}] = {w[k]!r}')
            mon.check(k not in w.dict and k not in w.values, 'missing-not-stored', f'{k!r} appeared in the object')
        elif op == 2:
            d = w.dict
            mon.check(list(d) == list(nums) and all(complex(d[k]) == complex(nums[k]) for k in nums), 'dict', f'{d} != {nums}')
            mon.check(all(isinstance(v, (int, float, complex, np.number)) for v in d.values()), 'dict-numbers', f'{d}')
        elif op == 3:
            df = w.df
            mon.check(list(df.index) == list(nums) and list(df.columns) == ['Re', 'Im'], 'df-shape', f'{df}')
            if len(nums):
                mon.check(all(float(df.iloc[j]['Re']) == complex(nums[k]).real and float(df.iloc[j]['Im']) == complex(nums[k]).imag
                              for j, k in enumerate(nums)), 'df-values', f'{df} vs {nums}')
        elif op == 4:
            s = str(w)
            mon.check(all(str(k) in s for k in nums), 'markdown', s[:300])
        else:
            mon.check(gen.same(w.values, orig), 'values-changed', f'{w.values} != {orig}')
    mon.case('access', orig)


def back(rng, mon, i):
    """numbers -> values -> numbers."""
    from wilson import wcxf
    d = {}
    for _ in range(int(rng.choice([1, 3, 10, 30]))):
        r = int(rng.integers(7))
        x, y = float(gen.number(rng)), float(gen.number(rng))
        d[gen.name(rng)] = [x, complex(x, y), complex(x, 0), complex(0, y), np.complex128(complex(x, y)),
                            np.float64(x), int(rng.integers(-9, 9))][r]
    o = dict(d)
    v = wcxf.WC.dict2values(d)
    mon.check(list(d) == list(o) and all(d[k] == o[k] for k in o), 'dict2values-mutates', f'{d} != {o}')
    mon.eq(list(v), list(o), 'dict2values-keys', '')
    for k in o:
        z = complex(o[k])
        if z.imag != 0:
            ok = isinstance(v[k], dict) and set(v[k]) == {'Re', 'Im'} and v[k]['Re'] == z.real and v[k]['Im'] == z.imag
            ok = ok and type(v[k]['Re']) is float and type(v[k]['Im']) is float
        else:
            ok = type(v[k]) is float and v[k] == z.real
        mon.check(ok, 'dict2values-value', f'{o[k]!r} -> {v[k]!r}')
    w = wcxf.WC('E', 'B', 1., v)
    mon.check(all(complex(w.dict[k]) == complex(o[k]) for k in o), 'dict2values-inverse', f'{w.dict} != {o}')
    mon.check(wcxf.WC.dict2values(w.dict) == v, 'dict2values-idempotent', '')
    # two objects do not share state
    w2 = wcxf.WC('E', 'B', 2., wcxf.WC.dict2values({k: -complex(x) for k, x in o.items()}))
    w2.dict, w2.df
    mon.check(all(complex(w.dict[k]) == complex(o[k]) for k in o) and w.scale == 1. and all(complex(w2[k]) == -complex(o[k]) for k in o),
              'objects-share-state', '')
    mon.case('back', o)


def hashing(rng, mon, i):
    """Objects are usable as dictionary keys with identity semantics."""
    from wilson import wcxf
    v = {'a': 1., 'b': {'Re': 1, 'Im': 2}}
    ws = []
    for j in range(int(rng.integers(2, 20))):
        if i % 2:
            random.seed(3)      # the caller's business
        # objects that differ in nothing but the scale, one coefficient, or the sign of an imaginary part
        ws.append(wcxf.WC('E', 'B', float(j), v) if i % 3 == 0 else wcxf.WC('E', 'B', 1., dict(v, a=float(j))) if i % 3 == 1 else
                  wcxf.WC('E', 'B', 1., dict(v, b={'Re': 1, 'Im': (-1)**j * (j + 1)})))
    h = [hash(w) for w in ws]
    for w in ws:
        w.dict, w.df
    mon.eq([hash(w) for w in ws], h, 'hash-stable', '')
    d = {w: j for j, w in enumerate(ws)}
    mon.check(len(d) == len(ws) and all(d[w] == j for j, w in enumerate(ws)), 'hash-key', '')
    mon.check(len(set(h)) == len(h), 'hash-distinct', f'{h}')
    mon.case('hash', len(ws), i)


def scales(rng, mon, i):
    from wilson import wcxf
    for s in (1, 1., '1', '1e3', np.float64(3.), np.int64(4), True, ' 5.5 ', float(rng.uniform(1, 1e4))):
        w = wcxf.WC('E', 'B', s, {})
        mon.check(type(w.scale) is float and w.scale == float(s), 'scale-float', f'{s!r} -> {w.scale!r}')
        mon.case('scale', repr(s))
    for s in ('abc', None, [1]):
        mon.raises((ValueError, TypeError), lambda: wcxf.WC('E', 'B', s, {}), 'scale-invalid', repr(s))
    for v in ('abc', None, [1], {'Re': 'x'}):
        w = wcxf.WC('E', 'B', 1, {'a': 1., 'k': v})
        mon.raises((ValueError, TypeError), lambda: w.dict, 'value-invalid', repr(v))


def special(rng, mon, i):
    """Values that are not finite are kept as well."""
    from wilson import wcxf
    inf, nan = float('inf'), float('nan')
    same = lambda a, b: a == b or (a != a and b != b)
    parts = [0., 1., -inf, inf, nan, 5e-324]
    d = {f'k{a}{b}': complex(x, y) for a, x in enumerate(parts) for b, y in enumerate(parts)}
    v = wcxf.WC.dict2values(d)
    w = wcxf.WC('E', 'B', 1., v)
    for k, z in d.items():
        got = (v[k]['Re'], v[k]['Im']) if isinstance(v[k], dict) else (v[k], 0.)
        mon.check(same(got[0], z.real) and same(got[1], z.imag), 'dict2values-special', f'{z} -> {v[k]!r}')
        mon.case('special', k)
    vals = {k: {'Re': z.real, 'Im': z.imag} for k, z in d.items() if abs(z.imag) < inf}
    w = wcxf.WC('E', 'B', 1., vals)
    for k in vals:
        mon.check(same(complex(w[k]).real, d[k].real) and same(complex(w[k]).imag, d[k].imag), 'number-special', f'{vals[k]} -> {w[k]!r}')


FAMILIES = [Family('special', special, 1, 1), Family('access', access, 600, 8000), Family('back', back, 600, 8000), Family('hashing', hashing, 20, 100),
            Family('scales', scales, 4, 20)]
RULE = ('random value dictionaries (numbers, Re/Im dictionaries with missing parts, text numbers, numpy scalars) and random '
        'orders of access; a case is a distinct value dictionary whose numeric view was compared with the expected numbers')
if __name__ == '__main__':
    mon.run('C04', RULE, FAMILIES)
