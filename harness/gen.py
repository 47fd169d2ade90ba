"""Random workload ingredients."""
import numpy as np

NASTY = ['a', 'phiG', 'lq1_1123', 'b->s::c7', 'b->s::Re{c7}', 'C9_bsmumu', 'on', 'no', 'null', '~', '1', '1e5', '0x1f',
         '1_000', 'with space', 'colon: x', '#hash', 'ünïcödé', '日本', '-', '- x', "it's", '"q"', '=', '<<', '@meta@',
         '%dir', '&anc', '*ali', '!tag', 'true', 'NaN', '.inf', '2001-01-01', '', 'tab\there', 'back\\slash', 'new\nline',
         '[x]', '{y}', 'a,b', '?', 'Re', 'Im', 'values', 'scale', 'eft', '_under', 'x' * 90, '\u2028', 'é\u0301', '🙂',
         '__class__', 'dict', '12:30:45', '0b1', '0o7', '007', '1.', '+1', '-0', 'null ', ' lead', 'trail ']
VALS = [0.0, -0.0, 1.0, -1.0, 1e-5, 1e-300, 5e-324, 1.7976931348623157e308, 0.1, 1/3, 1e22, 1e16, 123456789012345678.,
        1e-7, -2.5e-11, 2**53 + 1., 1e5, 100000.0, 3.0, 1e-4, 9.999999999999999e22]


def name(rng, plain=False):
    if not plain and rng.random() < .4:
        return str(rng.choice(NASTY))
    n = ''.join(rng.choice(list('abcdefgABCDEFG'), size=int(rng.integers(1, 7))))
    if rng.random() < .6:
        n += '_' + ''.join(str(int(x)) for x in rng.integers(1, 4, size=int(rng.choice([2, 4]))))
    return n


def number(rng):
    r = rng.random()
    if r < .25:
        return float(rng.choice(VALS))
    if r < .35:
        return int(rng.integers(-5, 6))
    return float(rng.normal() * 10.0**rng.uniform(-12, 3))


def value(rng):
    """A WCxf value: number or Re/Im dict.  Returns (value, number)."""
    r = rng.random()
    if r < .5:
        v = number(rng)
        return v, float(v)
    a, b = number(rng), number(rng)
    if r < .8:
        return {'Re': a, 'Im': b}, complex(float(a), float(b))
    if r < .85:
        return {'Im': b, 'Re': a}, complex(float(a), float(b))
    if r < .92:
        return {'Im': b}, complex(0., float(b))
    if r < .98:
        return {'Re': a}, complex(float(a), 0.)
    return {}, 0j


def meta(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < .5:
        return [None, True, False, 'text', 3, 2.5, '', 'on', '1e5', 'multi\nline', 'ünï', 2**53 + 1,
                10**25 + 3, 0.30000000000000004, -1.2345678901234567e-300, '日本', '~', '2001-01-01', ' x ', 'a: b', '# c'][int(rng.integers(21))]
    if r < .75:
        return [meta(rng, depth + 1) for _ in range(int(rng.integers(0, 4)))]
    return {name(rng): meta(rng, depth + 1) for _ in range(int(rng.integers(0, 4)))}


def same(a, b):
    """Deep equality, type-strict for bool/None, -0.0 == 0.0 allowed, int == float allowed."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return type(a) is type(b) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return a == b or (a != a and b != b)


_mode = [None, 0]


def cplx(rng):
    """Standard complex normal number; sets of them are generic, purely real, purely imaginary or mixed
    (the mode belongs to the random generator, i.e. to the case, and changes rarely)."""
    if _mode[0] is not rng or rng.random() < .01:
        _mode[:] = [rng, int(rng.choice([0, 0, 0, 1, 2, 3, 3]))]
    a, b = rng.normal(size=2)
    m = _mode[1]
    if m == 3:
        m = int(rng.choice([0, 1, 2]))
    return complex(a, b) if m == 0 else complex(a, 0.) if m == 1 else complex(0., b)


def carr(rng, shape):
    """Array of complex normal numbers; often purely real or imaginary, with few entries, or of real type."""
    T = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    r = rng.random()
    if r < .12:
        T.imag = 0
    elif r < .24:
        T.real = 0
    elif r < .3:
        T = T.real.copy()
    elif r < .45:
        T = T * (rng.random(size=shape) < .1)
    elif r < .5:
        T.real[rng.random(size=shape) < .5] = 0
        T.imag[rng.random(size=shape) < .5] = 0
    return T


def part(z, real):
    """The number itself, or a real one not accidentally zero."""
    return (z.real or z.imag) if real else z
