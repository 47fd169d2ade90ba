"""Effective Lagrangians as functions of the fields.

Every operator of a basis is written down from its definition (Dirac, colour
and flavour structure).  An operator is a multilinear form in four Grassmann
fields; it is represented by its values on NDRAW random assignments of
spin-colour vectors, antisymmetrised over fields of the same flavour.  Two
coefficient sets in different bases describe the same physics exactly if these
values agree, so Fierz identities need not be known.
"""
import functools, itertools, math, re
import numpy as np

NDRAW = 24
I2 = np.eye(2)
S = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]
Z2 = np.zeros((2, 2))
G0 = np.block([[Z2, I2], [I2, Z2]]).astype(complex)
GAM = [G0] + [np.block([[Z2, s], [-s, Z2]]) for s in S]
G5 = 1j * GAM[0] @ GAM[1] @ GAM[2] @ GAM[3]
METRIC = [1, -1, -1, -1]
PL, PR, ONE = (np.eye(4) - G5) / 2, (np.eye(4) + G5) / 2, np.eye(4)
P = {'L': PL, 'R': PR, '': ONE}


def _prod(n):
    """Sum over Lorentz indices of (gamma^m1...gamma^mn) x (gamma_m1...gamma_mn) as a rank-4 tensor [a,b,c,d]."""
    out = np.zeros((4,) * 4, complex)
    for idx in itertools.product(range(4), repeat=n):
        m, s = np.eye(4, dtype=complex), 1
        for j in idx:
            m = m @ GAM[j]
            s *= METRIC[j]
        out += s * np.einsum('ab,cd->abcd', m, m)
    return out


def _sigma():
    out = np.zeros((4,) * 4, complex)
    for m, n in itertools.product(range(4), repeat=2):
        s = .5j * (GAM[m] @ GAM[n] - GAM[n] @ GAM[m])
        out += METRIC[m] * METRIC[n] * np.einsum('ab,cd->abcd', s, s)
    return out


BASE = {'S': _prod(0), 'V': _prod(1), 'T': _sigma(), '3': _prod(3), '4': _prod(4)}


@functools.lru_cache(None)
def dirac(kind, x, y):
    """Structure kind with projectors x, y to the right of the matrices."""
    return np.einsum('abcd,be,df->aecf', BASE[kind], P[x], P[y])


_rng = np.random.default_rng(20240607)


def _vec(n):
    return _rng.normal(size=(n, 2, 3, 4)) + 1j * _rng.normal(size=(n, 2, 3, 4))


UB, VV = _vec(NDRAW), _vec(NDRAW)          # [draw, slot, colour, spin]


def _field(f, slot, src):
    v = src[:, slot]
    if f[0] in 'en':
        w = np.zeros_like(v)
        w[:, 0] = v[:, 0]
        return w
    return v


@functools.lru_cache(None)
def _bilin(f1, s1, f2, s2):
    """Colour-singlet product of a bar slot and a field slot: [draw, spin, spin]."""
    return np.einsum('nia,nib->nab', _field(f1, s1, UB), _field(f2, s2, VV))


@functools.lru_cache(None)
def _value(kinds, f, a, b, c, d):
    """Value with bar slots (a, c) and field slots (b, d)."""
    kind, x, y, colour = kinds
    D = dirac(kind, x, y)
    out = 0
    if colour in ('1', '8'):
        m, n = _bilin(f[0], a, f[1], b).reshape(NDRAW, 16), _bilin(f[2], c, f[3], d).reshape(NDRAW, 16)
        out = out + np.einsum('np,np->n', m @ D.reshape(16, 16), n) * (1 if colour == '1' else -1 / 6)
    if colour in ('x', '8'):
        m, n = _bilin(f[0], a, f[3], d).reshape(NDRAW, 16), _bilin(f[2], c, f[1], b).reshape(NDRAW, 16)
        X = _crossed(kind, x, y)
        out = out + np.einsum('np,np->n', m @ X, n) * (1 if colour == 'x' else .5)
    return out


@functools.lru_cache(None)
def _crossed(kind, x, y):
    """dirac with index order (a, d, c, b)."""
    return np.ascontiguousarray(dirac(kind, x, y).transpose(0, 3, 2, 1)).reshape(16, 16)


def hconj(op):
    """Hermitian conjugate of an operator (kind, x, y, colour, fields)."""
    kind, x, y, colour, f = op
    flip = {'L': 'R', 'R': 'L', '': ''}
    if kind in 'V3':      # gamma_mu P_x and its conjugate gamma_mu P_x
        nx, ny = x, y
    else:
        nx, ny = flip[x], flip[y]
    return kind, nx, ny, colour, (f[1], f[0], f[3], f[2])


@functools.lru_cache(None)
def fingerprint(op):
    """{charge class: value vector} of a four-fermion operator."""
    kind, x, y, colour, f = op
    bars, flds = sorted((f[0], f[2])), sorted((f[1], f[3]))
    out = 0
    for a, c in ((0, 1), (1, 0)):
        if bars[a] != f[0] or bars[c] != f[2]:
            continue
        for b, d in ((0, 1), (1, 0)):
            if flds[b] != f[1] or flds[d] != f[3]:
                continue
            sign = (1 if a == 0 else -1) * (1 if b == 0 else -1)
            out = out + sign * _value((kind, x, y, colour), f, a, b, c, d)
    return (tuple(bars), tuple(flds)), out


class Term:
    """Coefficient k of a basis: L contains sum_j (scale_j * C) * op_j + h.c. unless self-conjugate."""
    def __init__(self, ops, real=False):
        self.ops = ops            # list of (complex factor, op); dipoles: op=('dipole', F or G, chir, f1, f2)
        self.real = real


def dip(op):
    _, F, chi, a, b = op
    return (F, a, b), np.array([1., 0]) if chi == 'R' else np.array([0, 1.])


def dip_h(op):
    _, F, chi, a, b = op
    return ('dipole', F, {'L': 'R', 'R': 'L'}[chi], b, a)


def parts(term):
    """Lists [(class, vector)] multiplying C and conj(C)."""
    A, B = [], []
    for s, op in term.ops:
        if op[0] == 'scalar':
            A.append((('scalar', op[1]), s * np.ones(1)))
            continue
        fp, h = (dip, dip_h) if op[0] == 'dipole' else (fingerprint, hconj)
        c, v = fp(op)
        A.append((c, s * v))
        if not term.real:
            c, v = fp(h(op))
            B.append((c, np.conj(s) * v))
    return A, B


def lagrangian(terms, C):
    """{class: vector} of the Lagrangian with coefficients C; unknown names raise KeyError."""
    L = {}
    for k, x in C.items():
        if x == 0:
            continue
        A, B = cached_parts(terms, k)
        for c, v in A:
            L[c] = L.get(c, 0) + x * v
        for c, v in B:
            L[c] = L.get(c, 0) + np.conj(x) * v
    return L


def cached_parts(terms, k):
    store = terms.setdefault('__parts__', {})
    if k not in store:
        store[k] = parts(terms[k])
    return store[k]


def distance(L1, L2):
    """Largest relative difference and the class where it occurs; relative to the size of each class."""
    worst, wc = 0., None
    top = max([np.max(np.abs(v)) for v in list(L1.values()) + list(L2.values())] + [1e-300])
    for c in set(L1) | set(L2):
        a, b = L1.get(c, 0), L2.get(c, 0)
        d = float(np.max(np.abs(a - b)) / max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-13 * top))
        if not d <= worst:
            worst, wc = d, c
    return worst, wc


# ---- basis definitions ------------------------------------------------------------

Q = {'d': 'd1', 's': 'd2', 'b': 'd3', 'u': 'u1', 'c': 'u2', 't': 'u3'}
L = {'e': 'e1', 'mu': 'e2', 'tau': 'e3'}
N = {'nue': 'n1', 'numu': 'n2', 'nutau': 'n3'}
ALL = dict(Q, **L, **N)


def split_fields(s, n, allowed=ALL):
    """All ways of cutting s into n field names."""
    if n == 0:
        return [[]] if s == '' else []
    out = []
    for k in allowed:
        if s.startswith(k):
            out += [[k] + r for r in split_fields(s[len(k):], n - 1, allowed)]
    return out


_jms_re = re.compile(r'^([VST])([18]?)((?:nu|[ude])+?)(LL|RR|LR|RL)_(\d{4})$')


def jms_op(k):
    m = _jms_re.match(k)
    if m:
        kind, col, fl, chi, idx = m.groups()
        names = re.findall('nu|[ude]', fl)
        if len(names) == 2:
            names = [names[0]] * 2 + [names[1]] * 2
        if len(names) == 1 or len(names) != 4:
            return None
        f = tuple((n if n != 'nu' else 'n') + i for n, i in zip(names, idx))
        return (kind, chi[0], chi[1], {'': '1', '1': '1', '8': '8'}[col], f)
    m = re.match(r'^([ude])(gamma|G)_(\d)(\d)$', k)
    if m:
        q, F, a, b = m.groups()
        return ('dipole', F, 'R', q + a, q + b)
    if k in ('G', 'Gtilde'):
        return ('scalar', k)
    return None


def jms(real):
    """Terms of the JMS basis (baryon-number conserving part)."""
    out = {}
    for k in real:
        op = jms_op(k)
        if op is not None:
            out[k] = Term([(1, op)], real[k])
    return out


def pref(p):
    return 4 * p['GF'] / math.sqrt(2)


def ckm(p):
    import ckmutil.ckm
    return ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])


def bern(real, p):
    out = {}
    g = pref(p)
    e, gs = math.sqrt(4 * math.pi * p['alpha_e']), math.sqrt(4 * math.pi * p['alpha_s'])
    for k in real:
        m = re.match(r'^(7|7p|8|8p)(gamma|g)([ds])([sb])$', k)
        if m:
            n, F, a, b = m.groups()
            mq = p['m_b'] if b == 'b' else p['m_s']
            s = g * (e / gs**2 if F == 'gamma' else 1 / gs) * mq
            out[k] = Term([(s, ('dipole', {'gamma': 'gamma', 'g': 'G'}[F], 'L' if n[-1] == 'p' else 'R', Q[a], Q[b]))], real[k])
            continue
        m = re.match(r'^nu1(p?)([ds])([sb])(e|mu|tau)(e|mu|tau)$', k)
        if m:
            pr, a, b, l1, l2 = m.groups()
            out[k] = Term([(g, ('V', 'R' if pr else 'L', 'L', '1', (Q[a], Q[b], N['nu' + l1], N['nu' + l2])))], real[k])
            continue
        m = re.match(r'^(\d+)(p?)(.*)$', k)
        n, pr, fl = int(m.group(1)), m.group(2), m.group(3)
        if fl[0] in 'uc' and fl[1] in 'dsb':                       # charged currents
            (l1, l2), = split_fields(fl[2:], 2, L)
            f = (Q[fl[0]], Q[fl[1]], L[l1], N['nu' + l2])
            kind, x, y = {(1, ''): ('V', 'L', 'L'), (1, 'p'): ('V', 'R', 'L'), (5, ''): ('S', 'R', 'L'),
                          (5, 'p'): ('S', 'L', 'L'), (7, 'p'): ('T', 'L', 'L')}[n, pr]
            out[k] = Term([(g, (kind, x, y, '1', f))], real[k])
            continue
        rest = fl[2:]
        if len(rest) == 2 and rest == fl[:2] and rest[0] in Q:     # Delta F = 2
            f = (Q[fl[0]], Q[fl[1]]) * 2
            h, o = ('R', 'L') if pr else ('L', 'R')
            op = {1: ('V', h, h, '1'), 2: ('S', h, h, '1'), 3: ('S', h, h, 'x'), 4: ('S', h, o, '1'), 5: ('S', h, o, 'x')}[n]
            out[k] = Term([(g, op + (f,))], real[k])
            continue
        ff = split_fields(rest, 2, dict(Q, **L))
        assert len(ff) == 1, (k, ff)
        f = (Q[fl[0]], Q[fl[1]]) + tuple(ALL[z] for z in ff[0])
        kind = {1: 'V', 3: '3', 5: 'S', 7: 'T', 9: '4'}[n if n % 2 else n - 1]
        h = 'L' if kind in 'V3' else 'R'
        # four-quark operators with the first and third field equal use the opposite naming for scalars and tensors
        swap = bool(pr) ^ (kind in 'ST4' and rest in ('ss', 'dd', 'ds', 'sd') and f[0] == f[2])
        if kind in 'V3':
            swap = bool(pr)
        if swap:
            h = {'L': 'R', 'R': 'L'}[h]
        out[k] = Term([(g, (kind, h, '', '1' if n % 2 else '8', f))], real[k])
    return out


def flavio(real, p):
    """flavio basis; flavour-conserving operators are written in the order of the fields and normalised with GF."""
    out = {}
    g, V = pref(p), ckm(p)
    e, gs = math.sqrt(4 * math.pi * p['alpha_e']), math.sqrt(4 * math.pi * p['alpha_s'])
    xi = {'bs': V[2, 2] * V[2, 1].conj(), 'bd': V[2, 2] * V[2, 0].conj(), 'sd': V[2, 1] * V[2, 0].conj(), 'cu': V[1, 2].conj() * V[0, 2]}
    mq = {'bs': p['m_b'], 'bd': p['m_b'], 'sd': p['m_s'], 'cu': p['m_c']}
    row = {'u': 0, 'c': 1, 'd': 0, 's': 1, 'b': 2}
    mass = dict({q: p['m_' + q] for q in 'ucdsb'}, e=p['m_e'], mu=p['m_mu'], tau=p['m_tau'])
    for k in real:
        if k in ('CG', 'CGtilde'):
            out[k] = Term([(g, ('scalar', k[1:]))], True)
            continue
        n, fl = k.split('_')
        m = re.match(r'^C([78])(p?)$', n)
        if m:
            F, c = {'7': ('gamma', e), '8': ('G', gs)}[m.group(1)]
            if fl in xi:
                a, b = fl
                out[k] = Term([(g * xi[fl] * mq[fl] * c / 16 / math.pi**2, ('dipole', F, 'L' if m.group(2) else 'R', Q[b], Q[a]))], real[k])
            else:
                (q1, q2), = [z for z in split_fields(fl, 2) if z[0] == z[1]]
                out[k] = Term([(g * mass[q1] * c / 16 / math.pi**2, ('dipole', F, 'R', ALL[q1], ALL[q2]))], real[k])
            continue
        if n == 'Cgamma':
            (a, b), = split_fields(fl, 2, L)
            out[k] = Term([(1, ('dipole', 'gamma', 'R', L[b], L[a]))], real[k])
            continue
        m = re.match(r'^C(9|10|S|P)(p?)$', n)
        if m:
            o, pr = m.groups()
            q = fl[:2]
            (l2, l1), = split_fields(fl[2:], 2, L)
            f = (Q[q[1]], Q[q[0]], L[l1], L[l2])
            s = g * xi[q] * e**2 / 16 / math.pi**2
            if o in ('9', '10'):
                h = 'R' if pr else 'L'
                t = -1 if o == '10' else 1
                ops = [(s, ('V', h, 'R', '1', f)), (s * t, ('V', h, 'L', '1', f))]
            else:
                h = 'L' if pr else 'R'
                t = -1 if o == 'P' else 1
                s = s * mq[q]
                ops = [(s, ('S', h, 'R', '1', f)), (s * t, ('S', h, 'L', '1', f))]
            out[k] = Term(ops, real[k])
            continue
        if n in ('CL', 'CR'):
            q = fl[:2]
            (l2, l1), = split_fields(fl[2:], 2, N)
            out[k] = Term([(g * xi[q] * e**2 / 8 / math.pi**2, ('V', n[1], 'L', '1', (Q[q[1]], Q[q[0]], N[l1], N[l2])))], real[k])
            continue
        m = re.match(r'^C(VL|VR|SL|SR|T)$', n)
        if m:
            q = fl[:2]
            (l1, nu), = split_fields(fl[2:], 2, dict(L, **N))
            kind, x, y = {'VL': ('V', 'L', 'L'), 'VR': ('V', 'R', 'L'), 'SL': ('S', 'L', 'L'), 'SR': ('S', 'R', 'L'), 'T': ('T', 'L', 'L')}[m.group(1)]
            out[k] = Term([(-g * V[row[q[1]], row[q[0]]], (kind, x, y, '1', (Q[q[1]], Q[q[0]], L[l1], N[nu])))], real[k])
            continue
        m = re.match(r'^C([VST])([18]?)(LL|RR|LR|RL)(t?)$', n)
        kind, col, chi, t = m.groups()
        cut = [z for z in split_fields(fl, 4)]
        if len(cut) > 1:      # 'e' + 'mu...' etc. are unique; names such as 'nue' vs 'nu'+'e' cannot occur
            raise ValueError(k)
        z = cut[0]
        f = (ALL[z[1]], ALL[z[0]], ALL[z[3]], ALL[z[2]])
        s, colour = 1, {'': '1', '1': '1', '8': '8'}[col]
        quarks = all(x in Q for x in z)
        if quarks and fl[:2] == fl[2:] and fl[:2] in ('bs', 'bd', 'sd', 'uc'):
            s = 1
        elif quarks and fl[:2] in xi and fl[2] == fl[3]:
            s = g * xi[fl[:2]]
            colour = 'x' if t else '1'
        elif sorted(z[0::2]) == sorted(z[1::2]) or (z[0] in N and z[1] in N and z[2] == z[3]):
            s = g
            f = tuple(ALL[x] for x in z)
        out[k] = Term([(s, (kind, chi[0], chi[1], colour, f))], real[k])
    return out


# ---- inversion --------------------------------------------------------------------

class Solver:
    """Coefficients of a basis from a Lagrangian, component by component (real-linear least squares)."""

    def __init__(self, terms):
        self.terms = terms
        keys = [k for k in terms if k != '__parts__']
        comp = {}                      # class -> component id
        parent = {}

        def find(x):
            while parent.setdefault(x, x) != x:
                x = parent[x]
            return x
        self.cls = {}
        for k in keys:
            A, B = cached_parts(terms, k)
            cs = [c for c, _ in A + B]
            self.cls[k] = cs
            for c in cs[1:]:
                parent[find(c)] = find(cs[0])
            find(cs[0])
        self.find = find
        self.groups = {}
        for k in keys:
            self.groups.setdefault(find(self.cls[k][0]), []).append(k)
        self.parent = parent
        self.mat = {}

    def component(self, c):
        return self.find(c) if c in self.parent else None

    def _matrix(self, g):
        if g not in self.mat:
            ks = self.groups[g]
            classes = sorted({c for k in ks for c in self.cls[k]}, key=str)
            cols, ref = [], []
            for k in ks:
                for unit, tag in ((1., 'r'), (1j, 'i')):
                    if tag == 'i' and self.terms[k].real:
                        continue
                    L = lagrangian(self.terms, {k: unit})
                    cols.append(self._stack(L, classes))
                    ref.append((k, unit))
            M = np.array(cols).T
            norm = np.linalg.norm(M, axis=0)
            norm[norm == 0] = 1
            self.mat[g] = classes, ref, M / norm, norm
        return self.mat[g]

    def _stack(self, L, classes):
        out = []
        for c in classes:
            n = 1 if c[0] == 'scalar' else (2 if c[0] in ('gamma', 'G') else NDRAW)
            v = np.broadcast_to(np.asarray(L.get(c, 0), complex), (n,))
            out += [v.real, v.imag]
        return np.concatenate(out)

    def rank(self, g):
        classes, ref, M, norm = self._matrix(g)
        return int(np.linalg.matrix_rank(M, tol=1e-9)), len(ref)

    def solve(self, L):
        """(coefficients, classes that cannot be expressed)."""
        out, bad = {}, []
        seen = set()
        for c in L:
            g = self.component(c)
            if g is None:
                if np.max(np.abs(L[c])) > 0:
                    bad.append(c)
                continue
            if g in seen:
                continue
            seen.add(g)
            classes, ref, M, norm = self._matrix(g)
            b = self._stack(L, classes)
            x, *_ = np.linalg.lstsq(M, b, rcond=1e-9)
            if np.linalg.norm(M @ x - b) > 1e-9 * np.linalg.norm(b):
                bad += [q for q in classes if q in L]
                continue
            for (k, unit), y, n in zip(ref, x, norm):
                out[k] = out.get(k, 0) + unit * y / n
        return out, bad


# ---- one-way bases ----------------------------------------------------------------

def eos(p):
    """EOS: complex coefficients; the names of the b->s ones are without Re/Im."""
    out = {}
    g, V = pref(p), ckm(p)
    e, gs = math.sqrt(4 * math.pi * p['alpha_e']), math.sqrt(4 * math.pi * p['alpha_s'])
    lt = V[2, 2] * V[2, 1].conj()
    f = ('d2', 'd3') * 2
    for n, op in (('c1', ('V', 'L', 'L', '1')), ("c1'", ('V', 'R', 'R', '1')), ('c2', ('S', 'L', 'L', '1')), ("c2'", ('S', 'R', 'R', '1')),
                  ('c3', ('S', 'L', 'L', 'x')), ("c3'", ('S', 'R', 'R', 'x')), ('c4', ('S', 'L', 'R', '1')), ('c5', ('S', 'L', 'R', 'x'))):
        out['sbsb::' + n] = Term([(g * lt**2, op + (f,))])
    for q, d, l in (('sb', 'd2', 'd3'), ('db', 'd1', 'd3')):
        s = g * V[1, 2] * V[0, int(d[1]) - 1].conj()
        for n in range(1, 11):
            for pr in ('', "'"):
                kind = {1: 'V', 3: '3', 5: 'S', 7: 'T', 9: '4'}[n if n % 2 else n - 1]
                h = ('L' if kind in 'V3' else 'R')
                if pr:
                    h = {'L': 'R', 'R': 'L'}[h]
                out[f'{q}cu::c{n}{pr}'] = Term([(s, (kind, h, '', '1' if n % 2 else '8', (d, l, 'u2', 'u1')))])
    for u, r in (('u', 0), ('c', 1)):
        for l in L:
            fields = (Q[u], 'd3', L[l], N['nu' + l])
            for n, (kind, x, y) in {'cVL': ('V', 'L', 'L'), 'cVR': ('V', 'R', 'L'), 'cSL': ('S', 'L', 'L'), 'cSR': ('S', 'R', 'L'), 'cT': ('T', 'L', 'L')}.items():
                out[f'{u}b{l}nu{l}::{n}'] = Term([(-g * V[r, 2], (kind, x, y, '1', fields))])
    for l in ('e', 'mu'):
        s = g * lt * e**2 / 16 / math.pi**2
        fields = ('d2', 'd3', L[l], L[l])
        for n, ops in {'c9': [('V', 'L', 'L', 1), ('V', 'L', 'R', 1)], 'c10': [('V', 'L', 'L', -1), ('V', 'L', 'R', 1)],
                       'cS': [('S', 'R', 'L', 1), ('S', 'R', 'R', 1)], 'cP': [('S', 'R', 'L', -1), ('S', 'R', 'R', 1)]}.items():
            out[f'b->s{l}{l}::{n}'] = Term([(s * t, (k, x, y, '1', fields)) for k, x, y, t in ops])
            fl = {'L': 'R', 'R': 'L'}
            out[f"b->s{l}{l}::{n}'"] = Term([(s * t, (k, fl[x], y, '1', fields)) for k, x, y, t in ops])
        out[f'b->s{l}{l}::cT'] = Term([(s, ('T', 'L', 'L', '1', fields)), (s, ('T', 'R', 'R', '1', fields))])
        out[f'b->s{l}{l}::cT5'] = Term([(-s, ('T', 'L', 'L', '1', fields)), (s, ('T', 'R', 'R', '1', fields))])
    for n, F, c in (('7', 'gamma', e), ('8', 'G', gs)):
        for pr, h in (('', 'R'), ("'", 'L')):
            out[f'b->s::c{n}{pr}'] = Term([(g * lt * p['m_b'] * c / 16 / math.pi**2, ('dipole', F, h, 'd2', 'd3'))])
    for n, col in (('1', '8'), ('2', '1')):
        out['b->s::c' + n] = Term([(g * lt, ('V', 'L', 'L', col, ('d2', 'u2', 'u2', 'd3')))])
    for n, kind, col in (('3', 'V', '1'), ('4', 'V', '8'), ('5', '3', '1'), ('6', '3', '8')):
        out['b->s::c' + n] = Term([(g * lt, (kind, 'L', '', col, ('d2', 'd3', q, q))) for q in ('u1', 'd1', 'd2', 'u2', 'd3')])
    return out


def formflavor(p):
    """FormFlavor: Delta F = 2, b -> q mu mu, s -> d nu nu (flavour universal), dipoles divided by their coupling."""
    out = {}
    e, gs = math.sqrt(4 * math.pi * p['alpha_e']), math.sqrt(4 * math.pi * p['alpha_s'])
    for n, f in (('bsbs', ('d2', 'd3')), ('bdbd', ('d1', 'd3')), ('sdsd', ('d1', 'd2')), ('cucu', ('u1', 'u2'))):
        for o, op in {'CVLL': 'VLL', 'CVRR': 'VRR', 'CVLR': 'VLR', 'CSLL': 'SLL', 'CSRR': 'SRR', 'CSLR': 'SLR', 'CTLL': 'TLL', 'CTRR': 'TRR'}.items():
            out[f'{o}_{n}'] = Term([(1, (op[0], op[1], op[2], '1', f * 2))])
    for q, d in (('bs', 'd2'), ('bd', 'd1')):
        for o in 'VLL VRR VLR VRL SLL SRR SLR SRL TLL TRR'.split():
            out[f'C{o}_{q}mm'] = Term([(1, (o[0], o[1], o[2], '1', (d, 'd3', 'e2', 'e2')))])
    for h in 'LR':
        out[f'CV{h}L_sdnn'] = Term([(1, ('V', h, 'L', '1', ('d1', 'd2', n, n))) for n in ('n1', 'n2', 'n3')])
    for o, F, c in (('A', 'gamma', e), ('G', 'G', gs)):
        for n, f in {'sb': ('d2', 'd3'), 'db': ('d1', 'd3'), 'uu': ('u1', 'u1'), 'dd': ('d1', 'd1'), 'mt': ('e2', 'e3'), 'em': ('e1', 'e2'), 'et': ('e1', 'e3')}.items():
            if f[0][0] == 'e' and o == 'G':
                continue
            for h in 'LR':
                out[f'C{o}{h}_{n}'] = Term([(c, ('dipole', F, h) + f)])
    return out


def flavorkit(names, p):
    """FlavorKit: X_ijkl multiplies (psi_j-bar psi_i)(psi_l-bar psi_k); the letter gives the fermion types."""
    types = {'A': 'eeee', 'B': 'eedd', 'C': 'eeuu', 'D': 'dddd', 'E': 'ddee', 'F': 'ddnn', 'G': 'dune'}
    out = {}
    e = math.sqrt(4 * math.pi * p['alpha_e'])
    m = {'1': p['m_e'], '2': p['m_mu'], '3': p['m_tau']}
    for k in names:
        n, ind = k.split('_')
        if n == 'K2R':
            out[k] = Term([(.5 * e * m[ind[0]], ('dipole', 'gamma', 'R', 'e' + ind[1], 'e' + ind[0]))])
        elif n in ('Q1R', 'Q2R'):
            out[k] = Term([(1, ('dipole', 'gamma' if n == 'Q1R' else 'G', 'R', 'd' + ind[1], 'd' + ind[0]))])
        else:
            t = [a + b for a, b in zip(types[n[0]], ind)]
            out[k] = Term([(1, (n[1], n[2], n[3], '1', (t[1], t[0], t[3], t[2])))])
    return out
