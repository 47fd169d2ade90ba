"""DsixTools converter: files and coefficients carry the same content in both directions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, smeftgen, clirun
from mon import Family
import copy, io, json, math, tempfile, shutil
import numpy as np

SMK = ['g', 'gp', 'gs', 'Lambda', 'm2', 'Gu', 'Gd', 'Ge']          # the theta angles are read but not part of the coefficients
ZERO = {  # block and number of each coefficient without fermions, from the DsixTools manual
    'G': (1, 1), 'Gtilde': (1, 2), 'W': (1, 3), 'Wtilde': (1, 4), 'phi': (2, 1), 'phiBox': (3, 1), 'phiD': (3, 2), 'phiG': (4, 1), 'phiB': (4, 2),
    'phiW': (4, 3), 'phiWB': (4, 4), 'phiGtilde': (4, 5), 'phiBtilde': (4, 6), 'phiWtilde': (4, 7), 'phiWtildeB': (4, 8)}


def D():
    from wilson.wcxf.converters import dsixtools
    return dsixtools


def reals():
    from wilson import wcxf
    b = wcxf.Basis['SMEFT', 'Warsaw']
    return {k: bool((v or {}).get('real')) for s in b.sectors.values() for k, v in s.items()}


def draw(rng, n=None, hostile=False):
    real = reals()
    keys = sorted(real)
    full = n is None and rng.random() < .2      # every part of every coefficient
    n = n if n is not None else len(keys) if full else int(rng.choice([0, 1, 3, 20, 300, len(keys)]))
    d = {}
    for j in rng.choice(len(keys), size=min(n, len(keys)), replace=False):
        k = keys[j]
        z = (complex(*rng.normal(size=2)) if full else gen.cplx(rng)) * 10.0**rng.uniform(-14, -3)
        r = int(rng.integers(6))
        z = z if r > 1 or full else (1j * z.imag if r else complex(z.real))
        d[k] = gen.part(z, real[k])
        if real[k] and d[k] == 0:
            d[k] = 1e-7
    return d


def power(k):
    return 1 if k.startswith('llphiphi') else 2


def parse(text):
    """Own reader: {BLOCK: {index tuple: value}}, refusing duplicates."""
    out, cur = {}, None
    for line in text.splitlines():
        line = line.split('#')[0].split()
        if not line:
            continue
        if line[0].upper() == 'BLOCK':
            cur = out.setdefault(line[1].upper(), {})
            continue
        t = tuple(int(x) for x in line[:-1])
        assert t not in cur, f'duplicate {t}'
        cur[t] = float(line[-1])
    return out


def fromdict(d):
    out = {}
    for name, b in d['BLOCK'].items():
        out[name.upper()] = {}
        for row in b['values']:
            t = tuple(int(x) for x in row[:-1])
            assert t not in out[name.upper()], f'duplicate {t}'
            out[name.upper()][t] = float(row[-1])
    return out


def blocks(d, L):
    """Expected content for exchange-format coefficients d at new-physics scale L."""
    out = {}
    for k, v in d.items():
        v = complex(v) * L**power(k)
        if k in ZERO:
            b, n = ZERO[k]
            if v.real:
                out.setdefault(f'WC{b}', {})[(n,)] = v.real
            continue
        name, i = k.split('_')
        t = tuple(int(c) for c in i)
        if v.real:
            out.setdefault('WC' + name.upper(), {})[t] = v.real
        if v.imag:
            out.setdefault('IMWC' + name.upper(), {})[t] = v.imag
    return out


def same(mon, got, want, key, tol=1e-12):
    mon.event(sum(len(v) for v in want.values()) + 1)
    if set(got) != set(want):
        return mon.violate(key + ':blocks', f'missing {sorted(set(want) - set(got))[:5]} extra {sorted(set(got) - set(want))[:5]}')
    for b in want:
        if set(got[b]) != set(want[b]):
            return mon.violate(key + ':entries', f'{b}: missing {sorted(set(want[b]) - set(got[b]))[:5]} extra {sorted(set(got[b]) - set(want[b]))[:5]}')
        for t, v in want[b].items():
            if not abs(got[b][t] - v) <= tol * abs(v):
                return mon.violate(key + ':values', f'{b} {t}: {got[b][t]!r} expected {v!r}')


def content(mon, C, d, L, key, tol=1e-12):
    """The arrays: listed coefficients times the power of the scale, operator symmetries, zeros elsewhere."""
    from wilson.util import smeftutil
    names = {}
    for k, v in d.items():
        names.setdefault(k.split('_')[0], {})[k] = complex(v) * L**power(k)
    allidx = eft.nonred_indices(sorted(reals()))
    for name, idx in allidx.items():
        mon.event()
        if name not in C:
            mon.violate(key + ':missing', name)
            continue
        given = names.get(name, {})
        T = np.asarray(C[name])
        if idx is None:
            v = given.get(name, 0)
            mon.check(abs(complex(T) - v) <= tol * abs(v), key + ':scalar', f'{name}: {T} expected {v}')
            continue
        cls = eft.SMEFT_CLASS[name]
        vals = {t: given.get(name + '_' + ''.join(str(j + 1) for j in t), 0) for t in idx}
        mon.eq(T.shape, (3,) * len(idx[0]), key + ':shape', name)
        if cls == 8:
            bad = max(abs(T[t] - v) for t, v in vals.items())
            P = np.einsum('ab,bl->al', eft.proj8(), T.reshape(27, 3)).reshape(T.shape)
            bad = max(bad, abs(P - T).max() / 10)
        else:
            bad = abs(T - eft.orbit_fill(vals, cls, T.shape)).max()
        top = max(abs(v) for v in vals.values())
        mon.check(bad <= tol * top, key + ':array', f'{name}: off by {bad:.2e} of {top:.2e}')


def wcin(d, scale):
    from wilson import wcxf
    return wcxf.WC('SMEFT', 'Warsaw', scale, wcxf.WC.dict2values(d))


def arrays(rng, mon, i):
    """Exchange format -> arrays -> exchange format, with any choice of the new-physics scale."""
    d = draw(rng)
    sc = float(10.0**rng.uniform(2, 5))
    w = wcin(d, sc)
    v0 = copy.deepcopy(w.values)
    s = D().SMEFTio()
    how = int(rng.integers(4))
    L = sc
    if how == 1:
        L = float(10.0**rng.uniform(2, 5))
        s.set_initial_wcxf(w, scale_high=L)
    elif how == 2:                  # a previously defined value is used
        L = float(10.0**rng.uniform(2, 5))
        s.set_initial_wcxf(wcin(draw(rng, 3), 200.), scale_high=L)
        s.set_initial_wcxf(w)
    elif how == 3:
        s.load_wcxf(w.dump(fmt=['json', 'yaml'][int(rng.integers(2))]))
    else:
        s.set_initial_wcxf(w)
    mon.eq((s.scale_in, s.scale_high), (sc, L), 'scales', f'{how}')
    mon.eq(w.values, v0, 'input-mutated')
    content(mon, s.C_in, d, L, 'set')
    # and back
    C0 = copy.deepcopy(s.C_in)
    out = float(10.0**rng.uniform(2, 5))
    r = s.get_wcxf(s.C_in, out)
    mon.eq((r.eft, r.basis, r.scale), ('SMEFT', 'Warsaw', out), 'header')
    mon.check(all(np.array_equal(C0[k], s.C_in[k]) for k in C0), 'get-mutates', '')
    got, want = dict(r.dict), {k: v for k, v in d.items() if v != 0}
    mon.eq(sorted(got), sorted(want), 'back:keys', f'{how}')
    for k in want:
        mon.check(abs(got.get(k, 0) - want[k]) <= 1e-12 * abs(want[k]), 'back:values', f'{k}: {got.get(k)} vs {want[k]}')
    r.validate()
    from wilson import wcxf
    fmt = ['yaml', 'json'][int(rng.integers(2))]
    r2 = wcxf.WC.load(s.dump_wcxf(s.C_in, out, fmt=fmt))
    mon.eq((dict(r2.dict), r2.scale), (got, out), 'dump_wcxf', fmt)
    mon.case('arrays', len(d), sc, L, how, i)


def dumps(rng, mon, i):
    """Arrays -> DsixTools file in each format: each independent non-zero entry exactly once."""
    d = draw(rng)
    sc = float(10.0**rng.uniform(2, 5))
    L = float(10.0**rng.uniform(2, 5))
    s = D().SMEFTio()
    s.set_initial_wcxf(wcin(d, sc), scale_high=L)
    out = [None, float(10.0**rng.uniform(2, 4))][int(rng.integers(2))]
    want = blocks(d, L)
    want['SCALES'] = {(1,): L} if out is None else {(1,): L, (2,): out}
    kind = int(rng.integers(3))         # coefficients without fermions may be of any number type, e.g. after running
    for k in ZERO:
        s.C_in[k] = [lambda x: x, lambda x: np.float64(complex(x).real), lambda x: np.complex128(x)][kind](s.C_in[k])
    C0 = copy.deepcopy(s.C_in)
    for fmt in ('lha', 'json', 'yaml'):
        if fmt == 'yaml' and len(d) > 300:
            continue                                        # slow library
        text = s.dump(s.C_in, scale_out=out, fmt=fmt) if fmt != 'lha' or i % 2 else s.dump(s.C_in, scale_out=out)
        if fmt == 'lha':
            got = parse(text)
        elif fmt == 'json':
            got = fromdict(json.loads(text))
        else:
            import yaml
            got = fromdict(yaml.safe_load(text))
        same(mon, got, want, f'dump:{fmt}')
        same(mon, fromdict(D().load(text, fmt=fmt)), want, f'load:{fmt}')
        same(mon, fromdict(D().load(io.StringIO(text), fmt=fmt)), want, f'load-stream:{fmt}')
        f = io.StringIO()
        s.dump(s.C_in, scale_out=out, stream=f, fmt=fmt)
        mon.eq(f.getvalue(), text, f'stream:{fmt}')
    mon.check(all(np.array_equal(C0[k], s.C_in[k]) for k in C0), 'dump-mutates', '')
    # the one-step function
    w = wcin(d, sc)
    want = blocks(d, sc)
    want['SCALES'] = {(1,): sc}
    same(mon, parse(D().wcxf2dsixtools(w)), want, 'wcxf2dsixtools')
    f = io.StringIO()
    D().wcxf2dsixtools(w, stream=f)
    same(mon, parse(f.getvalue()), want, 'wcxf2dsixtools-stream')
    # including redundant entries: nothing but images of the independent ones, all of them
    text = s.dump(s.C_in, skip_redundant=False)
    got = parse(text)
    want = {}
    for name, T in s.C_in.items():
        T = np.asarray(T)
        if T.ndim == 0:
            continue
        for t, v in np.ndenumerate(T):
            t = tuple(j + 1 for j in t)
            if v.real:
                want.setdefault('WC' + name.upper(), {})[t] = v.real
            if v.imag:
                want.setdefault('IMWC' + name.upper(), {})[t] = v.imag
    got = {k: v for k, v in got.items() if not (k[2:].isdigit() or k == 'SCALES')}
    same(mon, got, want, 'dump-redundant')
    mon.count('entries', sum(len(v) for v in want.values()))
    mon.case('dumps', len(d), sc, L, out, i)


def smpoint(rng):
    sm = {k: float(rng.normal()) for k in ('g', 'gp', 'gs', 'Lambda')}
    sm['m2'] = float(rng.uniform(1e3, 1e4))
    cplx = [k for k in ('Gu', 'Gd', 'Ge') if rng.random() < .7]
    for k in ('Gu', 'Gd', 'Ge'):
        sm[k] = rng.normal(size=(3, 3)) + (1j * rng.normal(size=(3, 3)) if k in cplx else 0j)
    th = rng.random() < .5
    for k in ('Theta', 'Thetap', 'Thetas'):
        sm[k] = float(rng.normal()) if th else 0
    return sm, cplx, th


def write(rng, content_):
    """Own writer with variations in layout."""
    names = list(content_)
    names = [names[j] for j in rng.permutation(len(names))]
    out = []
    for n in names:
        out.append(['Block ', 'BLOCK ', 'block '][int(rng.integers(3))] + n + ['', ' # comment', '  '][int(rng.integers(3))])
        rows = list(content_[n].items())
        rows = [rows[j] for j in rng.permutation(len(rows))]
        for t, v in rows:
            if rng.random() < .1:
                out.append('# a comment 1 2 3')
            s = [repr(float(v)), f'{v:.16e}', f'{v:.16E}'][int(rng.integers(3))]
            if v == int(v) and abs(v) < 1e6 and rng.random() < .5:
                s = str(int(v))
            sep = [' ', '   ', '\t'][int(rng.integers(3))]
            out.append(['', '  ', '    '][int(rng.integers(3))] + sep.join(map(str, t)) + sep + s + ['', '\t# C(1,2)', ' # 1'][int(rng.integers(3))])
    return '\n'.join(out) + '\n'


def loads(rng, mon, i):
    """DsixTools files -> arrays and exchange format."""
    d = draw(rng)
    L = [float(10.0**rng.uniform(2, 5)), 10000.][int(rng.integers(2))]
    sm, cplx, th = smpoint(rng)
    body = blocks(d, L)
    if rng.random() < .3:      # explicit zeros are allowed
        body.setdefault('WCUG', {}).setdefault((1, 2), 0.)
        body.setdefault('WC2', {}).setdefault((1,), 0.)
    smb = {'GAUGE': {(1,): sm['g'], (2,): sm['gp'], (3,): sm['gs']}, 'SCALAR': {(1,): sm['Lambda'], (2,): sm['m2']}}
    for k in ('Gu', 'Gd', 'Ge'):
        smb[k.upper()] = {(a + 1, b + 1): v.real for (a, b), v in np.ndenumerate(sm[k])}
        if k in cplx:
            smb['IM' + k.upper()] = {(a + 1, b + 1): v.imag for (a, b), v in np.ndenumerate(sm[k])}
    if th:
        smb['THETA'] = {(1,): sm['Theta'], (2,): sm['Thetap'], (3,): sm['Thetas']}
        if rng.random() < .3:      # angles that are not given are zero
            j = int(rng.integers(3))
            del smb['THETA'][(j + 1,)]
            sm[('Theta', 'Thetap', 'Thetas')[j]] = 0
    opt = {'SCALES': {(1,): L, (2,): 80.385}, 'OPTIONS': {(1,): 1, (2,): 0}}
    parts = [body, smb, opt]
    layout = int(rng.integers(4))
    if layout == 0:
        texts = [write(rng, p) for p in parts if p]
    elif layout == 1:
        texts = [write(rng, {**body, **smb, **opt})]
    elif layout == 2:
        texts = [write(rng, smb), write(rng, {**body, **opt})]
    else:
        texts = [write(rng, {**smb, **opt})] + [write(rng, {b: v}) for b, v in body.items()]
    texts = [texts[j] for j in rng.permutation(len(texts))]
    mk = (lambda: tuple(io.StringIO(t) for t in texts)) if rng.random() < .5 else (lambda: tuple(texts))
    s = D().SMEFTio()
    s.load_initial(mk())
    mon.eq((s.scale_in, s.scale_high), (L, L), 'load:scales')
    content(mon, s.C_in, d, L, 'load', tol=1e-13 if layout != 9 else 0)
    for k in SMK:
        mon.check(np.allclose(s.C_in[k], sm[k], rtol=1e-14, atol=0) and np.shape(s.C_in[k]) == np.shape(sm[k]), 'load:sm', f'{k}: {s.C_in[k]} vs {sm[k]}')
    import pylha
    lone = D().sm_lha2dict(pylha.load(write(rng, smb)))
    for k in ('Theta', 'Thetap', 'Thetas'):
        mon.check(np.shape(lone[k]) == () and abs(lone[k] - sm[k]) <= 1e-14 * abs(sm[k]), 'load:theta', f'{k}: {lone[k]} vs {sm[k]}')
    from wilson import wcxf
    r = wcxf.WC.load(D().dsixtools2wcxf(mk()))
    mon.eq((r.eft, r.basis, r.scale), ('SMEFT', 'Warsaw', L), 'dsixtools2wcxf:header')
    got, want = dict(r.dict), {k: v for k, v in d.items() if v != 0}
    mon.eq(sorted(got), sorted(want), 'dsixtools2wcxf:keys')
    for k in want:
        mon.check(abs(got.get(k, 0) - want[k]) <= 1e-12 * abs(want[k]), 'dsixtools2wcxf:values', f'{k}: {got.get(k)} vs {want[k]}')
    r.validate()
    # SM blocks written by the converter are read back
    lha = D().sm_dict2lha(sm)
    back = D().sm_lha2dict(lha)
    for k in SMK + ['Theta', 'Thetap', 'Thetas']:
        mon.check(np.array_equal(back[k], sm[k]), 'sm-blocks', k)
    # a file with all redundant entries means the same as one without
    s2 = D().SMEFTio()
    s2.load_initial((s.dump(s.C_in, skip_redundant=False), write(rng, smb)))
    content(mon, s2.C_in, d, L, 'load-redundant', tol=1e-12)
    # exchange-format input afterwards replaces the coefficients, not the SM parameters
    d2 = draw(rng, 5)
    s.set_initial_wcxf(wcin(d2, 500.))
    content(mon, s.C_in, d2, L, 'replace')
    mon.check(all(np.allclose(s.C_in[k], sm[k], rtol=1e-14) for k in SMK), 'replace:sm', '')
    mon.eq((s.scale_in, s.scale_high), (500., L), 'replace:scales')
    mon.raises(ValueError, lambda: D().SMEFTio().load_initial(('# nothing here\n',)), 'no-block')
    mon.case('loads', len(d), L, layout, tuple(cplx), th, i)


def rotated(rng, mon, i):
    """rotate_defaultbasis: a pure flavour rotation to diagonal down and lepton masses."""
    L = float(10.0**rng.uniform(3, 4.5))
    C = smeftgen.point(rng, float(10.0**rng.uniform(-3, 0)))
    s = D().SMEFTio()
    s.set_initial(C, 1000., L)
    mon.check(s.C_in is C and (s.scale_in, s.scale_high) == (1000., L), 'set_initial', '')
    C0 = copy.deepcopy(C)
    R = s.rotate_defaultbasis(C)
    mon.check(all(np.array_equal(C0[k], C[k]) for k in C0), 'rotate-mutates', '')
    # dimensionful couplings of the same theory, rotated by the running code (checked on its own in C14)
    from wilson.run.smeft.classes import SMEFT
    phis = ('uphi', 'dphi', 'ephi')
    helper = getattr(SMEFT, '_rotate_defaultbasis', None)      # internal to the running code
    E = helper({k: (v / L**2 if k in phis else v) for k, v in C.items()}) if helper else {}
    for k, T in R.items() if helper else ():
        T0 = E[k] * L**2 if k in phis else E[k]
        mon.check(np.abs(T - T0).max() < 1e-8 * max(np.abs(T0).max(), 1e-30), 'rotate:values', f'{k}')
    mon.eq(sorted(set(k for k in C if k not in SMK) - set(R)), [], 'rotate:missing')
    # flavour invariants are unchanged for every tensor
    for k, T in C.items():
        if k not in R:
            continue
        if np.ndim(T) == 0:
            mon.eq(R[k], T, 'rotate:scalar', k)
        else:
            a, b = np.linalg.norm(np.ravel(R[k])), np.linalg.norm(np.ravel(T))
            mon.check(abs(a - b) < 1e-9 * max(a, b, 1e-30), 'rotate:norm', f'{k}: {a} {b}')
    mon.case('rotated', L, i)


def tools(rng, mon, i):
    """The two command-line programs."""
    from wilson.wcxf import cli
    from wilson import wcxf
    tmp = tempfile.mkdtemp(prefix='c26_')
    try:
        d = draw(rng, 6)
        sc = float(10.0**rng.uniform(2, 5))
        w = wcin(d, sc)
        want = blocks(d, sc)
        want['SCALES'] = {(1,): sc}
        src, dst = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
        text = w.dump(fmt=['json', 'yaml'][i % 2])
        open(src, 'w').write(text)
        rc, out, err = clirun.inproc(cli.wcxf2dsixtools, [src])
        mon.eq(rc, 0, 'cli:status', err[-300:])
        same(mon, parse(out), want, 'cli:stdout')
        rc, out, err = clirun.inproc(cli.wcxf2dsixtools, ['-'], stdin=text)
        same(mon, parse(out), want, 'cli:stdin')
        rc, out, err = clirun.inproc(cli.wcxf2dsixtools, [src, '--output', dst])
        same(mon, parse(open(dst).read()), want, 'cli:file')
        mon.eq(open(src).read(), text, 'cli:input-changed')
        sm, cplx, th = smpoint(rng)
        lha = D().sm_dict2lha(sm)
        files = [os.path.join(tmp, n) for n in ('sm', 'wc')]
        open(files[0], 'w').write(write(rng, fromdict(lha)))
        open(files[1], 'w').write(write(rng, want))
        rc, out, err = clirun.inproc(cli.dsixtools2wcxf, files)
        mon.eq(rc, 0, 'cli2:status', err[-300:])
        r = wcxf.WC.load(out)
        mon.eq(sorted(r.dict), sorted(k for k in d if d[k] != 0), 'cli2:keys')
        mon.check(all(abs(r.dict[k] - d[k]) <= 1e-12 * abs(d[k]) for k in r.dict) and abs(r.scale - sc) < 1e-9 * sc, 'cli2:values', '')
        rc, out2, err = clirun.inproc(cli.dsixtools2wcxf, files[::-1] + ['--output', dst])
        mon.eq(wcxf.WC.load(open(dst).read()).values, r.values, 'cli2:file')
        bad = wcxf.WC('SMEFT', 'Warsaw', sc, {'nope': 1.}).dump()
        rc, out, err = clirun.inproc(cli.wcxf2dsixtools, ['-'], stdin=bad)
        mon.check(rc != 0, 'cli:accepts-invalid', f'{rc} {out[:100]}')
        # entries that are no members of the basis although the arrays have room for them
        name = str(rng.choice(['phiq1_21', 'phil3_31', 'll_2111', 'uu_3311', 'ee_2111', 'phie_32', 'qqql_2111', 'llphiphi_21']))
        bad = wcxf.WC('SMEFT', 'Warsaw', sc, {name: 1e-7}).dump()
        rc, out, err = clirun.inproc(cli.wcxf2dsixtools, ['-'], stdin=bad)
        mon.check(name in reals() or rc != 0, 'cli:accepts-redundant', f'{name}: {rc} {out[:100]}')
        for e, b in (('SMEFT', 'Warsaw up'), ('WET', 'JMS'), ('WET', 'flavio')):
            k = sorted(wcxf.Basis[e, b].all_wcs)[0]
            x = wcxf.WC(e, b, 500., {k: 1e-7})
            mon.raises(ValueError, lambda: D().wcxf2dsixtools(x), 'accepts-basis', f'{e} {b}')
    finally:
        shutil.rmtree(tmp)
    mon.case('tools', sc, tuple(d))


FAMILIES = [Family('arrays', arrays, 60, 1500, 60), Family('dumps', dumps, 24, 500, 100), Family('loads', loads, 30, 800, 100),
            Family('rotated', rotated, 25, 400, 60), Family('tools', tools, 10, 150, 60)]
if __name__ == '__main__':
    mon.run('C26', 'DsixTools conversions of random coefficient sets, scales, file layouts and formats; a case is a distinct document', FAMILIES)
