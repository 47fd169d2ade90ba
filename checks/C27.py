"""SMEFTsim parameter cards: every model parameter carries the right coefficient in the right convention."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft, clirun
from mon import Family
import cmath, copy, io, json, math, re, shutil, tempfile
import numpy as np

# names of the operators in the SMEFTsim models -> names in the exchange format
ZERO = {'G': 'G', 'Gtil': 'Gtilde', 'W': 'W', 'Wtil': 'Wtilde', 'H': 'phi', 'Hbox': 'phiBox', 'HBox': 'phiBox', 'HDD': 'phiD', 'HG': 'phiG', 'HGtil': 'phiGtilde',
        'HW': 'phiW', 'HWtil': 'phiWtilde', 'HB': 'phiB', 'HBtil': 'phiBtilde', 'HWB': 'phiWB', 'HWBtil': 'phiWtildeB'}
FLAV = {k.lower(): v for k, v in {'eH': 'ephi', 'uH': 'uphi', 'dH': 'dphi', 'Hl1': 'phil1', 'Hl3': 'phil3', 'Hq1': 'phiq1', 'Hq3': 'phiq3', 'He': 'phie', 'Hu': 'phiu',
                                  'Hd': 'phid', 'Hud': 'phiud'}.items()}
for _n in 'eW eB uG uW uB dG dW dB ll qq1 qq3 lq1 lq3 ee uu dd eu ed ud1 ud8 le lu ld qe qu1 qu8 qd1 qd8 ledq quqd1 quqd8 lequ1 lequ3'.split():
    FLAV[_n.lower()] = _n
BNV = ('duql', 'qque', 'qqql', 'duue', 'llphiphi')          # not part of the models
GOLD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'golden', 'smeftsim.json')


def M():
    from wilson.wcxf.converters import smeftsim
    return smeftsim


_R = {}


def reals(basis='Warsaw mass'):
    if basis not in _R:
        from wilson import wcxf
        b = wcxf.Basis['SMEFT', basis]
        _R[basis] = {k: bool((v or {}).get('real')) for s in b.sectors.values() for k, v in s.items()}
    return _R[basis]


_DEG = {}


def symfactor(k):
    if '_' not in k:
        return 1
    name, i = k.split('_')
    if name not in _DEG:
        _DEG[name] = eft.degeneracy(eft.SMEFT_CLASS[name], (3,) * len(i))
    return _DEG[name][tuple(int(c) - 1 for c in i)]


def meaning(label):
    """Label of a card entry -> (coefficient in the basis, part, conjugated)."""
    label = label.strip().lstrip('#').strip()
    if label in ('LambdaSMEFT', 'Lambda'):
        return 'Lambda', None, False
    if label[1:] in ZERO:
        return ZERO[label[1:]], 're', False
    m = re.match(r'c([A-Za-z0-9]+?)(Abs|Ph)([1-3x]+)$', label)
    name = FLAV[m.group(1).lower()]
    idx = tuple(int(c) - 1 for c in m.group(3) if c != 'x')
    for p, c, s in sorted(eft.group(eft.SMEFT_CLASS[name], len(idx)), key=lambda e: e[1]):
        t = tuple(idx[j] for j in p)
        k = name + '_' + ''.join(str(j + 1) for j in t)
        if k in reals():
            return k, {'Abs': 'abs', 'Ph': 'ph'}[m.group(2)], c
    raise KeyError(label)


def draw(rng, n=None):
    real = reals()
    keys = sorted(real)
    n = n if n is not None else int(rng.choice([0, 1, 5, 100, len(keys), len(keys)]))
    d = {}
    for j in rng.choice(len(keys), size=n, replace=False):
        k = keys[j]
        z = gen.cplx(rng) * 10.0**rng.uniform(-9, -5)
        if rng.random() < .2:
            z = [complex(z.real), 1j * z.imag][int(rng.integers(2))]
        d[k] = gen.part(z, real[k])
        if d[k] == 0:
            d[k] = -1e-7
    return d


def wcin(rng, d, scale, basis='Warsaw mass'):
    """Values in the several forms the exchange format allows."""
    from wilson import wcxf
    v = {}
    for k, x in d.items():
        r = int(rng.integers(4))
        if isinstance(x, complex) or r == 0:
            v[k] = {'Re': complex(x).real, 'Im': complex(x).imag}
        elif r == 1:
            v[k] = {'Re': x}
        elif r == 2:
            v[k] = {'Re': x, 'Im': x * 1e-17}          # rounding noise, as left by running
        else:
            v[k] = x
    return wcxf.WC('SMEFT', basis, scale, v)


def entries(card):
    return [(b, tuple(r[:-2]), r[-2], r[-1]) for b, c in card['Block'].items() for r in c['values']]


def judge(mon, rows, d, Lam, ms, tag, scheme='alpha'):
    """rows: (block, numbers, value, label)."""
    mw = [r for r in rows if r[3].strip('# ') == 'MW0']
    rows = [r for r in rows if r not in mw]
    mon.check([float(r[2]) for r in mw] == ([80.387] if (ms, scheme) == ('A', 'mw') else []), f'{tag}:mw', f'{ms} {scheme} {mw}')
    mon.check(not {r[:2] for r in mw} & {r[:2] for r in rows}, f'{tag}:mw-number', f'{mw}')
    seen = {}
    where = set()
    for b, nums, val, label in rows:
        mon.event()
        if (b, nums) in where:
            mon.violate(f'{tag}:duplicate', f'{ms} {b} {nums}')
        where.add((b, nums))
        try:
            x = float(val)
        except ValueError:
            mon.violate(f'{tag}:not-a-number', f'{ms} {b} {nums} {val} {label}')
            continue
        k, part, conj = meaning(label)
        seen.setdefault(k, []).append(part)
        if k == 'Lambda':
            if not math.isclose(x, Lam, rel_tol=1e-6):
                mon.violate(f'{tag}:lambda', f'{ms} {x} vs {Lam}')
            continue
        z = complex(d.get(k, 0)) / symfactor(k)
        if conj:
            z = z.conjugate()
        if part == 'ph':
            want = cmath.phase(z) if z else 0
            if min(abs(x - want), abs(abs(x - want) - 2 * math.pi)) > 2e-6:
                mon.violate(f'{tag}:phase', f'{ms} {b} {nums} {label}: {x} expected {want}')
        else:
            want = z.real * Lam**2 if reals()[k] else abs(z) * Lam**2
            if not abs(x - want) <= 1e-6 * abs(want):
                mon.violate(f'{tag}:value', f'{ms} {b} {nums} {label}: {x} expected {want} ({k} = {d.get(k, 0)})')
    for k, r in reals().items():
        if k.split('_')[0] in BNV:
            if k in seen:
                mon.violate(f'{tag}:extra', k)
            continue
        got = sorted(map(str, seen.get(k, [])))
        if got != (['re'] if '_' not in k else ['abs'] if r else ['abs', 'ph']):
            mon.violate(f'{tag}:complete', f'{ms} {k}: parts {got}')
    if len(seen.get('Lambda', [])) != 1:
        mon.violate(f'{tag}:lambda-missing', ms)


def fill(rng, mon, i):
    ms = 'AB'[i % 2]
    d = draw(rng)
    Lam = [1000., float(10.0**rng.uniform(2, 5))][int(rng.integers(2))]
    scheme = ['alpha', 'mw'][int(rng.integers(2))]
    w = wcin(rng, d, float(10.0**rng.uniform(2, 4)))
    v0 = copy.deepcopy(w.values)
    empty = M().initialize_smeftsim_card(ms)
    card = M().smeftsim_card_fill(empty, w, ms, Lam, scheme)
    mon.eq(w.values, v0, 'input-mutated')
    judge(mon, entries(card), d, Lam, ms, 'fill', scheme)
    # a second card is independent of the first
    before = copy.deepcopy(card)
    d2 = draw(rng, 20)
    card2 = M().smeftsim_card_fill(M().initialize_smeftsim_card(ms), wcin(rng, d2, 100.), ms, 2 * Lam, scheme)
    judge(mon, entries(card2), d2, 2 * Lam, ms, 'second', scheme)
    mon.eq(entries(before), entries(card), 'cards-share')
    # refilling overwrites everything
    card3 = M().smeftsim_card_fill(card, wcin(rng, {}, 100.), ms, Lam, scheme)
    judge(mon, entries(card3), {}, Lam, ms, 'refill', scheme)
    mon.case('fill', ms, len(d), Lam, scheme, i)


def layout(rng, mon, i):
    """Numbers of the parameters within the models are those of the published models (as recorded)."""
    gold = json.load(open(GOLD))
    for ms in 'AB':
        card = M().smeftsim_card_fill(M().initialize_smeftsim_card(ms), wcin(rng, {}, 100.), ms, 1000., 'alpha')
        got = {f'{b} {" ".join(map(str, n))}': list(map(str, meaning(lab)[:2])) for b, n, v, lab in entries(card)}
        mon.event(len(got))
        want = gold[ms]
        for k in sorted(set(got) | set(want)):
            mon.check(got.get(k) == want.get(k), 'layout', f'{ms} {k}: {got.get(k)} recorded {want.get(k)}')
    mon.case('layout')


def lha(text):
    """{block: {numbers: value}}, decays separately; own reader."""
    out, dec, cur = {}, {}, None
    for line in text.splitlines():
        line = line.split('#')[0].split()
        if not line:
            continue
        if line[0].upper() == 'BLOCK':
            cur = ' '.join(line[1:])
            assert cur not in out, f'block {cur} twice'
            out[cur] = {}
        elif line[0].upper() == 'DECAY':
            dec[int(line[1])] = float(line[2])
        else:
            t = tuple(int(x) for x in line[:-1])
            assert t not in out[cur], f'{cur} {t} twice'
            out[cur][t] = float(line[-1])
    return out, dec


MASSES = {1: 4.7e-3, 2: 2.2e-3, 3: 96e-3, 4: 1.28, 5: 4.18, 6: (173.2, 173.1), 11: 5.11e-4, 13: .10566, 15: 1.777, 23: (91.1876, 91.1875), 25: 125.09}


def text(rng, mon, i):
    """The Standard Model part of the card, in both input schemes."""
    for ms in 'AB':
        cards = {}
        for scheme in ('alpha', 'mw'):
            pre, post = M().smeftsim_card_text(ms, scheme)
            out, dec = lha(pre + '\n' + post)
            cards[scheme] = out, dec
            mon.check(('ALPHA' in pre) == (scheme == 'alpha') and ('MW_INPUTS' in pre) == (scheme == 'mw') and f'SET {ms}' in pre, 'text:title', f'{ms} {scheme}')
            sm, mass = out['SMINPUTS'], out['MASS']
            mon.eq(sorted(sm), [(1,), (2,), (3,)] if scheme == 'alpha' else [(2,), (3,)], 'text:inputs', f'{ms} {scheme}')
            mon.check(abs(sm[2,] / 1.16637e-5 - 1) < 1e-4 and .11 < sm[3,] < .13, 'text:inputs', f'{sm}')
            if scheme == 'alpha':
                a = sm[1,] if sm[1,] < 1 else 1 / sm[1,]
                mon.check(1 / 137.1 < a < 1 / 127, 'text:alpha', f'{a}')
            for p, m in MASSES.items():
                m = m if isinstance(m, tuple) else (m, m)
                mon.check(min(abs(mass[p,] / x - 1) for x in m) < 1e-6, 'text:masses', f'{ms} {scheme} {p}: {mass[p,]}')
                mon.check(p in (23, 25) or mass[p,] == out['YUKAWA'][p,], 'text:yukawa', f'{p}')
            mw = mass[24,]
            mon.check(abs(mw - 80.387) < 1e-9 if scheme == 'mw' else 70 < mw < 81, 'text:mw', f'{ms} {scheme} {mw}')
            for p in (9000003, 9000004, 251):
                mon.check(mass[p,] == mw, 'text:mw-goldstones', f'{p} {mass[p,]} {mw}')
            for p in (9000002, 250):
                mon.check(mass[p,] == mass[23,], 'text:mz-goldstones', f'{p}')
            for p in (22, 21, 9000001, 82, 12, 14, 16):
                mon.check(mass[p,] == 0, 'text:massless', f'{p}')
            for p in (6, 23, 24, 25):
                mon.check(dec[p] > 0, 'text:widths', f'{p}')
        a, b = cards['alpha'], cards['mw']
        mon.check(a[1] == b[1] and set(a[0]) == set(b[0]) and all(a[0][k] == b[0][k] for k in a[0] if k not in ('SMINPUTS', 'MASS')), 'text:schemes', ms)
        mon.eq(set(a[0]['MASS']), set(b[0]['MASS']), 'text:mass-list', ms)
        mon.case('text', ms)


def tool(rng, mon, i):
    """The command-line program."""
    from wilson import wcxf
    from wilson.wcxf import cli
    tmp = tempfile.mkdtemp(prefix='c27_')
    old = os.getcwd()
    os.chdir(tmp)
    try:
        d = draw(rng, int(rng.choice([0, 3, 50])))
        w = wcin(rng, d, 100.)
        src = w.dump(fmt=['json', 'yaml'][i % 2])
        open('in', 'w').write(src)
        ms = [None, 'A', 'B'][int(rng.integers(3))]
        scheme = [None, 'alpha', 'mw'][int(rng.integers(3))]
        Lam = [None, float(round(10.0**rng.uniform(2, 5), 2))][int(rng.integers(2))]
        outf = [None, 'card.dat'][int(rng.integers(2))]
        args = ['in']
        for o, v in (('--model-set', ms), ('--input-scheme', scheme), ('--cutoff-scale', Lam), ('--output', outf)):
            if v is not None:
                args += [o, str(v)]
        rc, out, err = clirun.inproc(cli.smeftsim, args)
        mon.eq(rc, 0, 'cli:status', f'{args} {err[-300:]}')
        name = outf or 'wcxf2smeftsim_param_card.dat'
        mon.eq(sorted(os.listdir('.')), sorted(['in', name]), 'cli:files')
        mon.eq(open('in').read(), src, 'cli:input-changed')
        card = open(name).read()
        ms, scheme, Lam = ms or 'A', scheme or 'alpha', Lam or 1000.
        blocks, dec = lha(card)
        pre, post = M().smeftsim_card_text(ms, scheme)
        mon.check(card.startswith(pre) and card.endswith(post), 'cli:frame', f'{args}')
        sm, _ = lha(pre + '\n' + post)
        mon.check(all(blocks[b] == sm[b] for b in sm), 'cli:sm', f'{args}')
        rows = []
        cur = None
        for line in card[len(pre):len(card) - len(post)].splitlines():
            t = line.split('#')[0].split()
            if not t:
                continue
            if t[0].upper() == 'BLOCK':
                cur = t[1]
            else:
                rows.append((cur, tuple(map(int, t[:-1])), t[-1], line.split('#')[1]))
        judge(mon, rows, d, Lam, ms, 'cli', scheme)
        # other bases only after confirmation
        wrong = wcxf.WC('SMEFT', 'Warsaw', 100., {'phiG': 1e-6}).dump()
        open('wrong', 'w').write(wrong)
        for answer in ('n\n', 'i\n', 'I\n', '\n'):
            n = f'x{ord(answer[0])}'
            rc, out, err = clirun.inproc(cli.smeftsim, ['wrong', '--output', n], stdin=answer)
            mon.check('Warsaw mass' in out, 'cli:warning', out[:100])
            mon.eq(os.path.exists(n), answer in ('i\n', 'I\n'), 'cli:confirm', f'{answer!r} {rc}')
        open('bad', 'w').write(wcxf.WC('SMEFT', 'Warsaw mass', 100., {'nope': 1.}).dump())
        rc, out, err = clirun.inproc(cli.smeftsim, ['bad', '--output', 'y'])
        mon.check(rc != 0 and not os.path.exists('y'), 'cli:accepts-invalid', f'{rc}')
        for o, v in (('--model-set', 'C'), ('--input-scheme', 'gf'), ('--cutoff-scale', 'x')):
            rc, out, err = clirun.inproc(cli.smeftsim, ['in', o, v, '--output', 'z'])
            mon.check(rc != 0 and not os.path.exists('z'), 'cli:accepts-option', f'{o} {v} {rc}')
        mon.case('tool', ms, scheme, Lam, len(d), i)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def pipeline(rng, mon, i):
    """From any SMEFT basis and from running to a valid card: the same physics as the coefficients in the mass basis."""
    from wilson import Wilson, wcxf
    real = reals('Warsaw')
    keys = sorted(real)
    d = {}
    for j in rng.choice(len(keys), size=int(rng.integers(1, 30)), replace=False):
        z = gen.cplx(rng) * 1e-8
        d[keys[j]] = gen.part(z, real[keys[j]])
    w = Wilson(d, 2000., 'SMEFT', 'Warsaw')
    w.set_option('smeft_accuracy', 'leadinglog')
    r = w.match_run([2000., 1000.][i % 2], 'SMEFT', 'Warsaw mass')
    n = dict(r.dict)
    for k in n:
        if reals()[k]:
            mon.check(abs(complex(n[k]).imag) < 1e-12 * max(abs(complex(x)) for x in n.values()), 'pipeline:real', f'{k} {n[k]}')
            n[k] = complex(n[k]).real
    ms = 'AB'[i // 2 % 2]
    card = M().smeftsim_card_fill(M().initialize_smeftsim_card(ms), r, ms, 1000., 'alpha')
    judge(mon, entries(card), n, 1000., ms, 'pipeline')
    mon.case('pipeline', len(d), i)


def record():
    """Recorded once from the pinned tree: position of each parameter."""
    out = {}
    for ms in 'AB':
        card = M().smeftsim_card_fill(M().initialize_smeftsim_card(ms), wcin(np.random.default_rng(0), {}, 100.), ms, 1000., 'alpha')
        out[ms] = {f'{b} {" ".join(map(str, n))}': list(map(str, meaning(lab)[:2])) for b, n, v, lab in entries(card)}
    json.dump(out, open(GOLD, 'w'), indent=0, sort_keys=True)


FAMILIES = [Family('fill', fill, 40, 800, 60), Family('layout', layout, 1, 1, 60), Family('text', text, 1, 1, 60), Family('tool', tool, 12, 200, 100),
            Family('pipeline', pipeline, 8, 100, 200)]
if __name__ == '__main__':
    if sys.argv[1:] == ['--record']:
        import wload
        wload.load()
        record()
    else:
        mon.run('C27', 'SMEFTsim cards of random coefficient sets, cut-offs, model sets and input schemes; a case is a distinct card', FAMILIES)
