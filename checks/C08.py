"""Command line tools against the library calls they stand for."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, clirun
from mon import Family
from C03 import _Saved
import copy, json, tempfile, shutil, yaml


def real_flag(wcxf, e, b, k):
    for s in wcxf.Basis[e, b].sectors.values():
        if k in s:
            return bool((s[k] or {}).get('real', False))


def rwc(rng, e, b, n=4):
    from wilson import wcxf
    allw = wcxf.Basis[e, b].all_wcs
    vals = {}
    for k in rng.choice(allw, size=min(n, len(allw)), replace=False):
        x, y = rng.normal(size=2) * 1e-6
        vals[str(k)] = float(x) if real_flag(wcxf, e, b, str(k)) or rng.random() < .5 else {'Re': float(x), 'Im': float(y)}
    return wcxf.WC(e, b, {'SMEFT': 160., 'WET': 4.8, 'WET-4': 3., 'WET-3': 2.}.get(e, 100.) * (1 if rng.random() < .5 else float(rng.uniform(.95, 1.05))), vals)


EXT = ['txt', 'json', 'yaml', 'yml', 'dat', 'wcxf', 'JSON', 'wc.json', 'wcxf.yml']


class Box:
    """Scratch directory of one case."""
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, True)
        return False

    def path(self, n):
        return os.path.join(self.d, n)

    def write(self, n, s):
        with open(self.path(n), 'w', encoding='utf-8') as f:
            f.write(s)
        return self.path(n)

    def read(self, n):
        with open(self.path(n), encoding='utf-8') as f:
            return f.read()


def io_args(rng, box, text):
    """Input through file, stdin or '-'; output to file or stdout."""
    argv, stdin = [], ''
    r = int(rng.integers(3))
    if r == 0:
        argv.append(box.write('in.' + str(rng.choice(EXT)), text))
    else:
        stdin = text
        if r == 1:
            argv.append('-')
    out = rng.random() < .5 and 'out.' + str(rng.choice(EXT))      # the names of files mean nothing
    return argv, stdin, (['--output', box.path(out)] if out else []), out


def parse(s):
    try:
        return 'json', json.loads(s)
    except ValueError:
        return 'yaml', yaml.safe_load(s)


def runcli(rng, func, argv, stdin):
    from wilson.wcxf import cli
    return clirun.inproc(getattr(cli, func), argv, stdin)


def transform(rng, mon, i):
    """wcxf translate / wcxf match equal WC.translate / WC.match."""
    from wilson import wcxf
    keys = [('translate',) + k for k in wcxf.Translator.instances] + [('match',) + k for k in wcxf.Matcher.instances]
    tag = keys[int(rng.integers(len(keys)))]
    if tag[1:3] not in wcxf.Basis.instances:
        return mon.event()
    w = rwc(rng, *tag[1:3])
    unknown = rng.random() < .2
    infmt = str(rng.choice(['json', 'yaml']))
    with Box() as box:
        a, stdin, o, out = io_args(rng, box, w.dump(fmt=infmt))
        fmt = [] if rng.random() < .4 else ['--format', str(rng.choice(['json', 'yaml']))]
        tgt = list(tag[3:]) if not unknown else ['no such basis'] if tag[0] == 'translate' else ['no such eft', 'x']
        if unknown and rng.random() < .7:       # existing theories and bases, but no such route
            allb = list(wcxf.Basis.instances)
            while True:
                e2, b2 = allb[int(rng.integers(len(allb)))]
                e2 = tag[1] if rng.random() < .5 else e2
                t2 = (e2, b2) if tag[0] == 'match' else (b2,)
                inst = wcxf.Matcher.instances if tag[0] == 'match' else wcxf.Translator.instances
                if tuple(tag[1:3]) + t2 not in inst and (e2, b2) != tuple(tag[1:3]) and (tag[0] == 'match' or b2 != tag[2]):
                    break
            tgt = list(t2)
            mon.raises(ValueError, lambda: getattr(w, tag[0])(*tgt), 'library-unknown-target', f'{tag} {tgt}')
        st, so, se = runcli(rng, 'wcxf_cli', [tag[0]] + fmt + tgt + a + o, stdin)
        res = box.read(out) if out else so
        if unknown:
            mon.check(st not in (0,) and 'values' not in res, 'cli-unknown-target', f'{tag} {tgt}: status {st!r}, output {res[:200]}')
            return
        if not mon.check(st == 0, 'cli-status', f'{tag}: {st!r} {se[-500:]}'):
            return
        if out:
            mon.check(so == '', 'cli-stdout', f'output both to file and stdout: {so[:200]}')
        f, d = parse(res)
        mon.eq(f, fmt[1] if fmt else 'json', 'cli-format', res[:200])
        exp = w.translate(*tag[3:]) if tag[0] == 'translate' else w.match(*tag[3:])
        got = wcxf.WC(**d)
        mon.eq((got.eft, got.basis, got.scale), (exp.eft, exp.basis, exp.scale), 'cli-labels', str(tag))
        mon.check(set(got.values) == set(exp.values) and all(complex(got[k]) == complex(exp[k]) for k in exp.values), 'cli-values',
                  f'{tag}: command line result differs from the library call')
        mon.count(tag[0])
        mon.case(tag, w.values, infmt, fmt, sample=[tag, infmt, fmt, len(exp.values)])


def identity(rng, mon, i):
    """Translating into the same basis returns the same coefficients."""
    from wilson import wcxf
    ks = list(wcxf.Basis.instances)
    e, b = ks[int(rng.integers(len(ks)))]
    w = rwc(rng, e, b, 8)
    with Box() as box:
        infmt = str(rng.choice(['json', 'yaml']))
        a, stdin, o, out = io_args(rng, box, w.dump(fmt=infmt))
        fmt = [] if rng.random() < .4 else ['--format', str(rng.choice(['json', 'yaml']))]
        argv = (['translate'] + fmt + [b]) if rng.random() < .5 else (['match'] + fmt + [e, b])
        st, so, se = runcli(rng, 'wcxf_cli', argv + a + o, stdin)
        mon.check(st == 0, 'cli-status', f'{argv}: {st!r}')
        res = box.read(out) if out else so
        mon.eq(parse(res)[0], fmt[1] if fmt else 'json', 'cli-format', f'{argv}, input {infmt}')
        got = wcxf.WC.load(res)
        mon.check((got.eft, got.basis, got.scale) == (e, b, w.scale) and gen.same(got.values, w.values), 'cli-identity', f'{argv}')
        mon.case('identity', e, b, w.values)


def convert(rng, mon, i):
    data = {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 160, 'values': {gen.name(rng): gen.value(rng)[0] for _ in range(5)},
            'metadata': gen.meta(rng)}
    to = str(rng.choice(['json', 'yaml', 'JSON', 'YAML', 'Json']))
    uni = bool(rng.random() < .5)
    src = yaml.safe_dump(data, allow_unicode=uni) if to.lower() == 'json' else json.dumps(data, ensure_ascii=not uni)
    with Box() as box:
        a, stdin, o, out = io_args(rng, box, src)
        st, so, se = runcli(rng, 'wcxf_cli', ['convert', to] + a + o, stdin)
        res = box.read(out) if out else so
        mon.check(st == 0, 'convert-status', f'{st!r}')
        mon.check('cannot be parsed' not in se, 'convert-error-message', se[-200:])
        try:
            back = json.loads(res) if to.lower() == 'json' else yaml.safe_load(res)
        except Exception as e:
            return mon.violate('convert-output', f'{e!r}: {res[:200]}')
        if to.lower() == 'yaml':
            mon.check(not res.lstrip().startswith('{'), 'convert-not-yaml', res[:100])
        mon.check(gen.same(back, data), 'convert-data', f'{back} != {data}')
        mon.count('convert ' + to.lower())
        mon.case('convert', to, data)


def validate(rng, mon, i):
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis), Box() as box:
        ks = list(wcxf.Basis.instances)
        e, b = ks[int(rng.integers(len(ks)))]
        kind = str(rng.choice(['wc', 'wc-badkey', 'wc-badeft', 'wc-badbasis', 'basis', 'basis-badsector', 'basis-dup', 'basis-badeft', 'eft']))
        w = rwc(rng, e, b, 5)
        if kind.startswith('wc'):
            if kind == 'wc-badkey':
                w.values['zzz_1'] = 1
            if kind == 'wc-badeft':
                w.eft = 'zzz'
            if kind == 'wc-badbasis':
                w.basis = 'zzz'
            text, t = w.dump(fmt=str(rng.choice(['json', 'yaml']))), 'wc'
        elif kind.startswith('basis'):
            es = list(wcxf.EFT[e].sectors)
            sec = {s: {f'n{j}': None} for j, s in enumerate(es[:3])}
            d = {'eft': e, 'basis': 'new', 'sectors': sec}
            if kind == 'basis-badsector':
                sec['zzz'] = {'u': None}
            if kind == 'basis-dup':
                if len(es) < 2:
                    kind = 'basis'
                else:
                    sec[es[1]]['n0'] = {'real': True}
            if kind == 'basis-badeft':
                d['eft'] = 'zzz'
            text, t = json.dumps(d), 'basis'
        else:
            text, t = json.dumps({'eft': 'newEFT', 'sectors': {'a': {'dB': 'x'}}}), 'eft'
        a, stdin, _, _ = io_args(rng, box, text)
        st, so, se = runcli(rng, 'wcxf_cli', ['validate', t] + a, stdin)
        if kind in ('wc', 'basis', 'eft'):
            mon.check(st == 0 and 'Validation successful' in so, 'validate-good', f'{kind}: {st!r} {so[:200]} {se[-300:]}')
        else:
            mon.check(st != 0 and 'Validation successful' not in so, 'validate-bad', f'{kind}: {st!r} {so[:200]}')
        # an unknown type never reports success
        st, so, se = runcli(rng, 'wcxf_cli', ['validate', 'wcs', box.write('x', text)], '')
        mon.check('Validation successful' not in so and st != 0, 'validate-type', f'{st!r} {so[:200]}')
        mon.count(kind)
        mon.case('validate', kind, e, b, sample=[kind, e, b])


def eos(rng, mon, i):
    """wcxf2eos writes the library result to stdout, a file or the EOS home."""
    from wilson import wcxf
    from wilson.wcxf.converters.eos import wcxf2eos, get_sm_wcs
    w = rwc(rng, 'WET', 'EOS', 12)
    with Box() as box:
        pd = box.path('prefix/share/eos/parameters')
        os.makedirs(pd)
        sm = {}
        for k in list(w.values) + [str(x) for x in rng.choice(wcxf.Basis['WET', 'EOS'].all_wcs, size=5)]:
            n = k.split('::')
            for q in ('Re', 'Im'):
                sm[f'{n[0]}::{q}{{{n[-1]}}}'] = {'central': float(rng.normal()), 'min': -1., 'max': 1.}
        with open(os.path.join(pd, 'a.yaml'), 'w') as f:
            yaml.safe_dump(dict(sm, **{'@metadata@': {'wcxf-relevant': True}}), f)
        with open(os.path.join(pd, 'b.yaml'), 'w') as f:
            yaml.safe_dump({'mass::b': {'central': 4.2, 'min': 4, 'max': 5}}, f)
        bad = rng.random() < .15
        if bad:
            w.values['zzz'] = 1.
        text = w.dump(fmt=str(rng.choice(['json', 'yaml'])))
        a, stdin, o, out = io_args(rng, box, text)
        mode = str(rng.choice(['out', 'home', 'nohome', 'both']))
        argv = ['--eosprefix', box.path('prefix')]
        home, old = box.path('home'), None
        if mode == 'out':
            argv += o
        elif mode == 'home':
            if rng.random() < .4:       # the very directory that the Standard Model values come from
                home = box.path('prefix/share/eos')
            else:
                os.makedirs(os.path.join(home, 'parameters'))
            if rng.random() < .5:       # an earlier export
                old = 'b->s::Re{c1}:\n  central: 5.0\n  max: 5.0\n  min: 5.0\n'
                with open(os.path.join(home, 'parameters', 'wcxf.yaml'), 'w') as f:
                    f.write(old)
            argv += ['--eoshome', home]
        elif mode == 'nohome':
            argv += ['--eoshome', home]
        else:
            os.makedirs(os.path.join(home, 'parameters'))
            argv += ['--eoshome', home, '--output', box.path('out.txt')]
        st, so, se = runcli(rng, 'eos', a[:1] + argv if a else argv, stdin)
        if mode in ('nohome', 'both'):
            mon.check(st == 1, 'eos-misuse', f'{mode}: status {st!r}')
            mon.check(not os.path.exists(os.path.join(home, 'parameters', 'wcxf.yaml')), 'eos-misuse-writes', mode)
        elif bad:
            mon.check(st != 0, 'eos-invalid-input', f'{st!r}')
            if mode == 'home':
                p = os.path.join(home, 'parameters', 'wcxf.yaml')
                mon.check((open(p).read() if os.path.exists(p) else None) == old, 'eos-invalid-input-writes', 'an invalid file destroyed the earlier export' if old else 'left an empty parameter file')
        else:
            if not mon.check(st == 0, 'eos-status', f'{mode} {st!r} {se[-300:]}'):
                return
            if mode == 'home':
                with open(os.path.join(home, 'parameters', 'wcxf.yaml')) as f:
                    res = f.read()
            elif out:
                res = box.read(out)
            else:
                res = so
            got = yaml.load(res, Loader=yaml.Loader)
            exp = wcxf2eos(w, get_sm_wcs(pd))
            mon.check(gen.same({k: dict(v) for k, v in got.items()}, {k: dict(v) for k, v in exp.items()}), 'eos-content', f'{got}')
            mon.check(set(got) == set(sm), 'eos-keys', f'{sorted(got)[:5]}')
        mon.count('eos ' + mode)
        mon.case('eos', mode, w.values, sample=[mode, len(sm)])


def malformed(rng, mon, i):
    """Files of the wrong structure are never accepted, whatever is asked for."""
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis), Box() as box:
        ks = [(e, b) for e, b in wcxf.Basis.instances if e != 'SMEFT']
        e, b = ks[int(rng.integers(len(ks)))]
        head = {'eft': e, 'basis': b, 'scale': float(rng.uniform(2, 100))}
        name = str(rng.choice(list(wcxf.Basis[e, b].all_wcs)))
        k, doc = [('wc', dict(head, values=None)), ('wc', dict(head, values=[name])), ('wc', dict(head, values=name)), ('wc', [head]), ('wc', None), ('wc', 'text'),
                  ('wc', dict(head, values={}, scale='high')), ('wc', dict(head, scale=None, values={name: 1})), ('wc', {x: y for x, y in head.items() if x != 'scale'}),
                  ('basis', {'eft': e, 'basis': 'n', 'sectors': ['sb']}), ('basis', {'eft': e, 'basis': 'n', 'sectors': None}), ('basis', [1]),
                  ('basis', {'eft': e, 'basis': 'n', 'sectors': {sorted(wcxf.EFT[e].sectors)[0]: None}}), ('basis', {'eft': e, 'sectors': {}}),
                  ('eft', [1, 2]), ('eft', None), ('eft', {'eft': 'X'})][i % 17]
        text = json.dumps(doc) if rng.random() < .5 else yaml.dump(doc)
        cmds = [['validate', k]]
        if k == 'wc' and isinstance(doc, dict) and not isinstance(doc.get('values'), dict):
            others = [t[2] for t in wcxf.Translator.instances if t[:2] == (e, b)]
            if others:
                cmds.append(['translate', str(rng.choice(others))])
        for c in cmds:
            a, stdin, out, _ = io_args(rng, box, text)
            st, so, se = runcli(rng, 'wcxf_cli', c + a[:1], stdin)
            mon.check(st != 0, 'malformed', f'{c}: status {st!r} for {text!r}: {so[:80]!r}')
            mon.check('successful' not in so, 'malformed-success', f'{c}: {text!r}')
        # nothing asked for: help
        st, so, se = runcli(rng, 'wcxf_cli', [], '')
        mon.check('usage' in so + se and 'Traceback' not in se, 'no-command', f'{st!r} {so[:100]}')
        mon.case('malformed', k, text)


def process(rng, mon, i):
    """The same in a fresh process."""
    from wilson import wcxf
    w = rwc(rng, 'WET', 'JMS', 5)
    k = i % 4
    if k == 0:
        rc, so, se = clirun.subproc('wcxf_cli', ['translate', 'flavio'], w.dump())
        mon.check(rc == 0, 'process-status', f'{rc} {se[-500:]}')
        if rc == 0:
            exp = w.translate('flavio')
            got = wcxf.WC.load(so)
            mon.dclose(got.dict, exp.dict, 'process-values', 'translate in a fresh process', rtol=1e-12)
    elif k == 1:
        rc, so, se = clirun.subproc('wcxf_cli', ['match', 'WET-4', 'JMS', '--format', 'yaml'], w.dump(fmt='yaml'))
        mon.check(rc == 0, 'process-status', f'{rc} {se[-500:]}')
        if rc == 0:
            mon.dclose(wcxf.WC.load(so).dict, w.match('WET-4', 'JMS').dict, 'process-values', 'match in a fresh process', rtol=1e-12)
    elif k == 2:
        w.values['bogus'] = 1
        rc, so, se = clirun.subproc('wcxf_cli', ['validate', 'wc'], w.dump())
        mon.check(rc != 0 and 'successful' not in so, 'process-validate-bad', f'{rc} {so}')
    else:
        rc, so, se = clirun.subproc('wcxf_cli', ['validate', 'wc'], w.dump())
        mon.check(rc == 0 and 'successful' in so, 'process-validate-good', f'{rc} {so} {se[-300:]}')
    mon.case('process', k, i)


FAMILIES = [Family('transform', transform, 120, 1000), Family('identity', identity, 40, 300), Family('convert', convert, 150, 1500),
            Family('validate', validate, 120, 1000), Family('eos', eos, 80, 800), Family('malformed', malformed, 34, 340), Family('process', process, 4, 24)]
RULE = ('random coefficient files piped or passed to the command line tools (file, stdin, "-", --output, JSON/YAML, EOS home) and '
        'compared with the library call on the same object; invalid files and misuse must fail; a case is a distinct invocation')
if __name__ == '__main__':
    mon.run('C08', RULE, FAMILIES)
