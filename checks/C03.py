"""WCxf serialisation: dump/load histories against the in-memory object."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen
from mon import Family
import copy, io, json, tempfile
import numpy as np


class _Saved:
    def __init__(self, *classes):
        self.cl = classes

    def __enter__(self):
        self.s = [(c, c.__dict__.get('instances')) for c in self.cl]
        for c, inst in self.s:
            if inst is not None:
                c.instances = type(inst)(inst)

    def __exit__(self, *a):
        for c, inst in self.s:
            if inst is not None:
                c.instances = inst
        return False


def write_read(rng, mon, obj, cls, tag):
    """Serialise obj through a random channel and load it again."""
    fmt = str(rng.choice(['json', 'yaml', 'JSON', 'Yaml', 'default']))
    kw = {} if fmt == 'default' else {'fmt': fmt}
    isj = fmt.lower() in ('json', 'default')
    if rng.random() < .3:
        kw.update({'indent': int(rng.choice([0, 1, 4]))} if isj else {'default_flow_style': bool(rng.random() < .5)})
    if isj and rng.random() < .2:
        kw['indent'] = None
    if rng.random() < .3:         # characters beyond ASCII written as they are
        kw['ensure_ascii' if isj else 'allow_unicode'] = not isj
    ch = int(rng.integers(6))
    if ch == 0:
        s = obj.dump(**kw)
        mon.check(isinstance(s, str), 'dump-returns-string', f'dump() returned {type(s)}')
        r = cls.load(s)
    elif ch == 1:
        f = io.StringIO()
        obj.dump(f, **kw)
        s = f.getvalue()
        r = cls.load(io.StringIO(s))
    elif ch == 2:
        fn = tempfile.mktemp()
        with open(fn, 'w', encoding='utf-8') as f:
            obj.dump(stream=f, **kw)
        with open(fn, encoding='utf-8') as f:
            s = f.read()
        with open(fn, encoding='utf-8') as f:
            r = cls.load(f)
        os.unlink(fn)
    elif ch == 3:
        s = obj.dump(**kw)
        r = cls.load(io.StringIO(s))
    elif ch == 4:                 # a stream of bytes
        s = obj.dump(**kw)
        r = cls.load(io.BytesIO(s.encode('utf-8')))
    else:                         # written and read as bytes
        fn = tempfile.mktemp()
        if isj:
            with open(fn, 'wb') as f:
                f.write(obj.dump(**kw).encode('utf-8'))
        else:
            with open(fn, 'wb') as f:
                obj.dump(stream=f, encoding='utf-8', **kw)
        with open(fn, 'rb') as f:
            s = f.read().decode('utf-8')
        with open(fn, 'rb') as f:
            r = cls.load(f)
        os.unlink(fn)
    if isj:
        try:
            json.loads(s)
            mon.event()
        except ValueError as e:
            mon.violate(f'{tag}:not-json', f'JSON output is not JSON: {e}')
    else:
        import yaml
        try:
            yaml.safe_load(s)
            mon.event()
        except yaml.YAMLError as e:
            mon.violate(f'{tag}:not-yaml', f'YAML output is not YAML: {e}')
    mon.count(f'{tag}:{"json" if isj else "yaml"}:ch{ch}')
    return r, s


def wc(rng, mon, i):
    from wilson import wcxf
    vals, nums = {}, {}
    for _ in range(int(rng.choice([0, 1, 2, 5, 12, 40]))):
        k = gen.name(rng)
        vals[k], nums[k] = gen.value(rng)
    eft, basis = gen.name(rng), gen.name(rng)
    scale = [91.1876, 1000, '1e3', 1e-9, 4.2, 1e19, '160', 2.0][int(rng.integers(8))] if rng.random() < .5 else float(10**rng.uniform(-14, 19))
    kw = {}
    for _ in range(int(rng.integers(0, 3))):
        kw[str(rng.choice(['metadata', 'comment', 'foo', 'extra_info']))] = gen.meta(rng)
    orig = copy.deepcopy((vals, kw))
    w = wcxf.WC(eft, basis, scale, vals, **kw)
    for step in range(int(rng.integers(1, 4))):
        if rng.random() < .5:     # populate caches before dumping
            w.dict
        if rng.random() < .3:
            w.df
        if rng.random() < .3 and nums:
            w[next(iter(nums))]
        r, s = write_read(rng, mon, w, wcxf.WC, 'WC')
        mon.check(gen.same(w.eft, eft) and gen.same(w.basis, basis) and gen.same((w.values, {k: getattr(w, k) for k in kw}), orig),
                  'dump-mutates', f'object changed by dump/load: {w.values} {kw}')
        mon.eq((r.eft, r.basis), (eft, basis), 'WC:eft-basis', s[:300])
        mon.check(r.scale == float(scale) and isinstance(r.scale, float), 'WC:scale', f'{r.scale!r} != {scale!r}')
        mon.check(gen.same(r.values, orig[0]), 'WC:values', f'{r.values} != {orig[0]} via {s[:400]}')
        mon.check(gen.same({k: getattr(r, k, 'MISSING') for k in kw}, orig[1]), 'WC:metadata',
                  f'{ {k: getattr(r, k, "MISSING") for k in kw} } != {orig[1]}')
        pub = {k for k in r.__dict__ if not k.startswith('_')}
        mon.eq(pub, {'eft', 'basis', 'scale', 'values'} | set(kw), 'WC:fields', 'public fields after reload')
        d = r.dict
        mon.check(set(d) == set(nums) and all(complex(d[k]) == complex(nums[k]) for k in nums), 'WC:numbers',
                  f'{d} != {nums}')
        w = r
    # the same text read twice gives two objects that have nothing in common
    mon.fresh(lambda: wcxf.WC.load(s), 'load:shared', s[:300])
    mon.case('wc', eft, basis, scale, vals, kw, sample=s[:400])


def sectors(rng):
    used = set()
    out = {}
    for _ in range(int(rng.integers(1, 5))):
        sec = {}
        for _ in range(int(rng.choice([0, 1, 3, 8]))):
            k = gen.name(rng)
            if k in used:
                continue
            used.add(k)
            r = rng.random()
            sec[k] = None if r < .3 else {'real': bool(rng.random() < .5)} if r < .5 else \
                {'tex': str(rng.choice([r'C_{9}', r'\bar b_L \gamma^\mu s', '~', 'x_{"a"}'])), 'real': True} if r < .8 else {'tex': 'x'}
        out[gen.name(rng)] = sec
    return out


def defs(rng, mon, i):
    """EFT and Basis definition files."""
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis):
        eft = gen.name(rng)
        es = {gen.name(rng): {'dB': 'b', 'dL': int(rng.integers(3))} if rng.random() < .7 else None for _ in range(3)}
        kw = {'metadata': gen.meta(rng)} if rng.random() < .6 else {}
        o = copy.deepcopy((es, kw))
        e = wcxf.EFT(eft, es, **kw)
        r, s = write_read(rng, mon, e, wcxf.EFT, 'EFT')
        mon.check(r.eft == eft and gen.same(r.sectors, o[0]) and gen.same({k: getattr(r, k, 'MISSING') for k in kw}, o[1]),
                  'EFT:content', f'{r.__dict__} != {eft} {o}')
        mon.check(wcxf.EFT[eft] is r, 'EFT:registered', 'loaded EFT is not the registered one')
        bas = gen.name(rng)
        bs = sectors(rng)
        kw = {'metadata': gen.meta(rng)} if rng.random() < .6 else {}
        o = copy.deepcopy((bs, kw))
        parent = None
        if rng.random() < .4:
            parent = bas + '_parent'
            ps = sectors(rng)
            po = copy.deepcopy(ps)
            wcxf.Basis(eft, parent, ps)
            kw = dict(kw, parent=parent)
            o = (dict(po, **o[0]), dict(o[1], parent=parent))
        b = wcxf.Basis(eft, bas, bs, **kw)
        if rng.random() < .5:
            b.all_wcs
        r, s = write_read(rng, mon, b, wcxf.Basis, 'Basis')
        mon.check(r.eft == eft and r.basis == bas and gen.same(r.sectors, o[0]), 'Basis:content',
                  f'{r.sectors} != {o[0]} via {s[:500]}')
        mon.check(gen.same({k: getattr(r, k, 'MISSING') for k in kw}, o[1]), 'Basis:metadata', f'{r.__dict__} != {o[1]}')
        mon.check(wcxf.Basis[eft, bas] is r, 'Basis:registered', 'loaded Basis is not the registered one')
        mon.eq(sorted(r.all_wcs), sorted(k for v in o[0].values() for k in v), 'Basis:all_wcs', 'names after reload')
        mon.eq({k for k in r.__dict__ if not k.startswith('_')}, {'eft', 'basis', 'sectors'} | set(kw), 'Basis:fields', 'public fields')
        mon.case('defs', eft, bas, o, sample=s[:400])


def convert(rng, mon, i):
    """YAML <-> JSON file conversion keeps the data."""
    from wilson.wcxf.converters.yamljson import convert_json, convert_yaml
    import yaml
    data = {gen.name(rng): gen.meta(rng) if rng.random() < .4 else gen.value(rng)[0] for _ in range(int(rng.integers(1, 10)))}
    def isnum(x):
        return isinstance(x, float)
    orig = copy.deepcopy(data)
    cur = ('json', json.dumps(data)) if rng.random() < .5 else ('yaml', yaml.safe_dump(data, allow_unicode=bool(rng.random() < .5)))
    for _ in range(4):
        f_in, f_out = io.StringIO(cur[1]), io.StringIO()
        if cur[0] == 'json':
            rc = convert_yaml(f_in, f_out)
            cur = ('yaml', f_out.getvalue())
            back = yaml.safe_load(cur[1])
        else:
            rc = convert_json(f_in, f_out)
            cur = ('json', f_out.getvalue())
            try:
                back = json.loads(cur[1])
            except ValueError as e:
                mon.violate('convert:not-json', f'{e}: {cur[1][:300]}')
                return
        mon.check(not rc, 'convert:status', f'conversion reported failure {rc!r}')
        mon.check(gen.same(back, orig), f'convert:{cur[0]}', f'{back} != {orig}')
    mon.case('convert', orig)
    # malformed input is reported, not silently converted
    f_out = io.StringIO()
    bad = str(rng.choice(['{"a": 1', 'a: [1, 2', '"unterminated', 'a: b: c: [', '{a: 1}}']))
    import logging
    mon.check(convert_json(io.StringIO(bad), f_out) == 1 and f_out.getvalue() == '', 'convert:malformed-yaml', f'{bad!r} -> {f_out.getvalue()!r}')
    bad = str(rng.choice(['{"a": 1', 'a: 1', '{a: 1}', "{'a': 1}", '']))
    mon.check(convert_yaml(io.StringIO(bad), f_out) == 1 and f_out.getvalue() == '', 'convert:malformed-json', f'{bad!r} -> {f_out.getvalue()!r}')


def handwritten(rng, mon, i):
    """Files as people write them: YAML 1.1 spellings, comments, order, both formats."""
    from wilson import wcxf
    nums = {}
    lines = []
    def spell(x):
        r = int(rng.integers(5))
        return [repr(x), f'{x:.17g}', f'{x:.17e}', f'{x:.17E}', f'+{x!r}' if x > 0 else repr(x)][r]
    vals = []
    for _ in range(int(rng.integers(1, 8))):
        k = gen.name(rng, plain=True)
        if k in nums or k in ('on', 'no', 'yes'):
            continue
        x, y = float(rng.normal() * 10.0**rng.integers(-12, 4)), float(rng.normal() * 1e-3)
        r = rng.random()
        if r < .4:
            vals.append(f'  "{k}": {spell(x)}')
            nums[k] = x
        elif r < .6:
            n = int(rng.integers(-3, 4))
            m = int(rng.integers(1, 10))
            vals.append(f'  "{k}": {m}e{n}')
            nums[k] = float(f'{m}e{n}')
        elif r < .8:
            vals.append(f'  "{k}":\n    Re: {spell(x)}\n    Im: {spell(y)}')
            nums[k] = complex(x, y)
        else:
            vals.append(f'  "{k}": {{Im: {spell(y)}}}')
            nums[k] = complex(0, y)
    scale = str(rng.choice(['160', '1e3', '91.1876', '4.2', '1.0e+3']))
    parts = ['eft: "SMEFT"', 'basis: "Warsaw"', f'scale: {scale}', 'values:\n' + '\n'.join(vals) if vals else 'values: {}']
    parts = [parts[j] for j in rng.permutation(4)]
    s = '# comment\n' + '\n'.join(parts) + '\n'
    w = wcxf.WC.load(s if rng.random() < .5 else io.StringIO(s))
    mon.eq(w.scale, float(scale), 'hand:scale', s)
    mon.check(set(w.dict) == set(nums) and all(complex(w.dict[k]) == complex(nums[k]) for k in nums), 'hand:values', f'{w.dict} != {nums} from\n{s}')
    if any(isinstance(v, str) for v in w.values.values()):
        mon.count('string-spelled numbers')
    r, s2 = write_read(rng, mon, w, wcxf.WC, 'hand')
    mon.check(all(complex(r.dict[k]) == complex(nums[k]) for k in nums), 'hand:reload', f'{r.dict} != {nums}')
    mon.case('hand', s)


def badfmt(rng, mon, i):
    from wilson import wcxf
    w = wcxf.WC('E', 'B', 1, {'a': 1})
    for f in ('xml', 'js', '', 'toml', 'jsonn', 'yml2'):
        mon.raises(ValueError, lambda: w.dump(fmt=f), 'unknown-format', f'fmt={f!r}')
        mon.case('badfmt', f)


def shipped(rng, mon, i):
    """Every registered EFT and basis survives a dump/load."""
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis):
        for (cls, key) in [(wcxf.EFT, k) for k in list(wcxf.EFT.instances)] + [(wcxf.Basis, k) for k in list(wcxf.Basis.instances)]:
            if rng.random() > .4:
                continue
            o = cls[key]
            before = copy.deepcopy({k: v for k, v in o.__dict__.items() if k[0] != '_'})
            fmt = str(rng.choice(['json', 'json', 'yaml'] if len(getattr(o, 'all_wcs', [])) > 300 else ['json', 'yaml']))
            if fmt == 'yaml' and len(getattr(o, 'all_wcs', [])) > 600:
                fmt = 'json'
            r = cls.load(o.dump(fmt=fmt))
            mon.check(gen.same({k: v for k, v in r.__dict__.items() if k[0] != '_'}, before), 'shipped', f'{cls.__name__} {key} {fmt}')
            mon.case('shipped', cls.__name__, key, fmt)


FAMILIES = [Family('wc', wc, 700, 8000), Family('defs', defs, 300, 3000), Family('convert', convert, 300, 3000),
            Family('handwritten', handwritten, 300, 4000), Family('badfmt', badfmt, 1, 1), Family('shipped', shipped, 6, 20)]
RULE = ('random WC/EFT/Basis objects (hostile names, extreme numbers, Re/Im dictionaries, metadata, inheritance) dumped and '
        'loaded through strings, StringIO and files in JSON and YAML, several generations; YAML<->JSON conversion chains; '
        'hand-written files; a case is a distinct object or file whose reload was compared field by field')
if __name__ == '__main__':
    mon.run('C03', RULE, FAMILIES)
