"""EOS parameter export: combination of the SM values with a coefficient set against a name/number model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen
from mon import Family
import copy, tempfile, yaml, shutil

LET = list('abcdstuVLRSTP0123456789\'_')


def cname(rng):
    return ''.join(rng.choice(LET, size=int(rng.integers(1, 5))))


def prefix(rng, charged):
    if charged:
        return str(rng.choice(['b->ulnu', 'b->clnu', 'ublnu', 'cblnu', 's->ulnu']))
    return str(rng.choice(['b->s', 'b->smumu', 'b->see', 'sbsb', 'sbcu', 'ublnul', 'mu->e']))


def num(rng):
    r = rng.random()
    if r < .2:
        return [0.0, 1.0, -1.0, 1e-12, 0, 1, -0.33726473][int(rng.integers(7))]
    return float(rng.normal() * 10.0**rng.uniform(-6, 1))


def sm_dict(rng, n):
    """random SM parameter names: plain, Re{}/Im{} pairs, charged-current pairs."""
    d = {}
    for _ in range(n):
        r = rng.random()
        c = cname(rng)
        names = []
        if r < .3:
            names = [f'{prefix(rng, False)}::{c}']
        elif r < .65:
            p = prefix(rng, False)
            names = [f'{p}::Re{{{c}}}', f'{p}::Im{{{c}}}']
        else:
            p = prefix(rng, True)
            names = [f'{p}::Re{{{c}}}', f'{p}::Im{{{c}}}']
        if rng.random() < .4:
            names = [names[int(rng.integers(len(names)))]]
        for k in names:
            m = num(rng)
            d[k] = {'central': m, 'min': m if rng.random() < .7 else m - .1, 'max': m if rng.random() < .7 else m + .1}
            if rng.random() < .2:      # a range that does not contain the value, or the wrong way round
                d[k].update(min=float(m + rng.normal()), max=float(m + rng.normal()))
            if rng.random() < .1:
                d[k]['comment'] = 'x'
    return d


def split(k):
    """(part, coefficient name) of an EOS parameter name."""
    for part in ('Re', 'Im'):
        t = part + '{'
        if t in k:
            a, b = k.split(t, 1)
            inner, rest = b.split('}', 1)
            return part, a + inner + rest
    return None, k


def npval(k, C, lfu):
    """Model: new-physics contribution to the parameter k, or 'lfu' if refused."""
    if k in C:
        return complex(C[k]).real
    part, c = split(k)
    if part is None:
        return 0
    if c in C:
        z = complex(C[c])
    elif 'lnu' in c and (c.replace('lnu', 'enue') in C or c.replace('lnu', 'munumu') in C):
        e, m = complex(C.get(c.replace('lnu', 'enue'), 0)), complex(C.get(c.replace('lnu', 'munumu'), 0))
        if e != m:
            lfu.append(k)
            return None
        z = e
    else:
        return 0
    return z.real if part == 'Re' else z.imag


def build_wc(rng, sm, mode):
    C = {}
    for k in sm:
        part, c = split(k)
        r = rng.random()
        z = complex(num(rng), num(rng)) if rng.random() < .7 else num(rng)
        if part is None or 'lnu' not in c:
            if r < .6:
                C[c] = z
            elif r < .7:
                C[k] = z
        elif r < .6:
            e, m = c.replace('lnu', 'enue'), c.replace('lnu', 'munumu')
            C[e] = C[m] = z
            if mode == 'nonuniversal' and rng.random() < .5:
                q = rng.random()
                if q < .25:
                    del C[e]
                elif q < .5:
                    del C[m]
                elif q < .65:
                    C[m] = complex(z) + 1e-9
                elif q < .85:
                    C[m] = complex(z) + 1e-2j
                else:
                    C[m] = complex(z) * (1 + 1e-9j) + 1e-9j
            if mode == 'zero-partner' and rng.random() < .5:
                a, b = (e, m) if rng.random() < .5 else (m, e)
                C[a] = 0.0
                del C[b]
        elif r < .7:
            C[c] = z
    for _ in range(int(rng.integers(0, 4))):
        C[gen.name(rng, plain=True)] = num(rng)
    return C


def combine(rng, mon, i):
    from wilson import wcxf
    from wilson.wcxf.converters import eos
    for _ in range(6):
        mode = str(rng.choice(['universal', 'universal', 'nonuniversal', 'zero-partner']))
        sm = sm_dict(rng, int(rng.choice([0, 1, 1, 2, 4, 20, 60])))
        C = build_wc(rng, sm, mode)
        w = wcxf.WC('WET', 'EOS', 4.2, wcxf.WC.dict2values(C))
        sm0, v0 = copy.deepcopy(sm), copy.deepcopy(w.values)
        lfu = []
        model = {k: npval(k, C, lfu) for k in sm}
        if lfu:
            mon.raises(ValueError, lambda: eos.wcxf2eos(w, sm), 'lfu-not-refused', f'{lfu[:2]}')
            mon.count('refused')
        else:
            r = eos.wcxf2eos(w, sm)
            mon.check(list(r) == list(sm), 'keys', f'{list(r)[:5]} != {list(sm)[:5]}')
            for k in sm:
                want = sm0[k]['central'] + model[k]
                got = dict(r.get(k, {}))
                mon.check(set(got) == {'central', 'min', 'max'} and all(isinstance(x, (int, float)) and x == want for x in got.values()),
                          'value', f'{k}: {got} != {want} (SM {sm0[k]}, NP {model[k]})')
            mon.count('combined')
            # twice the same, and the result is not shared with the input
            r2 = eos.wcxf2eos(w, sm)
            mon.check(gen.same({k: dict(v) for k, v in r.items()}, {k: dict(v) for k, v in r2.items()}), 'repeat', '')
        mon.check(gen.same(sm, sm0) and gen.same(w.values, v0), 'input-changed', '')
        for k in list(sm)[:8]:
            if k not in lfu:
                mon.check(eos.get_eos_np(k, w) == model[k], 'np', f'{k}: {eos.get_eos_np(k, w)} != {model[k]}')
        mon.case(mode, tuple(sm), tuple(sorted(map(str, C.items()))), sample=[mode, list(sm)[:3], list(C)[:3]])


def read_sm(rng, mon, i):
    """Only relevant parameter files count, whatever else the directory holds."""
    from wilson.wcxf.converters import eos
    d = tempfile.mkdtemp()
    try:
        exp = {}
        seen = set()
        for n in range(int(rng.integers(0, 6))):
            sm = {k: v for k, v in sm_dict(rng, int(rng.choice([0, 1, 8]))).items() if k not in seen}
            doc = dict(sm)
            r = rng.random()
            relevant = r < .5
            meta = True
            if relevant:
                doc['@metadata@'] = {'wcxf-relevant': True}
                if rng.random() < .3:
                    doc['@metadata@']['title'] = 'x'
            elif r < .65:
                doc['@metadata@'] = {'wcxf-relevant': False}
            elif r < .8:
                doc['@metadata@'] = {'title': 'wcxf-relevant'}
            elif r < .9:
                doc['@metadata@'] = {}
            else:
                meta = False
            if not meta and not doc and rng.random() < .5:
                doc = {'x': {'central': 1.0, 'min': 1.0, 'max': 1.0}}
            if not relevant and rng.random() < .1:      # files that only hold a comment or nothing at all, metadata without content
                doc = [None, dict(doc, **{'@metadata@': None})][int(rng.integers(2))]
            ext = '.yaml' if rng.random() < .8 else str(rng.choice(['.yml', '.yaml.bak', '.json', '.txt']))
            with open(os.path.join(d, f'f{n}_{int(rng.integers(100))}{ext}'), 'w') as f:
                f.write('# parameters\n')
                if doc is not None:
                    yaml.safe_dump(doc, f, sort_keys=bool(rng.random() < .5))
            if relevant and ext == '.yaml':
                exp.update(sm)
                seen |= set(sm)
        if rng.random() < .3:
            os.mkdir(os.path.join(d, 'sub'))
            with open(os.path.join(d, 'sub', 'g.yaml'), 'w') as f:
                yaml.safe_dump({'@metadata@': {'wcxf-relevant': True}, 'z::c': {'central': 1.0, 'min': 1.0, 'max': 1.0}}, f)
        before = {p: open(os.path.join(d, p)).read() for p in os.listdir(d) if os.path.isfile(os.path.join(d, p))}
        got = eos.get_sm_wcs(d + ('/' if rng.random() < .3 else ''))
        mon.check(gen.same(got, exp), 'sm-values', f'{sorted(set(got) ^ set(exp))[:5]}')
        after = {p: open(os.path.join(d, p)).read() for p in os.listdir(d) if os.path.isfile(os.path.join(d, p))}
        mon.check(before == after, 'files-changed', '')
        mon.fresh(lambda: eos.get_sm_wcs(d), 'sm-shared')
        # the files are read when asked for, not remembered
        new = sm_dict(rng, 3)
        with open(os.path.join(d, 'new.yaml'), 'w') as f:
            yaml.safe_dump(dict({'@metadata@': {'wcxf-relevant': True}}, **{k: v for k, v in new.items() if k not in exp}), f)
        mon.check(gen.same(eos.get_sm_wcs(d), dict(new, **exp)), 'sm-remembered', '')
        mon.case('dir', i, tuple(sorted(exp)), sample=sorted(exp)[:3])
    finally:
        shutil.rmtree(d, True)


def shipped(rng, mon, i):
    """The shipped parameter files with random coefficients of the real names."""
    from wilson import wcxf
    from wilson.wcxf.converters import eos
    import wload
    d = os.path.join(wload.REPO, 'wilson', 'wcxf', 'data')
    sm = eos.get_sm_wcs(d)
    raw = {}
    for f in ('eos_btos.yaml', 'eos_btou.yaml'):
        with open(os.path.join(d, f)) as fh:
            raw.update(yaml.safe_load(fh))
    raw.pop('@metadata@')
    mon.check(gen.same(sm, raw), 'shipped-sm', f'{sorted(set(sm) ^ set(raw))[:5]}')
    C = build_wc(rng, sm, 'universal')
    w = wcxf.WC('WET', 'EOS', 4.2, wcxf.WC.dict2values(C))
    r = eos.wcxf2eos(w, sm)
    for k in sm:
        want = raw[k]['central'] + npval(k, C, [])
        mon.check(all(r[k][q] == want for q in ('central', 'min', 'max')), 'shipped-value', f'{k}: {dict(r[k])} != {want}')
    mon.case('shipped', tuple(sorted(map(str, C.items()))), sample=list(C)[:4])


FAMILIES = [Family('combine', combine, 150, 2000), Family('read_sm', read_sm, 120, 1200), Family('shipped', shipped, 30, 300)]
RULE = ('random SM parameter dictionaries (plain, Re/Im, charged-current names) combined with random coefficient sets '
        '(lepton-universal, broken, partly missing) and compared exactly with a name model; random parameter directories; '
        'a case is a distinct dictionary/coefficient-set pair')
if __name__ == '__main__':
    mon.run('C09', RULE, FAMILIES)
