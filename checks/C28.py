"""Views of coefficient sets and bases (text, markdown, HTML, data frames): everything listed, once, with its value; printing changes nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen
from mon import Family
from C03 import _Saved
import copy, html as htmllib, re
from html.parser import HTMLParser
import numpy as np


def cells(line):
    return [c.strip() for c in line.strip().strip('|').split('|')]


def plain(rng):
    """A name without characters that break a table."""
    n = str(rng.choice([gen.name(rng, plain=True), 'b->s::c7', 'C9_bsmumu', 'bsee::Re{c9}', 'ünï_12', '1e5', 'null', 'x' * 90, '日本', '#hash', '=']))
    return n.replace('|', '')


class Tags(HTMLParser):
    """Keeps the tags that are open; notes tags that end without having begun."""
    VOID = {'br', 'hr', 'img', 'input', 'meta', 'link', 'col'}

    def __init__(self):
        super().__init__()
        self.open, self.wrong, self.count = [], [], 0

    def handle_starttag(self, tag, attrs):
        self.count += 1
        if tag not in self.VOID:
            self.open.append(tag)

    def handle_endtag(self, tag):
        if self.open and self.open[-1] == tag:
            self.open.pop()
        else:
            self.wrong.append(tag)


def balanced(mon, h, key):
    t = Tags()
    t.feed(h)
    t.close()
    mon.check(t.count and not t.open and not t.wrong, key, f'open {t.open[:5]}, unexpected end {t.wrong[:5]}: {h[:200]}')


def wc(rng, mon, i):
    from wilson import wcxf, Wilson
    n = int(rng.choice([0, 1, 2, 5, 20, 55]))
    vals, nums = {}, {}
    while len(vals) < n:
        k = plain(rng)
        v, x = gen.value(rng)
        vals[k], nums[k] = v, x
    e, b = 'E' + gen.name(rng, plain=True), 'B' + gen.name(rng, plain=True)
    scale = float(rng.choice([1., 91.1876, 1000, 10**rng.uniform(-1, 5)]))
    o = wcxf.WC(e, b, scale, vals)
    keep = copy.deepcopy(vals)
    order = [str(q) for q in rng.permutation(['str', 'md', 'html', 'repr', 'df', 'str'])]
    for q in order:
        if q in ('str', 'md'):
            s = str(o) if q == 'str' else o._repr_markdown_()
            head, _, table = s.partition('Values')
            for what in (e, b, str(scale)):
                mon.check(f'`{what}`' in head or f' {what} ' in head, 'wc-header', f'{what} missing in {head!r}')
            rows = [cells(l) for l in table.splitlines() if l.startswith('| `')]
            mon.eq([r[0].strip('`') for r in rows], list(nums), 'wc-rows', 'coefficients listed in the table')
            for r in rows:
                k = r[0].strip('`')
                if k in nums:
                    try:
                        got = complex(r[1])
                    except (ValueError, IndexError):
                        got = None
                    mon.check(got == complex(nums[k]), 'wc-value', f'{k}: {r[1:]} for {nums[k]!r}')
        elif q == 'repr':
            s = repr(o)
            mon.check(repr(e) in s and repr(b) in s and str(scale) in s, 'wc-repr', s)
        elif q == 'df':
            df = o.df
            mon.check(list(df.index) == list(nums) and list(df.columns) == ['Re', 'Im'], 'df', f'{df}')
            mon.check(all(complex(df['Re'].iloc[j], df['Im'].iloc[j]) == complex(x) for j, x in enumerate(nums.values())), 'df-values', f'{df}')
        else:
            raw = o._repr_html_()
            s = htmllib.unescape(raw)
            mon.check(all(f'<code>{w}</code>' in s for w in (e, b)) and f'{scale} GeV' in s, 'wc-html-header', s[:300])
            body = re.findall(r'<tr>\s*<th>(.*?)</th>((?:\s*<td>.*?</td>)+)\s*</tr>', raw.split('Values</h4>')[-1], re.S)
            if max(map(len, nums), default=0) < 50:      # (pandas shortens long cells)
                mon.eq([htmllib.unescape(x[0]) for x in body], list(nums), 'wc-html-rows', '')
                for (k, td), x in zip(body, nums.values()):
                    re_, im = re.findall(r'<td>(.*?)</td>', td)
                    top = max(abs(complex(v)) for v in nums.values())
                    for g, w in ((re_, complex(x).real), (im, complex(x).imag)):
                        # (displayed with six decimals or six digits)
                        mon.check(abs(float(g) - w) <= 1e-5 * abs(w) + 1e-6, 'wc-html-value', f'{k}: {re_} {im} for {x}')
        mon.check(gen.same(o.values, keep) and list(o.values) == list(keep), 'view-changes', f'after {q}')
    mon.case('wc', n, e, b, tuple(order), repr(vals)[:2000])


def basis(rng, mon, i):
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis):
        model, objs = {}, {}
        used = set()
        for j in range(int(rng.integers(1, 4))):
            own, tex = {}, {}
            for s in rng.permutation(['s0', 's1', 's2', 's3'])[:int(rng.integers(1, 5))]:
                d = {}
                for _ in range(int(rng.choice([0, 1, 3, 8]))):
                    k = plain(rng)
                    if k in used:
                        continue
                    used.add(k)
                    d[k] = [None, {}, {'real': True}, {'real': False}, {'tex': r'\bar x \gamma_\mu ' + str(len(used))}, {'tex': 'O_1', 'real': True}][int(rng.integers(6))]
                own[str(s)] = d
            par = str(rng.choice(list(model))) if model and rng.random() < .6 else None
            want = dict(copy.deepcopy(model[par])) if par else {}
            want.update(copy.deepcopy(own))
            md = [None, {}, {'description': 'A basis of *something*, ünï'}, {'author': 'x'}][int(rng.integers(4))]
            kw = dict({'parent': par} if par else {}, **({'metadata': md} if md is not None else {}))
            name = f'bas{j}'
            model[name], objs[name] = want, (wcxf.Basis('EE', name, own, **kw), md)
        for name, (o, md) in objs.items():
            text = str(o)
            mon.check(f'`{name}`' in text.split('\n')[0] and '`EE`' in text.split('\n')[0], 'basis-title', text[:200])
            mon.check(('A basis of *something*, ünï' in text) == bool(md and 'description' in md), 'basis-description', f'{md}: {text[:300]}')
            mon.check(o._repr_markdown_() == text[:len(o._repr_markdown_())], 'basis-markdown', text[:200])
            r = repr(o)
            mon.check("'EE'" in r and repr(name) in r, 'basis-repr', r)
            tables(mon, text, model[name], name)
            mon.check(gen.same(o.sectors, model[name]), 'view-changes', name)
        mon.case('basis', repr(model)[:3000])


def tables(mon, text, model, name):
    got, cur = {}, None
    for l in text.splitlines():
        m = re.match(r'### `(.*)`$', l)
        if m:
            cur = m.group(1)
            mon.check(cur not in got, 'basis-sector-twice', f'{name} {cur}')
            got[cur] = []
        elif l.startswith('| `') and cur is not None:
            got[cur].append(cells(l))
    mon.eq(list(got), list(model), 'basis-sectors', name)
    for s in model:
        rows = got.get(s, [])
        mon.eq([r[0].strip('`') for r in rows], list(model[s]), 'basis-rows', f'{name} {s}')
        for r in rows:
            d = model[s].get(r[0].strip('`')) or {}
            if len(r) == 3:
                mon.eq(r[2], 'R' if d.get('real') else 'C', 'basis-type', f'{name} {s} {r[0]}')
                mon.eq(r[1].strip('$').strip(), d.get('tex', '~').strip(), 'basis-tex', f'{name} {s} {r[0]}')
            else:
                # operators with | in them: the type is still the last cell
                mon.eq(r[-1], 'R' if d.get('real') else 'C', 'basis-type', f'{name} {s} {r}')


def shipped(rng, mon, i):
    """All bases that come with the package can be shown."""
    from wilson import wcxf
    ks = list(wcxf.Basis.instances)
    for k in ks[i::4]:
        o = wcxf.Basis[k]
        text = str(o)
        mon.check(f'`{k[1]}`' in text and f'`{k[0]}`' in text, 'basis-title', str(k))
        tables(mon, text, o.sectors, str(k))
        mon.check(k[0] in repr(o) and k[1] in repr(o), 'basis-repr', repr(o))
        mon.case('shipped', k)


def results(rng, mon, i):
    """Views of results of running and translating, through Wilson objects."""
    from wilson import Wilson, wcxf
    e, b = [('WET', 'flavio'), ('WET', 'JMS'), ('WET-4', 'Bern'), ('WET-3', 'flavio'), ('SMEFT', 'Warsaw')][i % 5]
    names = sorted(wcxf.Basis[e, b].all_wcs)
    d = {}
    real = {k: bool((v or {}).get('real')) for s in wcxf.Basis[e, b].sectors.values() for k, v in s.items()}
    for k in rng.choice(names, size=int(rng.choice([1, 3, 12])), replace=False):
        d[str(k)] = gen.part(gen.cplx(rng) * 10**rng.uniform(-9, -3), real[str(k)])
    sc = {'WET': 4.8, 'WET-4': 3., 'WET-3': 2., 'SMEFT': 1000.}[e]
    w = Wilson(d, sc, e, b)
    outs = [w.wc]
    if e != 'SMEFT':
        outs += [w.match_run(sc * .8, e, b), w.wc.translate('JMS')]
    for o in outs:
        s = str(o)
        rows = {cells(l)[0].strip('`'): complex(cells(l)[1]) for l in s.splitlines() if l.startswith('| `')}
        mon.check(rows == {k: complex(v) for k, v in o.dict.items()}, 'result-table', f'{e} {b}')
        mon.check(f'`{o.eft}`' in s and f'`{o.basis}`' in s and f'{o.scale} GeV' in s, 'result-header', s[:200])
        mon.check(set(o.df.index) == set(o.dict), 'result-df', f'{e} {b}')
    balanced(mon, w._repr_html_(), 'wilson-html-tags')
    balanced(mon, w.wc._repr_html_(), 'result-html-tags')
    h = htmllib.unescape(w._repr_html_())
    mon.check(f'<code>{e}</code>' in h and f'<code>{b}</code>' in h and f'{float(sc)} GeV' in h, 'wilson-html', h[:300])
    mon.check(all(f'<th>{k}</th>' in h for k in w.wc.dict), 'wilson-html-rows', '')
    mon.check(not re.search('wcxf', h, re.I), 'wilson-html-heading', h[:200])
    mon.case('results', e, b, tuple(sorted(d)))


FAMILIES = [Family('wc', wc, 400, 6000), Family('basis', basis, 250, 4000), Family('shipped', shipped, 4, 4), Family('results', results, 20, 300)]
RULE = ('random coefficient sets, bases (with parents and descriptions) and results are shown as text, markdown, HTML and data frames and read back '
        'with an own parser; a case is a distinct object')
if __name__ == '__main__':
    mon.run('C28', RULE, FAMILIES)
