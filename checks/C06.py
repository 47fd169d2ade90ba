"""Basis definitions: inheritance, coefficient lists and validation against a set model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen
from mon import Family
from C03 import _Saved
import copy, json, tempfile


def rsectors(rng, names, used=None, p_none=.3):
    out = {}
    for s in names:
        sec = {}
        for _ in range(int(rng.choice([0, 1, 2, 6]))):
            k = gen.name(rng, plain=bool(rng.random() < .7))
            if used is not None:
                if k in used:
                    continue
                used.add(k)
            r = rng.random()
            sec[k] = None if r < p_none else {'real': True} if r < .6 else {'tex': 'x_1'} if r < .8 else {}
        out[s] = sec
    return out


def inherit(rng, mon, i):
    """Chains and trees of bases with parents, built directly or from files."""
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis):
        eft = 'E' + str(int(rng.integers(3)))
        snames = [f's{j}' for j in range(5)]
        model, objs = {}, {}
        for n in range(int(rng.integers(2, 9))):
            name = f'b{n}'
            par = None
            if model and rng.random() < .7:
                par = str(rng.choice(list(model)))
            own = rsectors(rng, list(rng.choice(snames, size=int(rng.integers(0, 4)), replace=False)))
            want = dict(copy.deepcopy(model[par])) if par else {}
            want.update(copy.deepcopy(own))
            kw = {'parent': par} if par else {}
            if rng.random() < .5:
                o = wcxf.Basis(eft, name, own, **kw)
            else:
                d = dict(eft=eft, basis=name, sectors=own, **kw)
                o = wcxf.Basis.load(json.dumps(d))
            model[name], objs[name] = want, o
            for m, ob in objs.items():     # nobody else changed
                mon.check(gen.same(ob.sectors, model[m]), 'sectors', f'{m} after defining {name}(parent={par}): {ob.sectors} != {model[m]}')
                if rng.random() < .5:
                    w = [k for s in model[m].values() for k in s]
                    mon.check(sorted(ob.all_wcs) == sorted(w), 'all_wcs', f'{m}: {ob.all_wcs} != {w}')
            if par and getattr(o, 'parent', None) != par:
                mon.violate('parent-attribute', f'{o.__dict__}')
        mon.case('inherit', model)
        mon.raises(ValueError, lambda: wcxf.Basis(eft, 'bad', {}, parent='does not exist'), 'missing-parent', '')
        mon.raises(ValueError, lambda: wcxf.Basis('other eft', 'bad', {}, parent='b0'), 'parent-of-other-eft', '')
        mon.raises(ValueError, lambda: wcxf.Basis.load(json.dumps({'eft': eft, 'basis': 'x', 'sectors': {}, 'parent': 'nope'})), 'missing-parent-load', '')
        victim = str(rng.choice(list(model)))
        mon.raises(ValueError, lambda: wcxf.Basis(eft, victim, {'s0': {'bad': None}}, parent='does not exist'), 'missing-parent-again', '')
        mon.check(not {(eft, 'bad'), ('other eft', 'bad'), (eft, 'x')} & set(wcxf.Basis.instances), 'refused-but-registered', f'{list(wcxf.Basis.instances)[-4:]}')
        for ob in objs.values():
            mon.check(gen.same(ob.sectors, model[ob.basis]), 'sectors', 'after failed definitions')
            mon.check(wcxf.Basis[eft, ob.basis] is ob, 'refused-but-registered', f'{ob.basis} replaced by a refused definition')
            mon.check(sorted(ob.all_wcs) == sorted(k for s in model[ob.basis].values() for k in s), 'all_wcs', ob.basis)


def validate_basis(rng, mon, i):
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis):
        known = [f's{j}' for j in range(int(rng.integers(1, 5)))]
        wcxf.EFT('VE', {s: {'dB': 0} for s in known})
        used = set()
        sec = rsectors(rng, list(rng.choice(known, size=int(rng.integers(1, len(known) + 1)), replace=False)), used)
        kind = str(rng.choice(['valid', 'eft', 'sector', 'dup', 'valid', 'inherit-dup', 'inherit-ok', 'inherit-sector']))
        eft, kw = 'VE', {}
        if kind == 'eft':
            eft = 'VE2'
        elif kind == 'sector':
            odd = str(rng.choice(['zz', 'S0', 's0 ', 's', 's00', 'dB=dS=1']))
            sec[odd] = {} if rng.random() < .5 else {'q1': None}
            if rng.random() < .4:
                sec = {odd: sec[odd]}
            elif rng.random() < .3:
                sec['zz2'] = {'q2': None}
        elif kind == 'dup':
            if len(sec) < 2:
                wcxf.EFT('VE', {s: None for s in known + ['more']})
                sec['more'] = {}
            a, b = rng.choice(list(sec), size=2, replace=False)
            sec[a]['DUP'] = None
            sec[b]['DUP'] = None if rng.random() < .4 else {'real': True}
        elif kind.startswith('inherit'):
            wcxf.EFT('VE', {s: None for s in known + ['pp', 'qq']})
            psec = {'pp': {'P1': None, 'P2': {'tex': 'x'}}, 'qq': {'Q1': None}}
            if kind == 'inherit-sector':
                psec['unknown sector'] = {'U': None}
            wcxf.Basis('VE', 'par', psec)
            kw['parent'] = 'par'
            sec['qq'] = {'Q2': None}
            if kind == 'inherit-dup':
                sec[list(sec)[0]]['P2'] = None
        b = wcxf.Basis(eft, 'VB', sec, **kw)
        before = copy.deepcopy(b.sectors)
        n0 = set(os.listdir(tempfile.gettempdir()))
        if kind in ('valid', 'inherit-ok'):
            try:
                b.validate()
                mon.event()
            except Exception as e:
                mon.violate('valid-basis-rejected', f'{e!r} for {sec}')
        else:
            mon.raises(ValueError, b.validate, f'invalid-basis-accepted:{kind}', f'{sec}')
        mon.check(gen.same(b.sectors, before), 'validate-mutates', '')
        mon.check(set(os.listdir(tempfile.gettempdir())) == n0, 'validate-leaves-files',
                  f'{sorted(set(os.listdir(tempfile.gettempdir())) - n0)[:3]}')
        mon.count(kind)
        mon.case('validate', kind, sec)


STUB = """#!/bin/sh
# stand-in for latex
d=.; f=
while [ $# -gt 0 ]; do
  case "$1" in
    -output-directory|--output-directory) d="$2"; shift;;
    -output-directory=*|--output-directory=*) d="${1#*=}";;
    -*) ;;
    *) f="$1";;
  esac
  shift
done
if grep -q NOLOG "$f"; then exit 1; fi
echo "This is a stand-in" > "$d/textest.log"
if grep -q BADMACRO "$f"; then
  echo "! Undefined control sequence." >> "$d/textest.log"
  echo "l.5 BADMACRO" >> "$d/textest.log"
  echo "" >> "$d/textest.log"
  exit 1
fi
if grep -q BADQUIET "$f"; then exit 1; fi
exit 0
"""


def latex(rng, mon, i):
    """With a latex executable present (stand-in), broken TeX is refused and nothing is left behind."""
    from wilson import wcxf
    d = tempfile.mkdtemp()
    with open(os.path.join(d, 'latex'), 'w') as f:
        f.write(STUB)
    os.chmod(os.path.join(d, 'latex'), 0o755)
    path = os.environ['PATH']
    os.environ['PATH'] = d + os.pathsep + path
    try:
        with _Saved(wcxf.EFT, wcxf.Basis):
            wcxf.EFT('VE', {'s': None, 't': None})
            for kind in rng.permutation(['good', 'BADMACRO', 'BADQUIET', 'NOLOG', 'good', 'notex']):
                sec = rsectors(rng, ['s', 't'], set())
                if kind != 'notex':
                    where = str(rng.choice(['s', 't']))
                    sec[where]['texed_' + str(kind)] = {'tex': f'x_{{{kind}}}'}
                b = wcxf.Basis('VE', 'LB', sec)
                n0 = set(os.listdir(tempfile.gettempdir()))
                if kind in ('good', 'notex'):
                    try:
                        b.validate()
                        mon.event()
                    except Exception as e:
                        mon.violate('latex:valid-rejected', repr(e))
                else:
                    mon.raises(ValueError, b.validate, f'latex:accepted:{kind}', str(sec))
                mon.check(set(os.listdir(tempfile.gettempdir())) == n0, 'latex:leaves-files', str(kind))
                mon.case('latex', str(kind), sec)
    finally:
        os.environ['PATH'] = path
        import shutil
        shutil.rmtree(d, True)


def validate_wc(rng, mon, i):
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis):
        wcxf.EFT('VE', {'s': None, 't': None})
        used = set()
        sec = rsectors(rng, ['s', 't'], used)
        sec['s']['must'] = None
        used.add('must')
        b = wcxf.Basis('VE', 'VB', sec)
        wcxf.Basis('VE', 'child', {'t': {'only_child': None}}, parent='VB')
        for _ in range(10):
            names = [str(x) for x in rng.choice(sorted(used), size=int(rng.integers(0, min(6, len(used)) + 1)), replace=False)]
            vals = {n: gen.value(rng)[0] for n in names}
            kind = str(rng.choice(['valid', 'valid', 'eft', 'basis', 'key', 'key2', 'child', 'parent-key']))
            eft, basis = 'VE', 'VB'
            if kind == 'eft':
                eft = 'nope'
            elif kind == 'basis':
                basis = 'nope'
            elif kind == 'key':
                vals['not a coefficient'] = 0 if rng.random() < .5 else 1e-3
            elif kind == 'key2':
                vals['must '] = 1
            elif kind == 'child':
                basis = 'child'
                vals = {n: v for n, v in vals.items() if n in sec['s']}
                vals['only_child'] = 1
            elif kind == 'parent-key':
                vals['only_child'] = 1
            w = wcxf.WC(eft, basis, 1, vals)
            if kind in ('valid', 'child'):
                try:
                    w.validate()
                    mon.event()
                except Exception as e:
                    mon.violate('valid-wc-rejected', f'{e!r}: {vals} in {sec}')
            elif kind in ('eft', 'basis'):
                mon.raises(ValueError, w.validate, f'invalid-wc-accepted:{kind}', f'{eft} {basis}')
            else:
                mon.raises((AssertionError, ValueError), w.validate, f'invalid-wc-accepted:{kind}', f'{vals}')
            mon.count(f'wc:{kind}')
            mon.case('vwc', kind, vals)


def shipped(rng, mon, i):
    """Every basis of the package validates; WC files with any of its coefficients validate."""
    from wilson import wcxf
    for k, b in wcxf.Basis.instances.items():
        try:
            b.validate()
            mon.event()
        except Exception as e:
            mon.violate('shipped-basis-invalid', f'{k}: {e!r}')
        mon.check(sorted(b.all_wcs) == sorted(c for s in b.sectors.values() for c in s), 'shipped-all_wcs', str(k))
        ks = [str(x) for x in rng.choice(b.all_wcs, size=min(20, len(b.all_wcs)), replace=False)]
        w = wcxf.WC(k[0], k[1], 1, {c: 1 for c in ks})
        try:
            w.validate()
            mon.event()
        except Exception as e:
            mon.violate('shipped-wc-invalid', f'{k}: {e!r}')
        w.values['bogus_1111'] = 1
        mon.raises((AssertionError, ValueError), w.validate, 'shipped-wc-accepted', str(k))
        mon.case('shipped', k)


FAMILIES = [Family('inherit', inherit, 200, 3000), Family('validate_basis', validate_basis, 200, 3000),
            Family('latex', latex, 12, 60), Family('validate_wc', validate_wc, 120, 1500), Family('shipped', shipped, 2, 5)]
RULE = ('random trees of basis definitions (parents, overridden sectors, files) compared with a set model; valid and singly '
        'corrupted definitions and coefficient files validated; a case is a distinct definition or file')
if __name__ == '__main__':
    mon.run('C06', RULE, FAMILIES, ['LaTeX is not installed here; the TeX part of basis validation is driven with a stand-in latex executable'])
