"""Registry of named EFTs, bases, translators and matchers: history against a dictionary model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen
from mon import Family
from C03 import _Saved


def history(rng, mon, i):
    from wilson import wcxf
    classes = [wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher]
    with _Saved(*classes):
        model = {c: dict(c.instances) for c in classes}
        base = {c: set(c.instances) for c in classes}
        pool = [gen.name(rng, plain=True) for _ in range(4)] + ['SMEFT', 'WET', 'Warsaw', 'JMS']
        pick = lambda: str(rng.choice(pool))

        def key(c):
            if c is wcxf.EFT:
                return pick()
            return tuple(pick() for _ in range({wcxf.Basis: 2, wcxf.Translator: 3, wcxf.Matcher: 4}[c]))

        def check_all(touch=None):
            for c in classes:
                mon.check(len(c.instances) == len(model[c]) and set(c.instances) == set(model[c]) and all(c.instances[k] is model[c][k] for k in model[c]),
                          f'contents:{c.__name__}', f'after {touch}: registry of {c.__name__} differs from the model: '
                          f'{sorted(map(str, set(c.instances) ^ set(model[c])))[:5]}')
        trace = []
        for step in range(40):
            op = str(rng.choice(['new', 'new', 'new', 'get', 'get', 'missing', 'del', 'known', 'decorate', 'refused', 'clear'],
                                p=[.2, .15, .13, .15, .08, .07, .08, .08, .035, .02, .005]))
            c = classes[int(rng.integers(4))]
            k = key(c)
            trace.append((op, c.__name__, k))
            if op == 'new':
                if c is wcxf.EFT:
                    o = c(k, {'s': None})
                elif c is wcxf.Basis:
                    o = c(*k, {'s': {'x': None}})
                else:
                    o = c(*k, lambda C, s, p: C)
                model[c][k] = o
                attrs = {wcxf.EFT: ('eft',), wcxf.Basis: ('eft', 'basis'), wcxf.Translator: ('eft', 'from_basis', 'to_basis'),
                         wcxf.Matcher: ('from_eft', 'from_basis', 'to_eft', 'to_basis')}[c]
                mon.eq(tuple(getattr(o, a) for a in attrs), k if isinstance(k, tuple) else (k,), f'attributes:{c.__name__}', '')
            elif op == 'decorate':
                f = lambda C, s, p: {}
                if rng.random() < .5:
                    c, k = wcxf.Translator, key(wcxf.Translator)
                    r = wcxf.translator(*k)(f)
                else:
                    c, k = wcxf.Matcher, key(wcxf.Matcher)
                    r = wcxf.matcher(*k)(f)
                mon.check(r is f, 'decorator-returns-function', f'{r}')
                mon.check(k in c.instances and c[k].function is f, f'decorator-registers:{c.__name__}', f'{k}')
                model[c][k] = c.instances.get(k)
            elif op == 'get':
                if rng.random() < .8 and model[c]:
                    ks = list(model[c])
                    k = ks[int(rng.integers(len(ks)))]
                if k in model[c]:
                    mon.check(c[k] is model[c][k] and c.get_instance(k) is model[c][k], f'get:{c.__name__}', f'{k}')
                else:
                    mon.raises(KeyError, lambda: c[k], f'get-missing:{c.__name__}', f'{k}')
            elif op == 'missing':
                k = 'nope' if c is wcxf.EFT else ('nope',) + k[1:]
                mon.raises(KeyError, lambda: c[k], f'get-missing:{c.__name__}', f'{k}')
                mon.raises(KeyError, lambda: c.del_instance(k), f'del-missing:{c.__name__}', f'{k}')
            elif op == 'del':
                ks = [x for x in model[c] if x not in base[c]] or list(model[c])
                if not ks:
                    continue
                k = ks[int(rng.integers(len(ks)))]
                if rng.random() < .5:
                    del c[k]
                else:
                    c.del_instance(k)
                del model[c][k]
                mon.raises(KeyError, lambda: c[k], f'get-deleted:{c.__name__}', f'{k}')
            elif op == 'refused':     # a definition that is refused leaves everything as it was
                c, k = wcxf.Basis, key(wcxf.Basis)
                known = list(model[c])
                if known and rng.random() < .6:
                    k = known[int(rng.integers(len(known)))]
                par = [p for p in pool + ['nowhere'] if (k[0], p) not in model[c]]
                par = par[int(rng.integers(len(par)))]
                mon.raises(ValueError, lambda: c(*k, {'s': {'x': None}}, parent=par), 'refused-parent', f'{k} {par}')
            elif op == 'clear':
                c.clear_all()
                model[c] = {}
            elif op == 'known':
                for e in list(model[wcxf.EFT].values())[:40]:
                    mon.eq(sorted(e.known_bases), sorted(b[1] for b in model[wcxf.Basis] if b[0] == e.eft), 'known_bases', e.eft)
                    mon.eq(sorted(e.known_translators), sorted(t for t in model[wcxf.Translator] if t[0] == e.eft), 'known_translators:EFT', e.eft)
                for b in list(model[wcxf.Basis].values())[:60]:
                    kt = b.known_translators
                    mon.eq(sorted(kt['from']), sorted(t for t in model[wcxf.Translator] if t[:2] == (b.eft, b.basis)), 'known_translators:from', str((b.eft, b.basis)))
                    mon.eq(sorted(kt['to']), sorted(t for t in model[wcxf.Translator] if t[0] == b.eft and t[2] == b.basis), 'known_translators:to', str((b.eft, b.basis)))
            check_all((op, c.__name__, k))
            mon.case('step', op, c.__name__, step, i, sample=trace[-6:])
            mon.count(op)


def subclass(rng, mon, i):
    """User-defined families of named instances are independent of each other."""
    from wilson import wcxf

    class A(wcxf.NamedInstanceClass):
        pass

    class B(wcxf.NamedInstanceClass):
        pass
    with _Saved(wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher):
        model = {A: {}, B: {}}
        sizes = {c: len(c.instances) for c in (wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher)}
        for _ in range(30):
            c = A if rng.random() < .5 else B
            n = f'n{int(rng.integers(6))}'
            r = rng.random()
            if r < .6:
                model[c][n] = c(n)
            elif r < .8 and n in model[c]:
                del c[n]
                del model[c][n]
            elif r < .83 and hasattr(c, 'instances'):
                c.clear_all()
                model[c] = {}
            for c in (A, B):
                mon.check(dict(getattr(c, 'instances', {})) == model[c], 'subclass-contents', f'{dict(getattr(c, "instances", {}))} != {model[c]}')
                for n, o in model[c].items():
                    mon.check(c[n] is o, 'subclass-get', n)
        mon.eq({c: len(c.instances) for c in sizes}, sizes, 'subclass-leak', 'built-in registries changed')
        mon.case('subclass', i)


FAMILIES = [Family('history', history, 160, 2500), Family('subclass', subclass, 60, 600)]
RULE = ('random histories of create/override/get/delete/clear/decorate over the four registries and over user subclasses, '
        'compared after every step with a dictionary model; a case is one step of a distinct history')
if __name__ == '__main__':
    mon.run('C05', RULE, FAMILIES)
