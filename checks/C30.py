"""A request that fails part-way leaves objects, registries and options as they were: the next request gives what a fresh object gives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, dets, wload
from mon import Family
from C03 import _Saved
from C24 import Sandbox, SHIPPED, valid, invalid
import copy, io, json, warnings
import numpy as np


class Fault(Exception):
    """An error from outside (as a failing allocation or an interrupt would cause)."""


class Interrupt(BaseException):
    pass


class Injector:
    """Raises `exc` on entry of the n-th call of a function of the package (n=0: only counts)."""
    def __init__(self, n=0, exc=Fault):
        self.n, self.exc, self.count, self.where, self.seen = n, exc, 0, None, []
        self.root = (os.path.join(wload.REPO, 'wilson') + os.sep, os.sep + 'wilson' + os.sep)

    def hook(self, frame, event, arg):
        if event == 'call' and self.where is None:
            c = frame.f_code
            f = c.co_filename
            if self.root[0] in f or (self.root[1] in f and 'site-packages' not in f):
                if c.co_name.startswith('<'):
                    return
                self.count += 1
                if not self.n:
                    self.seen.append((f, c.co_name))
                if self.count == self.n:
                    self.where = f'{f.split(self.root[1])[-1]}:{c.co_name}'
                    raise self.exc(f'injected at call {self.n}')

    def __enter__(self):
        sys.setprofile(self.hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        return False


def attempt(f, n, exc):
    """Run f with a fault at its n-th internal call; (injector, outcome)."""
    with Injector(n, exc) as inj:
        try:
            r = f()
        except (Fault, Interrupt):
            r = 'fault'
        except Exception as e:
            r = e
    return inj, r


def calls(f):
    with Injector() as inj:
        f()
    return inj.seen


def clear():
    """Empty the caches of functions, so that the requests below really compute."""
    import gc, functools
    for o in gc.get_objects():
        try:
            if type(o).__name__ == '_lru_cache_wrapper' and getattr(o, '__module__', '').startswith('wilson'):
                o.cache_clear()
        except Exception:
            pass


def pick(rng, seen):
    """A call number: mostly a call of a function chosen among the distinct ones, else an early, late or any one."""
    n, r = len(seen), rng.random()
    if r < .7:
        d = sorted(set(seen))
        x = d[int(rng.integers(len(d)))]
        w = [j for j, y in enumerate(seen) if y == x]
        return 1 + w[[0, -1, int(rng.integers(len(w)))][int(rng.integers(3))]]
    return int(min(n, 1 + (rng.integers(n) if r < .85 else rng.integers(min(n, 25)) if r < .93 else n - 1 - rng.integers(min(n, 25)))))


def close(mon, got, ref, key, msg, tol=1e-12):
    top = max([abs(v) for v in ref.values()] + [0])
    bad = [k for k in sorted(set(got) | set(ref)) if not abs(got.get(k, 0) - ref.get(k, 0)) <= tol * abs(ref.get(k, 0)) + 1e-14 * top]
    mon.event(len(ref))
    mon.check(not bad, key, f'{msg}: {[(k, got.get(k, 0), ref.get(k, 0)) for k in bad[:3]]} of {len(bad)}')


def snapshot():
    from wilson import wcxf, Wilson, parameters
    from wilson.run.smeft import smpar
    return {'bases': {k: copy.deepcopy(v.sectors) for k, v in wcxf.Basis.instances.items()} if snapshot.deep else set(wcxf.Basis.instances),
            'efts': set(wcxf.EFT.instances), 'translators': set(wcxf.Translator.instances), 'matchers': set(wcxf.Matcher.instances),
            'defaults': copy.deepcopy(Wilson._default_options), 'parameters': dict(parameters.p), 'smparameters': dict(smpar.p)}


snapshot.deep = False


def unchanged(mon, a, msg):
    b = snapshot()
    for k in a:
        mon.check(a[k] == b[k], 'global:' + k, msg)


def running(rng, mon, i):
    """Wilson objects."""
    from wilson import Wilson
    snapshot.deep = i % 6 == 0
    E = ['WET', 'WET-4', 'WET-3']
    smeft = i % 8 == 7
    e = 'SMEFT' if smeft else E[i % 3]
    b = str(rng.choice(['Warsaw', 'Warsaw up'] if smeft else ['flavio', 'JMS', 'Bern']))
    d = dets.draw(rng, e, b, int(rng.choice([1, 10, 50])))
    chain = ['SMEFT'] + E if smeft else E
    reqs = []
    for _ in range(2 if smeft else 4):
        t = str(rng.choice(chain[chain.index(e):]))
        mu = float({'SMEFT': 300., 'WET': 10, 'WET-4': 2.5, 'WET-3': 1.1}[t] * rng.choice([1., 1.2]))
        reqs.append((mu, t, str(rng.choice(['Warsaw', 'Warsaw up'] if t == 'SMEFT' else ['flavio', 'JMS', 'Bern']))))
    par = {} if smeft or rng.random() < .5 else {'m_b': float(rng.uniform(4, 4.4)), 'Vcb': float(rng.uniform(.039, .043))}

    def make():
        w = Wilson(d, dets.SCALE[e], e, b)
        w.set_option('parameters', par)
        w.set_option('smeft_accuracy', 'leadinglog')
        return w

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        clear()
        ref, cnt = [], []
        for q in reqs:
            cnt.append(calls(lambda: ref.append(dets.flat(make().match_run(*q)))))
        before = snapshot()
        w = make()
        v0, h0, o0 = copy.deepcopy(w.wc.values), hash(w), {k: w.get_option(k) for k in SHIPPED}
        for step in range(2 if smeft else 8):
            j = int(rng.integers(len(reqs)))
            if rng.random() < .5:
                w.clear_cache()
            if rng.random() < .5:
                clear()
            n = pick(rng, cnt[j])
            inj, r = attempt(lambda: w.match_run(*reqs[j]), n, [Fault, Interrupt][int(rng.integers(2))])
            msg = f'{e} {b} {reqs[j]} after a fault in {inj.where} (call {n} of {len(cnt[j])})'
            mon.count('faults' if inj.where else 'request finished before the fault')
            if inj.where and not isinstance(r, (str, Exception)):
                mon.count('fault handled inside')
            mon.check(w.wc.values == v0 and hash(w) == h0 and {k: w.get_option(k) for k in SHIPPED} == o0, 'object-changed', msg)
            unchanged(mon, before, msg)
            for k in rng.permutation(len(reqs))[:2]:
                close(mon, dets.flat(w.match_run(*reqs[k])), ref[k], 'same-object', f'{reqs[k]}: {msg}')
            close(mon, dets.flat(w.match_run(*reqs[j])), ref[j], 'same-object', msg)
            close(mon, dets.flat(make().match_run(*reqs[j])), ref[j], 'other-object', msg)
            mon.case('running', e, inj.where, n)
            # requests that are refused or fail by themselves
            mu, t, bb = reqs[j]
            bad = [(mu, t, 'no such basis'), (mu, 'WET-9', bb), (-mu, t, bb), (float('nan'), t, bb), ('high', t, bb), (mu, t, bb, 7), (0., t, bb)]
            bad = bad[int(rng.integers(len(bad) - (1 if smeft else 0)))]
            try:
                with np.errstate(all='ignore'):
                    w.match_run(*bad)
            except Exception as ex:
                mon.count('request refused')
                msg = f'{e} {b}: {bad} failed with {type(ex).__name__}'
                mon.check(w.wc.values == v0 and hash(w) == h0 and {k: w.get_option(k) for k in SHIPPED} == o0, 'object-changed', msg)
                unchanged(mon, before, msg)
                close(mon, dets.flat(w.match_run(*reqs[j])), ref[j], 'same-object', msg)


def options(rng, mon, i):
    """set_option and set_default_option either take effect or not."""
    from wilson import Wilson
    with Sandbox(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w, o = Wilson({}, 80., 'WET', 'flavio'), Wilson({}, 80., 'WET', 'flavio')
        for step in range(15):
            k, v, want = valid(rng)
            tgt = int(rng.integers(2))
            f = (lambda: w.set_option(k, v)) if tgt == 0 else (lambda: Wilson.set_default_option(k, v))
            get = (lambda: {q: w.get_option(q) for q in SHIPPED}) if tgt == 0 else (lambda: {q: Wilson._default_options[q] for q in SHIPPED})
            old = copy.deepcopy(get())
            oth = {q: o.get_option(q) for q in SHIPPED}
            inj, r = attempt(f, 1 + int(rng.integers(6)), Fault)
            now = get()
            new = dict(old, **{k: want})
            mon.check(now == old or now == new, 'half-set', f'{k}={v!r}: {now}, fault in {inj.where}')
            mon.check({q: o.get_option(q) for q in SHIPPED} == oth, 'option-leak', f'{k}={v!r}')
            if inj.where is None:
                mon.check(now == new, 'not-set', f'{k}={v!r}')
            f()
            mon.check(get() == new, 'not-set-after', f'{k}={v!r} after a fault in {inj.where}')
            mon.case('option', k, inj.where, tgt)
            # values that are refused
            kb, vb = invalid(rng)
            old, oth = copy.deepcopy(get()), {q: o.get_option(q) for q in SHIPPED}
            try:
                (w.set_option if tgt == 0 else Wilson.set_default_option)(kb, vb)
            except Exception:
                mon.count('option refused')
            mon.check(get() == old and {q: o.get_option(q) for q in SHIPPED} == oth, 'refused-option', f'{kb}={vb!r}: {get()}, before {old}')


def registry(rng, mon, i):
    """Definitions either are registered completely or not at all."""
    from wilson import wcxf
    with _Saved(wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher):
        wcxf.EFT.load(json.dumps({'eft': 'T', 'sectors': {'s': {}, 't': {}}}))
        wcxf.Basis('T', 'b', {'s': {'x': None}}, metadata={'description': 'old'})
        for step in range(12):
            kind = ['basis', 'child', 'loaded', 'eft', 'translator', 'matcher', 'redefine'][int(rng.integers(7))]
            name = f'n{step}'
            f = {'basis': lambda: wcxf.Basis('T', name, {'s': {'y': None}}, metadata={'description': 'd'}),
                 'child': lambda: wcxf.Basis('T', name, {'t': {'y': None}}, parent='b'),
                 'loaded': lambda: wcxf.Basis.load(json.dumps({'eft': 'T', 'basis': name, 'sectors': {'t': {'y': {'real': True}}}, 'parent': 'b'})),
                 'eft': lambda: wcxf.EFT.load(json.dumps({'eft': name, 'sectors': {'q': {}}})),
                 'translator': lambda: wcxf.translator('T', 'b', name)(lambda C, s, p: {'z': 1}),
                 'matcher': lambda: wcxf.matcher('T', 'b', 'T', name)(lambda C, s, p: {'z': 1}),
                 'redefine': lambda: wcxf.Basis('T', 'b', {'s': {'x': None, 'y%d' % step: None}})}[kind]
            cls = {'eft': wcxf.EFT, 'translator': wcxf.Translator, 'matcher': wcxf.Matcher}.get(kind, wcxf.Basis)
            key = {'eft': name, 'translator': ('T', 'b', name), 'matcher': ('T', 'b', 'T', name), 'redefine': ('T', 'b')}.get(kind, ('T', name))
            had = dict(cls.instances)
            inj, r = attempt(f, 1 + int(rng.integers(5)), Fault)
            others = {k: v for k, v in cls.instances.items() if k != key}
            mon.check(others == {k: v for k, v in had.items() if k != key}, 'registry-others', f'{kind} {inj.where}')
            if key in cls.instances and cls.instances[key] is not had.get(key):
                o = cls.instances[key]      # registered: then complete
                try:
                    if cls is wcxf.Basis:
                        str(o), repr(o), o.validate(), list(o.all_wcs)
                        wcxf.WC('T', key[1], 1., {k: 1. for k in o.all_wcs}).validate()
                    elif cls is wcxf.EFT:
                        mon.check(list(o.sectors) == ['q'] and o.known_bases == (), 'registered-incomplete', f'{kind} {inj.where}')
                    else:
                        mon.check(callable(o.function), 'registered-incomplete', f'{kind} {inj.where}')
                except Exception as ex:
                    mon.violate('registered-incomplete', f'{kind}: fault in {inj.where}: {ex!r}')
            elif key in had:
                mon.check(cls.instances.get(key) is had[key], 'registry-lost', f'{kind} {inj.where}')
            if inj.where:
                mon.count('definition interrupted')
            f()
            mon.check(key in cls.instances, 'not-registered', f'{kind} after a fault in {inj.where}')
            mon.case('registry', kind, inj.where)


def values(rng, mon, i):
    """Coefficient objects: numeric views, translation and dumping."""
    from wilson import wcxf
    routes = sorted(k for k in wcxf.Translator.instances if k[0] != 'SMEFT' or i % 10 == 0)
    e, a, b = routes[int(rng.integers(len(routes)))]
    d = dets.draw(rng, e, a, int(rng.choice([1, 10, 60])))
    mk = lambda: wcxf.WC(e, a, dets.SCALE[e], wcxf.WC.dict2values(d))
    acts = {'dict': lambda w: dict(w.dict), 'df': lambda w: w.df.to_dict(), 'str': str, 'json': lambda w: w.dump(fmt='json'), 'yaml': lambda w: w.dump(fmt='yaml'),
            'translate': lambda w: dets.flat(w.translate(b)), 'validate': lambda w: w.validate(), 'html': lambda w: w._repr_html_()}
    clear()
    ref = {n: f(mk()) for n, f in acts.items()}
    w = mk()
    h, v0 = hash(w), copy.deepcopy(w.values)
    before = snapshot()
    for step in range(10):
        n = str(rng.choice(list(acts)))
        c = calls(lambda: acts[n](mk()))
        if not c:
            continue
        inj, r = attempt(lambda: acts[n](w), pick(rng, c), [Fault, Interrupt][int(rng.integers(2))])
        mon.count('faults' if inj.where else 'finished before the fault')
        msg = f'{e} {a}->{b}: {n} after a fault in {inj.where}'
        mon.check(w.values == v0 and hash(w) == h, 'values-changed', msg)
        unchanged(mon, before, msg)
        for m in (n, str(rng.choice(list(acts)))):
            got = acts[m](w)
            mon.check(got == ref[m] or (m == 'translate' and got.keys() == ref[m].keys() and np.allclose(list(got.values()), list(ref[m].values()), rtol=1e-12, atol=0)),
                      'value-object', f'{m}: {msg}')
        mon.case('values', e, a, b, n, inj.where)


FAMILIES = [Family('running', running, 48, 800, timeout=200), Family('options', options, 60, 1000), Family('registry', registry, 60, 1000),
            Family('values', values, 60, 1500)]
RULE = ('exceptions are injected at random internal calls of requests, option changes, definitions and conversions; afterwards the same objects, fresh objects and the '
        'registries are compared with undisturbed ones; a case is a distinct operation and place of the fault')
if __name__ == '__main__':
    mon.run('C30', RULE, FAMILIES)
