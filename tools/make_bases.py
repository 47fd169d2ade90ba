"""One-off generator of /verif/bases/*.json.

The pinned tree has an empty submodule wilson/wcxf/bases, without which
`import wilson` fails.  This script reconstructs the basis files the package
needs from what the pinned tree itself says about them:
  * WET/JMS: data/run_wet_definitions_coeffs.json lists every sector and name,
    the hermiticity classes in util/wet_jms.py say which ones are real;
  * SMEFT/Warsaw: operator names and symmetry classes as listed in
    util/test_smeftutil.py, representatives = the entries that the
    symmetrisation of that class leaves alone;
  * flavio / Bern / EOS / formflavor / FlavorKit / Higgs-Warsaw up: the keys the
    translators from JMS produce and the ones the translators to JMS ask for.
The output is committed; checks never run this script.
usage: make_bases.py stage1|stage2|stage3  (each in a fresh interpreter)
"""
import json, os, sys, itertools
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'bases')
REPO = os.environ.get('REPO', '/repo')


def dump(name, d):
    p = os.path.join(OUT, name.lower())
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        json.dump(d, f, indent=0, sort_keys=False)
        f.write('\n')


def jms_stage():
    co = json.load(open(REPO + '/wilson/data/run_wet_definitions_coeffs.json'))
    cls5 = ["VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL", "V8udLL", "VeuRR", "VedRR", "V1udRR",
            "V8udRR", "VnueLR", "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR", "V1uuLR",
            "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR", "V1ddLR", "V8ddLR"]
    cls46 = ['VuuRR', 'VddRR', 'VuuLL', 'VddLL', 'VeeLL', 'VeeRR', 'VnunuLL']

    def real(n):
        if '_' not in n:
            return True
        k, i = n.split('_')
        if k in cls5:
            return i[0] == i[1] and i[2] == i[3]
        if k in cls46:
            return (i[0] == i[1] and i[2] == i[3]) or (i[1] == i[2] and i[0] == i[3])
        return False
    secs = {s: {n: ({'real': True} if real(n) else {}) for n in ns} for s, ns in co.items()}
    return secs


def stage1():
    import numpy as np
    sys.path.insert(0, '/opt/vp/harness'); sys.path.insert(0, REPO)
    import wilson_partial
    from wilson.util.common import EFTutil as E
    jms = jms_stage()
    WC0 = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB", "phiGtilde",
           "phiBtilde", "phiWtilde", "phiWtildeB"]
    WC2 = ["uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW", "dB", "phil1", "phil3", "phie",
           "phiq1", "phiq3", "phiu", "phid", "phiud", "llphiphi"]
    WC4 = ["ll", "qq1", "qq3", "lq1", "lq3", "ee", "uu", "dd", "eu", "ed", "ud1", "ud8", "le", "lu", "ld", "qe",
           "qu1", "qd1", "qu8", "qd8", "ledq", "quqd1", "quqd8", "lequ1", "lequ3", "duql", "qque", "qqql", "duue"]
    sym = {2: ["phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid"], 9: ['llphiphi'],
           4: ["ll", "qq1", "qq3", "uu", "dd"],
           5: ["lq1", "lq3", "eu", "ed", "ud1", "ud8", "le", "lu", "ld", "qe", "qu1", "qd1", "qu8", "qd8"],
           6: ['ee'], 7: ['qque'], 8: ['qqql']}
    cl = {k: c for c, ks in sym.items() for k in ks}

    def reps(k, nd):
        rng = np.random.default_rng(5)
        a = rng.normal(size=(3,) * nd) + 1j * rng.normal(size=(3,) * nd)
        b = a if k not in cl else getattr(E, f'symmetrize_{cl[k]}')(a)
        out = {}
        for ix in itertools.product(range(3), repeat=nd):
            if a[ix].real == b[ix].real:
                r = b[ix].imag == 0
                assert r or b[ix].imag == a[ix].imag
                out[k + '_' + ''.join(str(i + 1) for i in ix)] = {'real': True} if r else {}
        return out
    warsaw = {'dB=dL=0': {}, 'dL=2': {}, 'dB=dL=1': {}}
    for k in WC0:
        warsaw['dB=dL=0'][k] = {'real': True}
    for k in WC2:
        warsaw['dL=2' if k == 'llphiphi' else 'dB=dL=0'].update(reps(k, 2))
    for k in WC4:
        warsaw['dB=dL=1' if k in ('duql', 'qque', 'qqql', 'duue') else 'dB=dL=0'].update(reps(k, 4))
    n = sum(1 if d.get('real') else 2 for d in warsaw['dB=dL=0'].values())
    print('warsaw dB=dL=0 count', n)
    dump('SMEFT.eft.json', {'eft': 'SMEFT', 'sectors': {s: {} for s in warsaw},
                            'metadata': {'description': 'SMEFT (reconstructed)'}})
    dump('SMEFT.Warsaw.basis.json', {'eft': 'SMEFT', 'basis': 'Warsaw', 'sectors': warsaw})
    dump('SMEFT.Warsaw_up.basis.json', {'eft': 'SMEFT', 'basis': 'Warsaw up', 'sectors': warsaw})
    mass = {s: dict(v) for s, v in warsaw.items()}
    mass['dL=2'] = {f'llphiphi_{i}{i}': {'real': True} for i in '123'}
    dump('SMEFT.Warsaw_mass.basis.json', {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'sectors': mass})
    H = {s: dict(v) for s, v in warsaw.items()}
    d0 = H['dB=dL=0']
    for k in list(d0):
        if k in ('phi', 'phiBox', 'phiD', 'phiG', 'phiW', 'phiB', 'phiWB', 'phiGtilde', 'phiWtilde', 'phiBtilde',
                 'phiWtildeB') or k.split('_')[0] in ('phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid', 'phiud'):
            del d0[k]
    for k in ('deltalambda3', 'deltacz', 'czBox', 'cgg', 'cgammagamma', 'czz', 'czgamma', 'cggtilde',
              'cgammagammatilde', 'czztilde', 'czgammatilde'):
        d0[k] = {'real': True}
    for k in ('deltagWlL', 'deltagZeL', 'deltagZeR', 'deltagZuL', 'deltagZdL', 'deltagZuR', 'deltagZdR'):
        for i in range(1, 4):
            for j in range(i, 4):
                d0[f'{k}_{i}{j}'] = {'real': True} if i == j else {}
    for i in range(1, 4):
        for j in range(1, 4):
            d0[f'deltagWqR_{i}{j}'] = {}
    dump('SMEFT.Higgs-Warsaw_up.basis.json', {'eft': 'SMEFT', 'basis': 'Higgs-Warsaw up', 'sectors': H})
    for e in ('WET', 'WET-4', 'WET-3', 'WET-2'):
        dump(f'{e}.eft.json', {'eft': e, 'sectors': {s: {} for s in jms}})
    dump('WET.JMS.basis.json', {'eft': 'WET', 'basis': 'JMS', 'sectors': jms})
    names = [n for v in jms.values() for n in v]
    print('jms', len(names), len(set(names)), sum(1 if d.get('real') else 2 for v in jms.values() for d in v.values()))
    for b in ('flavio', 'Bern', 'EOS', 'formflavor', 'FlavorKit'):
        dump(f'WET.{b}.basis.json', {'eft': 'WET', 'basis': b, 'sectors': {}})
    for e in ('WET-4', 'WET-3'):
        for b in ('JMS', 'flavio', 'Bern'):
            dump(f'{e}.{b}.basis.json', {'eft': e, 'basis': b, 'sectors': {}})
    dump('WET-2.JMS.basis.json', {'eft': 'WET-2', 'basis': 'JMS', 'sectors': {}})


def load_wilson():
    sys.path.insert(0, os.path.join(os.path.dirname(OUT), 'harness'))
    import wload
    return wload.load()


def types_of(k, n):
    if n == 2:
        return [k[0]] * 2 if not k.startswith('nu') else ['nu'] * 2
    body = k[1:].lstrip('18')[:-2]
    toks = []
    while body:
        if body.startswith('nu'):
            toks.append('nu'); body = body[2:]
        else:
            toks.append(body[0]); body = body[1:]
    if len(toks) == 2:
        return [toks[0]] * 2 + [toks[1]] * 2
    if len(toks) == 3:
        return toks + (['e'] if toks.count('u') == 2 else ['nu'])
    assert len(toks) == 4, (k, toks)
    return toks


def alive(n, nmax):
    """coefficient survives when only the first nmax[type] generations are kept"""
    if '_' not in n:
        return True
    k, i = n.split('_')
    return all(int(c) <= nmax.get(t, 3) for c, t in zip(i, types_of(k, len(i))))


NMAX = {'WET-4': {'u': 2, 'd': 2, 'e': 3}, 'WET-3': {'u': 1, 'd': 2, 'e': 2}, 'WET-2': {'u': 1, 'd': 1, 'e': 2}}


def stage2():
    jms = jms_stage()
    for e, nm in NMAX.items():
        secs = {s: {n: d for n, d in v.items() if alive(n, nm)} for s, v in jms.items()}
        secs = {s: v for s, v in secs.items() if v}
        dump(f'{e}.JMS.basis.json', {'eft': e, 'basis': 'JMS', 'sectors': secs})
        dump(f'{e}.eft.json', {'eft': e, 'sectors': {s: {} for s in secs}})
        print(e, len(secs), sum(map(len, secs.values())))


def stage3():
    import numpy as np
    w = load_wilson()
    from wilson import wcxf
    from wilson.translate import wet
    jms = wcxf.Basis['WET', 'JMS'].sectors
    rng = np.random.default_rng(3)

    def rnd(keys, e='WET'):
        out = {}
        for s in jms.values():
            for n, d in s.items():
                if n in keys:
                    out[n] = rng.normal() + (0 if d.get('real') else 1j * rng.normal())
        return out
    funcs = {'flavio': wet.JMS_to_flavio, 'Bern': wet.JMS_to_Bern, 'EOS': wet.JMS_to_EOS,
             'formflavor': wet.JMS_to_FormFlavor, 'FlavorKit': wet.JMS_to_FlavorKit}
    dflts = {'WET': None}
    for b, f in funcs.items():
        key_secs = {}
        for s, v in jms.items():
            o = f(rnd(set(v)), 80.)
            for k, x in o.items():
                if x != 0:
                    key_secs.setdefault(k, []).append((s, abs(x)))
        allc = rnd({n for v in jms.values() for n in v})
        dense = [f(rnd(set(allc)), 80.) for _ in range(3)]
        zero = [k for k in dense[0] if k not in key_secs]
        multi = {k: v for k, v in key_secs.items() if len(v) > 1}
        print(b, len(key_secs), 'never driven', zero[:20], len(zero), 'multi', list(multi.items())[:5], len(multi))
        secs = {}
        for k, v in key_secs.items():
            s = max(v, key=lambda t: t[1])[0]
            re = all(abs(complex(d[k]).imag) == 0 for d in dense)
            secs.setdefault(s, {})[k] = {'real': True} if re else {}
        dump(f'WET.{b}.basis.json', {'eft': 'WET', 'basis': b, 'sectors': secs})
        if b in ('flavio', 'Bern'):
            for e in ('WET-4', 'WET-3'):
                al = {n for v in jms.values() for n in v if alive(n, NMAX[e])}
                o = f(rnd(al), 80.)
                nz = {k for k, x in o.items() if x != 0}
                ss = {s: {k: d for k, d in v.items() if k in nz} for s, v in secs.items()}
                ss = {s: v for s, v in ss.items() if v}
                dump(f'{e}.{b}.basis.json', {'eft': e, 'basis': b, 'sectors': ss})
                print(e, b, sum(map(len, ss.values())), len(ss))
        wcxf.Basis.instances.pop(('WET', b))
        wcxf.Basis('WET', b, secs)


def stage4():
    """add keys that X_to_JMS asks for but JMS_to_X never produces"""
    w = load_wilson()
    from wilson import wcxf
    from wilson.translate import wet
    for b, f in (('flavio', wet.flavio_to_JMS), ('flavio', wet.flavio_to_Bern), ('Bern', wet.Bern_to_JMS), ('Bern', wet.Bern_to_flavio)):
        miss = []
        B = wcxf.Basis['WET', b]
        while True:
            try:
                f({}, 80.)
                break
            except KeyError as e:
                k = e.args[0]
                miss.append(k)
                B.sectors.setdefault('??', {})[k] = {}
                B._all_wcs = None
        print(f.__name__, len(miss), miss[:40])


if __name__ == '__main__':
    globals()[sys.argv[1]]()
