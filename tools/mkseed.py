"""Create /verif/seeded/<id>/ from a spec: python3 tools/mkseed.py SPEC.py

SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source run with wilson importable), NEEDS, BREAKS.
The demo is run on the clean and on the patched tree, the stable tests on the patched tree; all of this in a scratch copy of /repo.
"""
import json, os, re, subprocess, sys, shutil, tarfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/tmp/seedwt'     # scratch copy of /repo, which itself is left alone
LOADER = r'''"""Makes wilson of the current directory importable with the basis files beside this script."""
import atexit, os, shutil, sys, tarfile, tempfile
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
repo = os.getcwd()
shutil.copytree(os.path.join(repo, 'wilson'), os.path.join(tmp, 'wilson'), ignore=shutil.ignore_patterns('__pycache__'), symlinks=True)
bases = os.path.join(tmp, 'wilson', 'wcxf', 'bases')
os.makedirs(bases, exist_ok=True)
if not any(f.endswith('.json') for _, _, fs in os.walk(bases) for f in fs):
    with tarfile.open(os.path.join(here, 'bases.tgz')) as t:
        t.extractall(bases)
sys.path.insert(0, tmp)
'''
SH = '''#!/bin/sh
# exit 0: property holds, 1: violated
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(HERE, 'seeded', g['ID'])
    shutil.rmtree(REPO, True)
    sh('cp', '-a', '/repo', REPO)
    assert not sh('git', '-C', REPO, 'status', '--porcelain', '-uno').stdout.strip(), 'repo dirty'
    os.makedirs(d, exist_ok=True)
    full = g.get('FULL', True)
    open(os.path.join(d, 'demo.py'), 'w').write(('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport load_wilson\n' if full else
                                                'import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, "/opt/vp/harness")\nimport wilson_partial\n') + g['DEMO'])
    if full:
        open(os.path.join(d, 'load_wilson.py'), 'w').write(LOADER)
        with tarfile.open(os.path.join(d, 'bases.tgz'), 'w:gz') as t:
            for f in sorted(os.listdir(os.path.join(HERE, 'bases'))):
                t.add(os.path.join(HERE, 'bases', f), f)
    p = os.path.join(d, 'demo.sh')
    open(p, 'w').write(SH)
    os.chmod(p, 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh('sh', p, cwd=REPO)
    print('clean demo', r.returncode, r.stdout[-300:], r.stderr[-500:])
    ok = r.returncode == 0
    try:
        for f, old, new in g['EDITS']:
            q = os.path.join(REPO, f)
            s = open(q).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(q, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', REPO, 'diff').stdout)
        r = sh('sh', p, cwd=REPO)
        print('patched demo', r.returncode, r.stdout[-300:], r.stderr[-300:])
        ok &= r.returncode != 0
        h = REPO + '/.harness'
        os.makedirs(h)
        open(h + '/wilson_partial.py', 'w').write(open('/opt/vp/harness/wilson_partial.py').read().replace('/repo/', REPO + '/'))
        t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'wilson_partial', '-p', 'no:cacheprovider', 'wilson/util/test_qcd.py', 'wilson/wcxf/test_wcxf.py',
               'wilson/wcxf/converters/test_eos.py', cwd=REPO, env=dict(os.environ, PYTHONPATH=h, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1'))
        m = re.search(r'(\d+) passed', t.stdout)
        print('tests', t.stdout.strip().splitlines()[-1])
        ok &= 'failed' not in t.stdout.splitlines()[-1] and m is not None and int(m[1]) >= 18
        for pid in g.get('CHECKS', [g['PROPERTY']]):
            c = sh('bash', os.path.join(HERE, 'harness', 'run.sh'), pid, '--tier', 'quick', env=dict(os.environ, VERIF_SEED='1', VERIF_REPO=REPO))
            print(pid, 'exit', c.returncode, c.stdout.strip()[:600])
    finally:
        shutil.rmtree(REPO, True)
    print(g['ID'], 'OK' if ok else 'NOT USABLE')


for s in sys.argv[1:]:
    main(s)
