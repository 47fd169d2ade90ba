"""Mutation campaign (development aid, not a registered check).

python3 tools/mutate.py N OUT.jsonl [file-substring ...]

Draws N random one-point changes of the repository's sources, each in a scratch copy
under /tmp/mut, runs the stable tests and then the checks responsible for the file
(VERIF_REPO points to the copy, one job, stop at the first violation), and appends
one line per mutant to OUT.jsonl.  Survivors are what to look at.
"""
import ast, json, os, random, re, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
import threading
REPO, VERIF, MUT = '/repo', '/tmp/mut/verif', '/tmp/mut'
ALLC = [f'C{i:02d}' for i in range(1, 31)]
MAP = {
    'wilson/classes.py': 'C24 C23 C25 C28 C30',
    'wilson/parameters.py': 'C15 C23 C16 C24',
    'wilson/match/__init__.py': 'C22 C18 C23 C07',
    'wilson/match/smeft.py': 'C18',
    'wilson/match/smeft_loop.py': 'C18',
    'wilson/match/smeft_tree.py': 'C18',
    'wilson/run/smeft/beta.py': 'C13',
    'wilson/run/smeft/classes.py': 'C12 C14 C15 C25 C23',
    'wilson/run/smeft/rge.py': 'C14 C25',
    'wilson/run/smeft/smpar.py': 'C15 C14',
    'wilson/run/wet/adm.py': 'C16 C17',
    'wilson/run/wet/classes.py': 'C16 C17 C25 C23',
    'wilson/run/wet/definitions.py': 'C17 C16 C23',
    'wilson/run/wet/rge.py': 'C16 C17',
    'wilson/translate/__init__.py': 'C20 C21 C19 C07 C23',
    'wilson/translate/smeft.py': 'C19',
    'wilson/translate/smeft_higgs.py': 'C19',
    'wilson/translate/wet.py': 'C20 C21',
    'wilson/util/__init__.py': 'C10 C11',
    'wilson/util/common.py': 'C10 C11 C12',
    'wilson/util/qcd.py': 'C01 C02',
    'wilson/util/smeft_warsaw.py': 'C12 C10 C11 C19 C26',
    'wilson/util/wet_jms.py': 'C10 C11 C20 C18',
    'wilson/wcxf/classes.py': 'C03 C04 C05 C06 C07 C08 C28 C30',
    'wilson/wcxf/cli.py': 'C08 C26 C27',
    'wilson/wcxf/converters/dsixtools.py': 'C26',
    'wilson/wcxf/converters/dsixtools_definitions.py': 'C26',
    'wilson/wcxf/converters/smeftsim.py': 'C27',
    'wilson/wcxf/converters/SMEFTsim_param_card_elements.py': 'C27',
    'wilson/wcxf/converters/eos.py': 'C09 C08',
    'wilson/wcxf/converters/yamljson.py': 'C08 C03',
}
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is', ast.And: 'or', ast.Or: 'and'}


def mutants(src):
    """(kind, start, end, replacement) on byte offsets"""
    b = src.encode()
    lines = [0]
    for l in b.split(b'\n'):
        lines.append(lines[-1] + len(l) + 1)
    off = lambda ln, c: lines[ln - 1] + c
    seg = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
    txt = lambda n: b[slice(*seg(n))].decode()
    tree = ast.parse(src)
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    strs = [n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 25 and '\n' not in n.value]
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            s, e = seg(n.left)[1], seg(n.right)[0]
            g = b[s:e].decode()
            o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(n.op)]
            if g.count(o) == 1:
                out.append(('binop', s, e, g.replace(o, SWAP[type(n.op)])))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append(('dropterm', *seg(n), txt(n.left)))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            out.append(('compare', seg(n.left)[1], seg(n.comparators[0])[0], ' ' + SWAP[type(n.ops[0])] + ' '))
        if isinstance(n, ast.BoolOp):
            s, e = seg(n.values[0])[1], seg(n.values[1])[0]
            out.append(('boolop', s, e, ' ' + SWAP[type(n.op)] + ' '))
            out.append(('boolop', *seg(n), txt(n.values[0])))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append(('neg', *seg(n), '(' + txt(n.operand) + ')'))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append(('not', *seg(n), '(' + txt(n.operand) + ')'))
        if isinstance(n, ast.Constant) and n not in doc:
            v = n.value
            if isinstance(v, bool):
                out.append(('bool', *seg(n), str(not v)))
            elif isinstance(v, int):
                out.append(('int', *seg(n), f'{v + 1}'))
                out.append(('int', *seg(n), f'({v} - 1)'))
            elif isinstance(v, (float, complex)):
                out.append(('float', *seg(n), f'({v!r} * 1.1)'))
            elif isinstance(v, str) and isinstance(par.get(n), (ast.Subscript, ast.List, ast.Tuple, ast.Dict, ast.Compare, ast.Call)) and len(v) < 25 and v and strs \
                    and not isinstance(par.get(n), ast.JoinedStr):
                near = [x for x in random.sample(strs, min(len(strs), 80)) if x != v and abs(len(x) - len(v)) <= 1 and (sum(p != q for p, q in zip(x, v)) <= 2)]
                if near:
                    out.append(('str', *seg(n), repr(random.choice(near))))
        if isinstance(n, ast.If) or isinstance(n, ast.IfExp) or isinstance(n, ast.While):
            out.append(('cond', *seg(n.test), 'not (' + txt(n.test) + ')'))
            if not isinstance(n, ast.While):
                out.append(('cond', *seg(n.test), random.choice(['True', 'False'])))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(par.get(n), (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Try)):
                out.append(('delstmt', *seg(n), 'pass'))
        if isinstance(n, ast.Call):
            f = txt(n.func)
            if f.endswith('.conj') or f.endswith('.conjugate') or f.endswith('.copy'):
                if isinstance(n.func, ast.Attribute) and not n.args:
                    out.append(('dropcall', *seg(n), txt(n.func.value)))
            if len(n.args) == 1 and re.search(r'(conj|conjugate|abs|real|imag|sqrt|deepcopy|sorted|set|list|dict|float|copy|array|dagger|transpose)$', f):
                out.append(('dropcall', *seg(n), txt(n.args[0])))
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    s = off(k.lineno, k.col_offset) if hasattr(k, 'lineno') else None
                    e = seg(k.value)[1]
                    m = re.match(rb'\s*,', b[e:e + 20])
                    if m:
                        out.append(('dropkw', s, e + m.end(), ''))
                    else:
                        j = b.rfind(b',', 0, s)
                        if j > 0 and not b[j + 1:s].strip():
                            out.append(('dropkw', j, e, ''))
            if len(n.args) == 2:
                a0, a1 = n.args
                if not isinstance(a0, ast.Starred) and not isinstance(a1, ast.Starred):
                    out.append(('swapargs', seg(a0)[0], seg(a1)[1], txt(a1) + ', ' + txt(a0)))
        if isinstance(n, ast.Attribute) and n.attr in ('real', 'imag', 'T'):
            if n.attr == 'T':
                out.append(('attr', *seg(n), txt(n.value)))
            else:
                out.append(('attr', *seg(n), txt(n.value) + {'real': '.imag', 'imag': '.real'}[n.attr]))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2:
            el = n.slice.elts
            i = random.randrange(len(el) - 1)
            if txt(el[i]) != txt(el[i + 1]):
                out.append(('swapidx', seg(el[i])[0], seg(el[i + 1])[1], txt(el[i + 1]) + ', ' + txt(el[i])))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n not in doc and re.fullmatch(r'[a-z]{1,6}(,[a-z]{1,6})*(->[a-z]{0,6})', n.value):
            v = list(n.value)
            ix = [i for i, c in enumerate(v) if c.isalpha()]
            i, j = random.sample(ix, 2)
            v[i], v[j] = v[j], v[i]
            if ''.join(v) != n.value:
                out.append(('einsum', *seg(n), repr(''.join(v))))
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name):
            pass
        if isinstance(n, (ast.Continue, ast.Break)):
            out.append(('delstmt', *seg(n), 'pass'))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            out.append(('except', *seg(n.type), 'ZeroDivisionError'))
    return b, tree, out


def pick(src, rng, n):
    """sample kinds evenly; lazily validated"""
    b, tree, ms = mutants(src)
    by = {}
    for m in ms:
        by.setdefault(m[0], []).append(m)
    out = []
    while len(out) < n and any(by.values()):
        k = rng.choice(sorted(k for k in by if by[k]))
        k, s, e, r = by[k].pop(rng.randrange(len(by[k])))
        try:
            t = (b[:s] + r.encode() + b[e:]).decode()
            if compile(t, 'x', 'exec').co_code is None or t == src:
                continue
        except (SyntaxError, ValueError, RecursionError):
            continue
        out.append((k, s, e, r, t))
    return out


def sh(cmd, timeout, **k):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        return None


lock = threading.Lock()


def work(slot, job, out, checks=None):
    f, m = job
    kind, s, e, r, new = m
    w = f'{MUT}/w{slot}'
    src = open(f'{MUT}/orig/{f}').read()
    ln = src.encode()[:s].count(b'\n') + 1
    old = src.split('\n')[ln - 1].strip()
    nl = new.split('\n')[ln - 1].strip()
    open(f'{w}/{f}', 'w').write(new)
    rec = {'file': f, 'line': ln, 'kind': kind, 'old': old[:160], 'new': nl[:160], 'orig': src.encode()[s:e].decode()[:80], 'repl': r[:80]}
    try:
        env = dict(os.environ, PYTHONPATH=MUT + '/harness', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'wilson_partial', '-p', 'no:cacheprovider', 'wilson/util/test_qcd.py',
                'wilson/wcxf/test_wcxf.py', 'wilson/wcxf/converters/test_eos.py'], 200, cwd=w, env=dict(env, WPROOT=w))
        if t is None or t.returncode != 0:
            rec['killed'] = 'tests'
        else:
            rec['checks'] = {}
            for c in (checks or MAP[f].split()):
                p = sh(['bash', VERIF + '/harness/run.sh', c, '--tier', 'quick'], 1500,
                       env=dict(os.environ, VERIF_REPO=w, VERIF_JOBS='1', VERIF_FAILFAST='1', VERIF_SEED='1'))
                rc = 'timeout' if p is None else p.returncode
                rec['checks'][c] = rc
                if rc == 1:
                    mm = re.search(r'\[([^\]]*)\]', p.stdout[p.stdout.find('VIOLATION'):])
                    rec['killed'] = c
                    rec['key'] = mm and mm.group(1)
                    break
            else:
                rec['killed'] = None
    finally:
        open(f'{w}/{f}', 'w').write(src)
    with lock:
        with open(out, 'a') as o:
            o.write(json.dumps(rec) + '\n')


def main():
    n, out, pats = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
    seed = int(os.environ.get('MUTSEED', '1'))
    random.seed(seed)
    sys.setrecursionlimit(100000)
    rng = random.Random(seed)
    os.makedirs(MUT, exist_ok=True)
    shutil.rmtree(VERIF, True)
    shutil.copytree('/verif', VERIF, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    shutil.rmtree(f'{MUT}/orig', True)
    shutil.copytree(REPO, f'{MUT}/orig', ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
    J = int(os.environ.get('MUTJOBS', '8'))
    for i in range(J):
        shutil.rmtree(f'{MUT}/w{i}', True)
        shutil.copytree(REPO, f'{MUT}/w{i}', ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
    os.makedirs(MUT + '/harness', exist_ok=True)
    h = open('/opt/vp/harness/wilson_partial.py').read().replace("'/repo", "os.environ['WPROOT'] + '").replace('"/repo', "os.environ['WPROOT'] + \"")
    open(MUT + '/harness/wilson_partial.py', 'w').write('import os\n' + h)
    jobs = []
    files = [f for f in MAP if not pats or any(p in f for p in pats)]
    for f in files:
        jobs += [(f, m) for m in pick(open(f'{MUT}/orig/{f}').read(), rng, n)]
    rng.shuffle(jobs)
    print(len(jobs), 'mutants')
    slots = list(range(J))
    free = __import__('queue').Queue()
    for s in slots:
        free.put(s)

    def one(j):
        s = free.get()
        try:
            work(s, j, out)
        except Exception as e:
            print('ERR', e)
        finally:
            free.put(s)
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(one, jobs))


if __name__ == '__main__':
    main()
