"""Import the wilson package of /repo's working tree with basis data present.

The pinned tree's submodule wilson/wcxf/bases is empty.  If it stays empty,
directory listings and opens below it are redirected to /verif/bases while the
package is being imported; nothing is written into /repo.
"""
import builtins, glob, importlib, io, os, sys, tempfile, atexit, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
BASES = os.path.join(os.path.dirname(HERE), 'bases')


def _purge():
    for m in [m for m in sys.modules if m == 'wilson' or m.startswith('wilson.')]:
        del sys.modules[m]


class _Redirect:
    """Redirects reads below <repo>/wilson/wcxf/bases to /verif/bases."""
    def __init__(self):
        self.src = os.path.join(REPO, 'wilson', 'wcxf', 'bases')

    def _map(self, p):
        try:
            s = os.fspath(p)
        except TypeError:
            return p
        if isinstance(s, str):
            n = os.path.normpath(os.path.join(os.getcwd(), s))
            if n == self.src or n.startswith(self.src + os.sep):
                return BASES + n[len(self.src):]
        return p

    def __enter__(self):
        self.saved = (glob.glob, glob.iglob, os.listdir, os.scandir, builtins.open, io.open)
        g, ig, ld, sd, op, iop = self.saved
        m = self._map
        glob.glob = lambda p, **k: g(m(p), **k)
        glob.iglob = lambda p, **k: ig(m(p), **k)
        os.listdir = lambda p='.': ld(m(p))
        os.scandir = lambda p='.': sd(m(p))
        builtins.open = lambda f, *a, **k: op(m(f), *a, **k)
        io.open = lambda f, *a, **k: iop(m(f), *a, **k)
        return self

    def __exit__(self, *a):
        (glob.glob, glob.iglob, os.listdir, os.scandir, builtins.open, io.open) = self.saved
        return False


def _overlay():
    """Symlink farm of /repo/wilson with bases/ filled in (fallback)."""
    tmp = tempfile.mkdtemp(prefix='wilson-overlay-')
    atexit.register(shutil.rmtree, tmp, True)
    root = os.path.join(tmp, 'wilson')
    os.makedirs(os.path.join(root, 'wcxf'))
    src = os.path.join(REPO, 'wilson')
    for d in ('', 'wcxf'):
        for e in os.listdir(os.path.join(src, d)):
            if (d, e) in (('', 'wcxf'), ('wcxf', 'bases')):
                continue
            os.symlink(os.path.join(src, d, e), os.path.join(root, d, e))
    os.symlink(BASES, os.path.join(root, 'wcxf', 'bases'))
    return tmp


def load():
    """Return the imported `wilson` package (raises if it cannot be imported)."""
    sys.dont_write_bytecode = True
    if sys.pycache_prefix is None:
        # never trust __pycache__ files of another tree state
        d = tempfile.mkdtemp(prefix='wilson-pyc-')
        atexit.register(shutil.rmtree, d, True)
        sys.pycache_prefix = d
    if 'wilson' in sys.modules:
        return sys.modules['wilson']
    real = glob.glob(os.path.join(REPO, 'wilson', 'wcxf', 'bases', '*.eft.json'))
    sys.path.insert(0, REPO)
    if real:
        return importlib.import_module('wilson')
    try:
        with _Redirect():
            return importlib.import_module('wilson')
    except Exception:
        _purge()
        try:
            tmp = _overlay()
            sys.path[0] = tmp
            return importlib.import_module('wilson')
        except Exception:
            _purge()
            sys.path[0] = REPO
            with _Redirect():      # raise the original error
                return importlib.import_module('wilson')
