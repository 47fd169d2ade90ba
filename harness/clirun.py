"""Run a console entry point of the package in this process, or in a fresh one."""
import gc, io, os, subprocess, sys
import wload


class Capture(io.StringIO):
    """The tools may close the stream they wrote to."""
    def close(self):
        pass


def inproc(func, argv, stdin=''):
    """Return (status, stdout, stderr); status: 'ok', int exit code, or the exception."""
    s = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out, err = Capture(), Capture()
    sys.argv = ['prog'] + list(argv)
    sys.stdin = io.StringIO(stdin)
    sys.stdout, sys.stderr = out, err
    try:
        try:
            st = func()
            st = st or 0
        except SystemExit as e:
            st = e.code if e.code is not None else 0
        except Exception as e:
            st = e
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = s
    gc.collect()
    return st, out.getvalue(), err.getvalue()


CODE = """import sys, os
sys.path.insert(0, {h!r})
import wload
wload.load()
from wilson.wcxf import cli
sys.exit(getattr(cli, {f!r})())
"""


def subproc(func, argv, stdin='', timeout=100):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    h = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.run([sys.executable, '-c', CODE.format(h=h, f=func)] + list(argv), input=stdin, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    return p.returncode, p.stdout, p.stderr
