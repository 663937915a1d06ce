"""Cython sources as Python trees (cy2py.py does the translation, in the interpreter that has Cython)"""
import ast, os, subprocess
from values import Unsupported
CACHE = {}


def load(repo, name):
    p = os.path.join(repo, *name.split(".")) + ".pyx"
    if not os.path.exists(p):
        raise Unsupported("module %s" % name)
    key = (p, os.path.getmtime(p))
    if key not in CACHE:
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(os.path.dirname(os.path.abspath(__file__)), "cy2py.py"), p], capture_output=True, text=True)
        CACHE[key] = r.stdout if r.returncode == 0 else None, r.stderr[-300:]
    t, err = CACHE[key]
    if t is None:
        raise Unsupported("Cython front end: " + err.strip()[-200:])
    return ast.parse(t)
