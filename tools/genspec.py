"""Authoring aid (never run by a check): draft /verif/specs from a source tree.

Docstrings, comments, plotting code and module docstrings are dropped; the
drafts are then reviewed and edited by hand and committed.  The checks read
only the committed files.
"""
import ast
import os
import sys

SRC = sys.argv[1] if len(sys.argv) > 1 else '/repo'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
DROP = {('ASAPy/XsecSampler.py', n) for n in ('plot_sampled_info', 'plot_xsec', 'set_log_scale')}
DROP |= {('ASAPy/CovManipulation.py', '__sample_with_corr')}


def strip(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                b = b[1:]
            n.body = [x for x in b if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] or [ast.Pass()]
    return node


for d, ds, fs in os.walk(os.path.join(SRC, 'ASAPy')):
    for f in sorted(fs):
        if not f.endswith('.py'):
            continue
        p = os.path.join(d, f)
        rel = os.path.relpath(p, SRC)
        tree = strip(ast.parse(open(p).read()))
        tree.body = [n for n in tree.body if not (isinstance(n, ast.FunctionDef) and (rel, n.name) in DROP)]
        o = os.path.join(OUT, rel)
        os.makedirs(os.path.dirname(o), exist_ok=True)
        s = ast.unparse(ast.fix_missing_locations(tree))
        if s.strip():
            with open(o, 'w') as w:
                w.write(s + '\n')
