"""Realistic one-site faults in a function (calibration; never run by a check)."""
import ast
import copy
import random

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}


def docs(fn):
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.FunctionDef,)) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant):
            out.add(id(x.body[0].value))
        if isinstance(x, ast.Raise):
            for y in ast.walk(x):
                out.add(id(y))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('print',) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('warn', 'check_type', 'check_value', 'check_greater_than'):
            for y in ast.walk(x):
                out.add(id(y))
        if isinstance(x, ast.Assert) and x.msg is not None:
            for y in ast.walk(x.msg):
                out.add(id(y))
    return out


def mutate(fn, rng):
    skip = docs(fn)
    c = []
    for x in ast.walk(fn):
        if id(x) in skip:
            continue
        if isinstance(x, ast.Compare) and type(x.ops[0]) in CMP:
            c.append(('cmp', x))
        elif isinstance(x, ast.BinOp) and type(x.op) in BIN and not isinstance(x.left, ast.Constant):
            c.append(('bin', x))
        elif isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
            c.append(('num', x))
        elif isinstance(x, ast.Constant) and isinstance(x.value, str) and 0 < len(x.value) < 30:
            c.append(('str', x))
        elif isinstance(x, ast.Constant) and isinstance(x.value, bool):
            c.append(('bool', x))
        elif isinstance(x, ast.If):
            c.append(('negif', x))
        elif isinstance(x, ast.BoolOp):
            c.append(('boolop', x))
        elif isinstance(x, ast.Call) and len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args):
            c.append(('swapargs', x))
        elif isinstance(x, ast.Call) and x.keywords:
            c.append(('dropkw', x))
        elif isinstance(x, ast.Slice) and (x.lower is not None or x.upper is not None):
            c.append(('slice', x))
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('copy', 'deepcopy', 'strip', 'lower'):
            c.append(('dropcall', x))
    for b in _bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Expr, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not _isprint(s):
                c.append(('delstmt', (b, i)))
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)):
                c.append(('delstmt', (b, i)))
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Raise) and not s.orelse:
                c.append(('delstmt', (b, i)))
            if isinstance(s, (ast.Continue, ast.Break)):
                c.append(('delstmt', (b, i)))
    if not c:
        return None
    kinds = sorted({k for k, _ in c})
    k = rng.choice(kinds)
    x = rng.choice([y for kk, y in c if kk == k])
    line = getattr(x, 'lineno', 0)
    if k == 'cmp':
        old = type(x.ops[0]).__name__
        x.ops[0] = rng.choice(CMP[type(x.ops[0])])()
        return '%s %d %s->%s' % (k, line, old, type(x.ops[0]).__name__)
    if k == 'bin':
        old = type(x.op).__name__
        x.op = rng.choice(BIN[type(x.op)])()
        return '%s %d %s' % (k, line, old)
    if k == 'num':
        old = x.value
        x.value = x.value + rng.choice([1, -1]) if isinstance(x.value, int) else x.value * rng.choice([2.0, 1e3, -1.0])
        if x.value == old:
            return None
        return '%s %d %r->%r' % (k, line, old, x.value)
    if k == 'str':
        old = x.value
        x.value = x.value + 'x' if rng.random() < .5 else x.value[:-1]
        return '%s %d %r' % (k, line, old)
    if k == 'bool':
        x.value = not x.value
        return '%s %d' % (k, line)
    if k == 'negif':
        x.test = ast.UnaryOp(op=ast.Not(), operand=x.test)
        return '%s %d' % (k, line)
    if k == 'boolop':
        x.op = ast.And() if isinstance(x.op, ast.Or) else ast.Or()
        return '%s %d' % (k, line)
    if k == 'swapargs':
        if ast.dump(x.args[0]) == ast.dump(x.args[1]):
            return None
        x.args[0], x.args[1] = x.args[1], x.args[0]
        return '%s %d %s' % (k, line, ast.unparse(x)[:60])
    if k == 'dropkw':
        kw = x.keywords.pop(rng.randrange(len(x.keywords)))
        return '%s %d %s' % (k, line, kw.arg)
    if k == 'slice':
        if x.lower is not None and (x.upper is None or rng.random() < .5):
            x.lower = ast.BinOp(left=x.lower, op=ast.Add(), right=ast.Constant(1))
        else:
            x.upper = ast.BinOp(left=x.upper, op=ast.Sub(), right=ast.Constant(1))
        return '%s %d' % (k, line)
    if k == 'dropcall':
        rep = x.args[0] if x.args else x.func.value

        class R(ast.NodeTransformer):
            def visit_Call(self, n):
                if n is x:
                    return rep
                return self.generic_visit(n)
        R().visit(fn)
        return '%s %d %s' % (k, line, x.func.attr)
    if k == 'delstmt':
        b, i = x
        d = ast.unparse(b[i])[:60].replace('\n', ' ')
        ln = b[i].lineno
        b[i] = ast.Pass()
        return '%s %d %s' % (k, ln, d)


def _isprint(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (isinstance(s.value.func, ast.Name) and s.value.func.id == 'print' or isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('warn', 'close', 'flush'))


def _bodies(fn):
    from refactor import bodies
    return bodies(fn)
