"""Behaviour-preserving rewrites of one function (calibration of the checks; never run by a check)."""
import ast
import copy
import random


def names_load(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def names_store(n):
    s = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    s |= {a.asname or a.name.split('.')[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    return s


def bodies(fn):
    """all statement lists of a function (not of nested defs)"""
    out = []

    def walk(n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        walk(s)
        for h in getattr(n, 'handlers', []):
            walk(h)
    walk(fn)
    return out


def uses_locals(fn):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'vars', 'eval', 'exec', 'super') for x in ast.walk(fn))


def fresh(fn, base):
    used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    i = 0
    while '%s%d' % (base, i) in used:
        i += 1
    return '%s%d' % (base, i)


def r_noop(fn, rng, mod):
    b = rng.choice(bodies(fn))
    i = rng.randrange(len(b) + 1)
    if i == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        i = 1
    b.insert(i, ast.parse(rng.choice(['pass', '_unused = None', 'assert True', '0', 'if False:\n    pass'])).body[0])
    return True


def r_rename(fn, rng, mod):
    if uses_locals(fn):
        return False
    params = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    st = sorted(names_store(fn) - params - {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
                - {a.asname or a.name.split('.')[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names})
    if not st:
        return False
    m = {n: n + '_renamed' for n in rng.sample(st, min(len(st), rng.randrange(1, 5)))}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
        if isinstance(x, ast.ExceptHandler) and x.name in m:
            x.name = m[x.name]
    return True


def subexprs(s):
    """(parent, field, idx, node) of expressions evaluated first and unconditionally-ish in a simple statement"""
    out = []

    def walk(n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.expr):
                if not isinstance(v, (ast.Name, ast.Constant, ast.Starred)) and not isinstance(getattr(v, 'ctx', None), (ast.Store, ast.Del)):
                    out.append((n, f, None, v))
                if not isinstance(v, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp, ast.BoolOp)):
                    walk(v)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.keyword):
                        if not isinstance(x.value, (ast.Name, ast.Constant, ast.Starred)):
                            out.append((x, 'value', None, x.value))
                        walk(x.value)
                    elif isinstance(x, ast.expr):
                        if not isinstance(x, (ast.Name, ast.Constant, ast.Starred)) and not isinstance(getattr(x, 'ctx', None), (ast.Store, ast.Del)):
                            out.append((n, f, i, x))
                        if not isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp, ast.BoolOp)):
                            walk(x)
    walk(s)
    return out


def r_temp(fn, rng, mod):
    c = []
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and getattr(s, 'value', None) is not None:
                for x in subexprs(s.value):
                    c.append((b, i, x))
    if not c:
        return False
    b, i, (p, f, k, v) = rng.choice(c)
    if isinstance(v, (ast.Slice, ast.JoinedStr, ast.FormattedValue)) or any(isinstance(x, (ast.Slice,)) for x in [v]) or (isinstance(v, ast.Tuple) and any(isinstance(x, ast.Slice) for x in v.elts)):
        return False
    if isinstance(p, ast.JoinedStr) or isinstance(v, (ast.Yield, ast.Await)):
        return False
    if names_load(v) & (comp_targets(b[i].value) | {a.arg for x in ast.walk(b[i].value) if isinstance(x, ast.Lambda) for a in ast.walk(x.args) if isinstance(a, ast.arg)}):
        return False
    n = fresh(fn, 'tmp')
    nm = ast.Name(id=n, ctx=ast.Load())
    if k is None:
        setattr(p, f, nm)
    else:
        getattr(p, f)[k] = nm
    b.insert(i, ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=v))
    return True


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        k = m.get(type(t.ops[0]))
        if k:
            return ast.Compare(left=t.left, ops=[k()], comparators=t.comparators)
    return ast.UnaryOp(op=ast.Not(), operand=t)


def r_invert(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.If) and x.orelse]
    if not c:
        return False
    x = rng.choice(c)
    x.test = neg(x.test)
    x.body, x.orelse = x.orelse, x.body
    return True


def ends(b):
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse)


def r_flatten(fn, rng, mod):
    c = []
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    s = b[i]
    o = s.orelse
    s.orelse = []
    b[i + 1:i + 1] = o
    return True


def r_nest(fn, rng, mod):
    """if c: ...return ; rest -> if c: ...return else: rest"""
    c = []
    for b in bodies(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i].orelse = b[i + 1:]
    del b[i + 1:]
    return True


def r_comp2loop(fn, rng, mod):
    c = []
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and getattr(s, 'value', None) is not None:
                for x in [(s, 'value', None, s.value)] + subexprs(s.value):
                    if isinstance(x[3], ast.ListComp) and len(x[3].generators) == 1:
                        c.append((b, i, x))
    if not c:
        return False
    b, i, (p, f, k, v) = rng.choice(c)
    g = v.generators[0]
    n = fresh(fn, 'acc')
    nm = ast.Name(id=n, ctx=ast.Load())
    if k is None:
        setattr(p, f, nm)
    else:
        getattr(p, f)[k] = nm
    st = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=n, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[v.elt], keywords=[]))
    body = [st]
    for t in g.ifs:
        body = [ast.If(test=t, body=body, orelse=[])]
    b[i:i] = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load())),
              ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
    return True


def r_loop2comp(fn, rng, mod):
    c = []
    for b in bodies(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.For) and len(t.body) == 1 and not t.orelse:
                e = t.body[0]
                if isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == 'append' and isinstance(e.value.func.value, ast.Name) and e.value.func.value.id == s.targets[0].id:
                    c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    t = b[i + 1]
    b[i].value = ast.ListComp(elt=t.body[0].value.args[0], generators=[ast.comprehension(target=t.target, iter=t.iter, ifs=[], is_async=0)])
    del b[i + 1]
    return True


def r_flip(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq)]
    if not c:
        return False
    x = rng.choice(c)
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    x.left, x.comparators, x.ops = x.comparators[0], [x.left], [m[type(x.ops[0])]()]
    return True


def r_demorgan(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, (ast.If, ast.While)) and isinstance(x.test, ast.BoolOp)]
    if not c:
        return False
    x = rng.choice(c)
    op = ast.And() if isinstance(x.test.op, ast.Or) else ast.Or()
    x.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[neg(v) for v in x.test.values]))
    return True


def r_splitand(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.If) and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And) and not x.orelse]
    if not c:
        return False
    x = rng.choice(c)
    v = x.test.values
    rest = v[1] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[1:])
    x.body = [ast.If(test=rest, body=x.body, orelse=[])]
    x.test = v[0]
    return True


def r_swapmul(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult)]
    if not c:
        return False
    x = rng.choice(c)
    x.left, x.right = x.right, x.left
    return True


def r_ternary(fn, rng, mod):
    c = []
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], ast.Name):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    s = b[i]
    b[i] = ast.If(test=s.value.test, body=[ast.Assign(targets=s.targets, value=s.value.body)], orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=s.value.orelse)])
    return True


def r_toternary(fn, rng, mod):
    c = []
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign):
                if ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name):
                    c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    s = b[i]
    b[i] = ast.Assign(targets=s.body[0].targets, value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=s.orelse[0].value))
    return True


def r_enum2range(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'enumerate'
         and len(x.iter.args) == 1 and isinstance(x.target, ast.Tuple) and isinstance(x.iter.args[0], (ast.Name, ast.Attribute))]
    if not c:
        return False
    x = rng.choice(c)
    seq = x.iter.args[0]
    i, v = x.target.elts
    x.iter = ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ast.Call(func=ast.Name(id='len', ctx=ast.Load()), args=[seq], keywords=[])], keywords=[])
    x.target = i
    if not isinstance(i, ast.Name):
        return False
    x.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(seq), slice=ast.Name(id=i.id, ctx=ast.Load()), ctx=ast.Load())))
    return True


def r_zip2range(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'zip'
         and isinstance(x.target, ast.Tuple) and all(isinstance(a, (ast.Name,)) for a in x.iter.args)]
    if not c:
        return False
    x = rng.choice(c)
    n = fresh(fn, 'idx')
    pre = []
    for t, a in zip(x.target.elts, x.iter.args):
        pre.append(ast.Assign(targets=[t], value=ast.Subscript(value=copy.deepcopy(a), slice=ast.Name(id=n, ctx=ast.Load()), ctx=ast.Load())))
    first = x.iter.args[0]
    x.iter = ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ast.Call(func=ast.Name(id='len', ctx=ast.Load()), args=[first], keywords=[])], keywords=[])
    x.target = ast.Name(id=n, ctx=ast.Store())
    x.body[0:0] = pre
    return True


def r_aug(fn, rng, mod):
    c = []
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    s = b[i]
    b[i] = ast.Assign(targets=[s.target], value=ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value))
    return True


def r_format2f(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and isinstance(x.func.value, ast.Constant)
         and isinstance(x.func.value.value, str) and not x.keywords and x.args and not any(isinstance(a, ast.Starred) for a in x.args)]
    if not c:
        return False
    import string
    x = rng.choice(c)
    parts = []
    auto = 0
    try:
        for lit, f, spec, conv in string.Formatter().parse(x.func.value.value):
            if lit:
                parts.append(ast.Constant(lit))
            if f is not None:
                if conv or '{' in (spec or ''):
                    return False
                if f == '':
                    k = auto
                    auto += 1
                elif f.isdigit():
                    k = int(f)
                else:
                    return False
                parts.append(ast.FormattedValue(value=copy.deepcopy(x.args[k]), conversion=-1, format_spec=ast.JoinedStr([ast.Constant(spec)]) if spec else None))
    except Exception:
        return False
    new = ast.JoinedStr(parts)

    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            if n is x:
                return new
            return self.generic_visit(n)
    R().visit(fn)
    return True


def r_reorder(fn, rng, mod):
    c = []
    for b in bodies(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and all(isinstance(x, ast.Name) for x in s.targets + t.targets):
                calls = [x for x in ast.walk(s) if isinstance(x, ast.Call)] and [x for x in ast.walk(t) if isinstance(x, ast.Call)]
                if calls:
                    continue
                if not (names_store(s) & (names_load(t) | names_store(t))) and not (names_store(t) & names_load(s)):
                    c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def r_inline_temp(fn, rng, mod):
    if uses_locals(fn):
        return False
    c = []
    for b in bodies(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return)):
                n = s.targets[0].id
                loads = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
                stores = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store)]
                tl = [x for x in ast.walk(t) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
                if len(loads) == 1 and len(stores) == 1 and len(tl) == 1:
                    c.append((b, i, n))
    if not c:
        return False
    b, i, n = rng.choice(c)
    v = b[i].value

    class R(ast.NodeTransformer):
        def visit_Name(self, x):
            if x.id == n and isinstance(x.ctx, ast.Load):
                return v
            return x
    R().visit(b[i + 1])
    del b[i]
    return True


def bound_in(stmts):
    s = set()
    for x in stmts:
        s |= names_store(x)
        for y in ast.walk(x):
            if isinstance(y, (ast.FunctionDef,)):
                s.add(y.name)
    return s


def comp_targets(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.comprehension):
            out |= names_store(x.target)
    return out


def r_extract(fn, rng, mod, method=False):
    """move a run of statements into a module-level helper"""
    if uses_locals(fn):
        return False
    bs = [b for b in bodies(fn)]
    b = rng.choice(bs)
    lo = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    if len(b) - lo < 1:
        return False
    i = rng.randrange(lo, len(b))
    j = min(len(b), i + rng.randrange(1, 5))
    blk = b[i:j]
    bad = (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Delete, ast.Lambda)
    if any(isinstance(x, bad) for s in blk for x in ast.walk(s)):
        return False
    # conditional definitions make the helper's return undefined: require straight stores at top level of the block
    allnames = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} | names_store(fn)
    stores = set()
    for s in blk:
        stores |= names_store(s) - comp_targets(s)
    ct = set()
    for s in blk:
        ct |= comp_targets(s)
    if ct & stores or ct & names_store(ast.Module(body=[s for bb in bs for s in bb if s not in blk], type_ignores=[])):
        return False
    top = set()
    for s in blk:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                top |= names_store(t)
    loads = set()
    for s in blk:
        loads |= names_load(s)
        for y in ast.walk(s):
            if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name):
                loads.add(y.target.id)
    cond = stores - top
    params = sorted(((loads | cond) & allnames) - ct)
    # names assigned at top before any use need not be passed, but must exist: pass only if assigned earlier in the function
    first = {}
    order = []
    for s in blk:
        for x in ast.walk(s):
            pass
    need = []
    defined = set()
    for s in blk:
        l = names_load(s) | ({y.target.id for y in ast.walk(s) if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name)})
        for n in sorted((l | (names_store(s) - (names_store(s) if isinstance(s, ast.Assign) else set()))) & allnames):
            if n not in defined and n not in need and n not in ct:
                need.append(n)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                defined |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, (ast.For, ast.While)):
            pass
    params = need
    # every param must be definitely assigned before: approximate with "assigned in an earlier statement of an enclosing list or an argument"
    before = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}

    def collect(bl):
        """-> True once the block is found"""
        nonlocal before
        for s in bl:
            if s is blk[0]:
                return True
            hit = False
            for f in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, f, None)
                if isinstance(sub, list) and any(blk[0] is y for z in sub for y in ast.walk(z)):
                    if isinstance(s, ast.For):
                        before |= names_store(s.target)
                    if isinstance(s, ast.With):
                        for it in s.items:
                            if it.optional_vars is not None:
                                before |= names_store(it.optional_vars)
                    return collect(sub)
            for h in getattr(s, 'handlers', []):
                if any(blk[0] is y for z in h.body for y in ast.walk(z)):
                    if h.name:
                        before.add(h.name)
                    return collect(h.body)
            if isinstance(s, ast.Assign):
                before |= names_store(s)
            elif isinstance(s, ast.If) and s.orelse:
                a, o = bound_top(s.body), bound_top(s.orelse)
                if ends(s.body):
                    a = o
                elif ends(s.orelse):
                    o = a
                before |= a & o
            elif isinstance(s, ast.With):
                before |= bound_top(s.body)
        return False

    def bound_top(bl):
        o = set()
        for s in bl:
            if isinstance(s, ast.Assign):
                o |= names_store(s)
            elif isinstance(s, ast.If) and s.orelse:
                a, c = bound_top(s.body), bound_top(s.orelse)
                if ends(s.body):
                    a = c
                elif ends(s.orelse):
                    c = a
                o |= a & c
        return o
    if not collect(fn.body):
        return False
    if any(p not in before for p in params):
        # loop targets local to the block's own loops are fine
        lt = set()
        for s in blk:
            for y in ast.walk(s):
                if isinstance(y, ast.For):
                    lt |= names_store(y.target)
                if isinstance(y, ast.With):
                    for it in y.items:
                        if it.optional_vars is not None:
                            lt |= names_store(it.optional_vars)
                if isinstance(y, ast.ExceptHandler) and y.name:
                    lt.add(y.name)
        # stores inside nested bodies which are not visible before: give up unless loop targets
        inner = set()
        for s in blk:
            if not isinstance(s, ast.Assign):
                inner |= names_store(s)
        ok = True
        for p in list(params):
            if p in before:
                continue
            if p in lt or p in inner:
                params.remove(p)
            else:
                ok = False
        if not ok:
            return False
    outs = sorted(n for n in stores if n in {x.id for bb in bs for s in bb if not any(s is y for y in blk) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)
                                             and not any(x is z for q in blk for z in ast.walk(q))})
    outs = [n for n in outs if n in top or n in before]
    lost = [n for n in stores if n not in outs and n in {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and not any(x is z for q in blk for z in ast.walk(q))}]
    if lost:
        return False
    for n in outs:
        if n not in top and n not in params:
            if n in before:
                params.append(n)
            else:
                return False
    hn = '_helper_%d' % rng.randrange(10**6)
    body = list(blk)
    if outs:
        rv = ast.Name(id=outs[0], ctx=ast.Load()) if len(outs) == 1 else ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Load()) for n in outs], ctx=ast.Load())
        body = body + [ast.Return(rv)]
    h = ast.FunctionDef(name=hn, args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                        body=body, decorator_list=[], returns=None, type_params=[])
    call = ast.Call(func=ast.Name(id=hn, ctx=ast.Load()), args=[ast.Name(id=p, ctx=ast.Load()) for p in params], keywords=[])
    if outs:
        tg = ast.Name(id=outs[0], ctx=ast.Store()) if len(outs) == 1 else ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in outs], ctx=ast.Store())
        st = ast.Assign(targets=[tg], value=call)
    else:
        st = ast.Expr(call)
    b[i:j] = [st]
    # before the first def/class
    for k, s in enumerate(mod.body):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            mod.body.insert(k, h)
            break
    return True


def r_const(fn, rng, mod):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Constant) and isinstance(x.value, (int, float, str)) and not isinstance(x.value, bool)]
    defaults = {id(d) for a in ast.walk(fn) if isinstance(a, ast.arguments) for d in a.defaults + a.kw_defaults if d is not None}
    doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) else None
    inf = {id(v) for x in ast.walk(fn) if isinstance(x, ast.JoinedStr) for v in ast.walk(x)}
    c = [x for x in c if x is not doc and id(x) not in inf and id(x) not in defaults]
    if not c:
        return False
    x = rng.choice(c)
    n = '_CONST_%d' % rng.randrange(10**6)
    v = ast.Constant(x.value)

    class R(ast.NodeTransformer):
        def visit_Constant(self, y):
            return ast.Name(id=n, ctx=ast.Load()) if y is x else y
    R().visit(fn)
    k = next(i for i, s in enumerate(mod.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef)))
    mod.body.insert(k, ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=v))
    return True


def r_guardvar(fn, rng, mod):
    """flag = cond; if flag:"""
    c = []
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    n = fresh(fn, 'flag')
    b.insert(i, ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=b[i].test))
    b[i + 1].test = ast.Name(id=n, ctx=ast.Load())
    return True


def r_subexpr_helper(fn, rng, mod):
    """move one expression into a helper function"""
    if uses_locals(fn):
        return False
    c = []
    allnames = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} | names_store(fn)
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and getattr(s, 'value', None) is not None:
                for x in subexprs(s.value):
                    c.append(x)
    if not c:
        return False
    p, f, k, v = rng.choice(c)
    if isinstance(v, (ast.Slice, ast.JoinedStr, ast.FormattedValue, ast.Lambda)) or (isinstance(v, ast.Tuple) and any(isinstance(x, ast.Slice) for x in v.elts)) or isinstance(p, ast.JoinedStr):
        return False
    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda)) for x in ast.walk(v)):
        return False
    params = sorted((names_load(v) - comp_targets(v)) & allnames)
    hn = '_sub_%d' % rng.randrange(10**6)
    h = ast.FunctionDef(name=hn, args=ast.arguments(posonlyargs=[], args=[ast.arg(q) for q in params], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                        body=[ast.Return(v)], decorator_list=[], returns=None, type_params=[])
    call = ast.Call(func=ast.Name(id=hn, ctx=ast.Load()), args=[ast.Name(id=q, ctx=ast.Load()) for q in params], keywords=[])
    if k is None:
        setattr(p, f, call)
    else:
        getattr(p, f)[k] = call
    kk = next(i for i, s in enumerate(mod.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef)))
    mod.body.insert(kk, h)
    return True


REWRITES = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}
