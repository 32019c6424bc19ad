"""Equivalent spellings of the same statements, reduced to one before the analysis (reference and code alike)."""
import ast
import copy


def loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def stored(nodes):
    out = set()
    for x in nodes:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def own(nodes, kinds):
    """statements of these kinds that belong to this loop, not to one inside it"""
    out, todo = [], list(nodes)
    while todo:
        x = todo.pop()
        if isinstance(x, kinds):
            out.append(x)
        if isinstance(x, (ast.For, ast.While)):
            todo += [y for z in x.orelse for y in [z]]
            if ast.Return in kinds:
                out += [y for z in x.body for y in ast.walk(z) if isinstance(y, ast.Return)]
            continue
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo += [y for y in ast.iter_child_nodes(x) if isinstance(y, (ast.stmt, ast.ExceptHandler))]
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n


def plain(e):
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(e))


def load(e):
    e = copy.deepcopy(e)
    for n in ast.walk(e):
        if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript, ast.Tuple, ast.List)) and hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return e


class Spelling(ast.NodeTransformer):
    """x.__class__; x.__dict__['a'] = v"""

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == '__class__' and isinstance(n.ctx, ast.Load):
            return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Name('type', ast.Load()), [n.value], []), n))
        return n

    def visit_Assign(self, s):
        self.generic_visit(s)
        for k, t in enumerate(s.targets):
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == '__dict__' and isinstance(t.slice, ast.Constant) \
                    and isinstance(t.slice.value, str) and t.slice.value.isidentifier():
                s.targets[k] = ast.copy_location(ast.Attribute(t.value.value, t.slice.value, ast.Store()), t)
        return s

    def visit_Expr(self, s):
        self.generic_visit(s)
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'update' and c.keywords and all(k.arg and plain(k.value) for k in c.keywords) \
                and plain(c.func.value) and all(plain(a) for a in c.args):
            b = c.func.value
            d = isinstance(b, ast.Attribute) and b.attr == '__dict__'
            out = [ast.Expr(ast.Call(c.func, c.args, []))] if c.args else []
            for k in c.keywords:
                t = ast.Attribute(copy.deepcopy(b.value), k.arg, ast.Store()) if d else ast.Subscript(copy.deepcopy(b), ast.Constant(k.arg), ast.Store())
                out.append(ast.Assign([t], k.value))
            for x in out:
                ast.fix_missing_locations(ast.copy_location(x, s))
            return out
        return s


class Desugar:
    def __init__(self):
        self.n = 0

    def func(self, f):
        f.body = [z for x in f.body for y in [Spelling().visit(x)] for z in (y if isinstance(y, list) else [y])]
        self.fn = f
        self.locals = stored(f.body)
        self.lists = {t.id for n in ast.walk(f) if isinstance(n, ast.Assign) and isinstance(n.value, ast.List) for t in n.targets if isinstance(t, ast.Name)}
        f.body = self.block(f.body)
        self.joins(f)

    def primed(self, body):
        """x = read(); while test(x): ...; x = read()"""
        out = []
        for s in body:
            if isinstance(s, ast.While) and not s.orelse and out and len(s.body) > 1 and isinstance(out[-1], ast.Assign) and isinstance(s.body[-1], ast.Assign) \
                    and ast.dump(out[-1]) == ast.dump(s.body[-1]) and not plain(out[-1].value) and not own(s.body, (ast.Continue,)):
                a = out.pop()
                s = ast.copy_location(ast.While(ast.copy_location(ast.Constant(True), s), [a, ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body[:-1], []), s)
                ast.fix_missing_locations(s)
            out.append(s)
        return out

    def staged(self, body):
        """x[k] = v; x[k].shape = s; x[k] = f(x[k]): one store of what is there in the end"""
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Subscript) and plain(p.targets[0]) \
                    and isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = ast.dump(load(p.targets[0]))
                x = s.targets[0]
                if isinstance(x, ast.Attribute) and x.attr == 'shape' and ast.dump(load(x.value)) == t and plain(s.value):
                    p.value = ast.copy_location(ast.Call(ast.Attribute(p.value, 'reshape', ast.Load()), [s.value], []), p.value)
                    ast.fix_missing_locations(p)
                    continue
                if ast.dump(load(x)) == t and plain(s.value):
                    uses = [y for y in ast.walk(s.value) if isinstance(y, ast.Subscript) and ast.dump(y) == t]
                    if len(uses) == 1:
                        u, v = uses[0], p.value

                        class Put(ast.NodeTransformer):
                            def visit_Subscript(self, y):
                                return v if y is u else self.generic_visit(y)
                        p.value = Put().visit(s.value)
                        continue
            out.append(s)
        return out

    def block(self, body):
        body = self.summed(self.staged(self.primed(body)))
        out = []
        for i, s in enumerate(body):
            r = self.stmt(s, body, i)
            for x in r:
                ast.copy_location(x, s)
                ast.fix_missing_locations(x)
            out += r
        return out

    def stmt(self, s, body, i):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                setattr(s, f, self.block(b))
        for h in getattr(s, 'handlers', []):
            h.body = self.block(h.body)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'extend' \
                and len(s.value.args) == 1 and not s.value.keywords and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.extend(s.value.func.value, s.value.args[0], s)
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.ListComp) and s.target.id in self.lists:
            return self.extend(s.target, s.value, s)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'update':
            return self.update(s.value, s)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == 'shape' \
                and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id in self.locals:
            # the view is given another shape
            x = s.targets[0].value.id
            return [ast.Assign([ast.Name(x, ast.Store())], ast.Call(ast.Attribute(ast.Name(x, ast.Load()), 'reshape', ast.Load()), [s.value], []))]
        if isinstance(s, ast.If):
            return self.preset(s)
        if isinstance(s, ast.For):
            return self.fill(s)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
            self.n += 1
            k = 'item_%d_' % self.n
            return [ast.For(ast.Name(k, ast.Store()), s.value.value, [ast.Expr(ast.Yield(ast.Name(k, ast.Load())))], [], None)]
        if isinstance(s, ast.Try):
            return self.matched(s) or self.lookup(s)
        if isinstance(s, ast.While):
            return self.loop(s, body, i)
        return [s]

    def matched(self, s):
        """try: x = r.match(t).groups() / except AttributeError: raise ..."""
        if len(s.body) != 1 or len(s.handlers) != 1 or s.orelse or s.finalbody:
            return None
        a, h = s.body[0], s.handlers[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == 'AttributeError') or h.name or not isinstance(h.body[-1], ast.Raise) or not isinstance(a, ast.Assign):
            return None
        v = a.value
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('groups', 'group', 'groupdict') and isinstance(v.func.value, ast.Call)
                and isinstance(v.func.value.func, ast.Attribute) and v.func.value.func.attr in ('match', 'search', 'fullmatch')):
            return None
        self.n += 1
        k = 'match_%d_' % self.n
        m = ast.Assign([ast.Name(k, ast.Store())], v.func.value)
        v.func.value = ast.Name(k, ast.Load())
        return [m, ast.If(ast.Compare(ast.Name(k, ast.Load()), [ast.Is()], [ast.Constant(None)]), h.body, []), a]

    def summed(self, body):
        """x[k] = 0; for ...: x[k] += e: a sum kept in a variable and stored in the end"""
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and not s.orelse and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Subscript) \
                    and isinstance(p.value, ast.Constant) and isinstance(p.targets[0].value, ast.Name) and isinstance(p.targets[0].slice, ast.Name):
                t = p.targets[0]
                x, k = t.value.id, t.slice.id
                stores = [y for y in ast.walk(s) if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == x]
                adds = [y for y in ast.walk(s) if isinstance(y, ast.AugAssign) and isinstance(y.op, ast.Add) and isinstance(y.target, ast.Subscript)
                        and ast.dump(y.target) == ast.dump(t)]
                if len(adds) == len(stores) == 1 and not {x, k} & stored([s]) and not any(isinstance(y, (ast.Break, ast.Return)) for y in ast.walk(s)):
                    self.n += 1
                    v = 'total_%d_' % self.n
                    adds[0].target = ast.copy_location(ast.Name(v, ast.Store()), t)
                    out[-1] = ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], p.value), p)
                    out += [s, ast.copy_location(ast.Assign([t], ast.Name(v, ast.Load())), s)]
                    for y in out[-3:]:
                        ast.fix_missing_locations(y)
                    continue
            out.append(s)
        return out

    def preset(self, s):
        """if c: self._x = None / else: self.x = v: the first store may come before"""
        for own_, other, test in ((s.body, s.orelse, ast.UnaryOp(ast.Not(), s.test)), (s.orelse, s.body, s.test)):
            if len(own_) == 1 and len(other) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute)
                                                          and isinstance(x.targets[0].value, ast.Name) for x in own_ + other):
                p, q = own_[0].targets[0], other[0].targets[0]
                if p.value.id == q.value.id and p.attr == '_' + q.attr and isinstance(own_[0].value, ast.Constant) and plain(s.test):
                    return [own_[0], ast.If(test, other, [])]
        return [s]

    def fill(self, s):
        """for i in range(a, b): x[i] = c"""
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) in (1, 2) and not it.keywords
                and isinstance(s.target, ast.Name) and not s.orelse and all(plain(a) for a in it.args)):
            return [s]
        i = s.target.id
        for x in s.body:
            if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].slice, ast.Name)
                    and x.targets[0].slice.id == i and isinstance(x.targets[0].value, ast.Name)
                    and (isinstance(x.value, ast.Constant) or isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id in ('np', 'numpy', 'math'))):
                return [s]
        inside = {id(y) for l in ast.walk(self.fn) if isinstance(l, ast.For) and isinstance(l.target, ast.Name) and l.target.id == i for y in ast.walk(l)}
        inside |= {id(y) for y in ast.walk(s)}
        if any(isinstance(y, ast.Name) and y.id == i and id(y) not in inside for y in ast.walk(self.fn)) or any(x.targets[0].value.id in loads(it) for x in s.body):
            return [s]
        lo, hi = (None, it.args[0]) if len(it.args) == 1 else it.args
        return [ast.Assign([ast.Subscript(x.targets[0].value, ast.Slice(copy.deepcopy(lo), copy.deepcopy(hi), None), ast.Store())], x.value) for x in s.body]

    def extend(self, obj, comp, s):
        """xs.extend(e for ...) appends each e in turn"""
        if not isinstance(obj, (ast.Name, ast.Attribute)) or any(g.is_async for g in comp.generators):
            return [s]
        if isinstance(obj, ast.Name) and obj.id in loads(comp):
            return [s]
        self.n += 1
        m = {x: '%s_%d_' % (x, self.n) for x in stored([g.target for g in comp.generators])}
        comp = copy.deepcopy(comp)
        first = comp.generators[0].iter
        comp = Rename(m).visit(comp)
        comp.generators[0].iter = first
        b = [ast.Expr(ast.Call(ast.Attribute(load(obj), 'append', ast.Load()), [comp.elt], []))]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            b = [ast.For(g.target, g.iter, b, [], None)]
        return b

    def update(self, c, s):
        """d.update({k: v}), d.update(k=v): the stores one by one"""
        obj = c.func.value
        if not isinstance(obj, (ast.Name, ast.Attribute)) or not plain(obj) or len(c.args) > 1 or any(k.arg is None for k in c.keywords):
            return [s]
        pairs = []
        if c.args:
            if not isinstance(c.args[0], ast.Dict) or any(k is None for k in c.args[0].keys):
                return [s]
            pairs = list(zip(c.args[0].keys, c.args[0].values))
        pairs += [(ast.Constant(k.arg), k.value) for k in c.keywords]
        if not pairs or isinstance(obj, ast.Name) and any(obj.id in loads(v) for k, v in pairs):
            return [s]
        if isinstance(obj, ast.Attribute) and any(ast.dump(x) == ast.dump(obj) for k, v in pairs for x in ast.walk(v)):
            return [s]
        return [ast.Assign([ast.Subscript(load(obj), k, ast.Store())], v) for k, v in pairs]

    def lookup(self, s):
        """try: v = d[k] / except KeyError: v = default"""
        if len(s.handlers) != 1 or s.orelse or s.finalbody or len(s.body) != 1 or len(s.handlers[0].body) != 1:
            return [s]
        h = s.handlers[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == 'KeyError') or h.name:
            return [s]
        a, b = s.body[0], h.body[0]
        if type(a) is not type(b) or not isinstance(a, (ast.Assign, ast.Return)) or a.value is None or b.value is None:
            return [s]
        if isinstance(a, ast.Assign) and [ast.dump(x) for x in a.targets] != [ast.dump(x) for x in b.targets]:
            return [s]
        v = a.value
        if not isinstance(v, ast.Subscript) or isinstance(v.slice, ast.Slice) or not plain(v.value) or not plain(v.slice) or not plain(b.value) \
                or isinstance(v.value, ast.Subscript):
            return [s]
        for x in ast.walk(v.slice):
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                return [s]
        a.value = ast.Call(ast.Attribute(v.value, 'get', ast.Load()), [v.slice, b.value], [])
        return [a]

    def loop(self, s, body, i):
        forever = isinstance(s.test, ast.Constant) and s.test.value in (True, 1)
        if forever and not s.orelse and not own(s.body, (ast.Break,)):
            r = own(s.body, (ast.Return,))
            inner = [x for x in s.body for y in ast.walk(x) if isinstance(y, (ast.For, ast.While, ast.Try)) and any(isinstance(z, ast.Return) for z in ast.walk(y))]
            if len(r) == 1 and not inner:
                # the only way out returns: leave, then return
                ret = r[0]

                class Out(ast.NodeTransformer):
                    def visit_Return(self, n):
                        return ast.copy_location(ast.Break(), n) if n is ret else n

                    def visit_FunctionDef(self, n):
                        return n
                s.body = [Out().visit(x) for x in s.body]
                return [s, ast.copy_location(ast.Return(ret.value), ret)]
        return self.counted(s, body, i)

    def counted(self, s, body, i):
        """i = a; while i < n: ...; i += 1"""
        t = s.test
        if s.orelse or not s.body or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return [s]
        k, bound, inc = t.left.id, t.comparators[0], s.body[-1]
        if not (isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and inc.target.id == k
                and isinstance(inc.value, ast.Constant) and inc.value.value == 1):
            return [s]
        rest = s.body[:-1]
        if not rest or k in stored(rest) or own(rest, (ast.Continue, ast.Break)):
            return [s]
        # the bound stays what it is
        names = loads(bound)
        for x in ast.walk(bound):
            if isinstance(x, (ast.Attribute, ast.Subscript)) or isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len'):
                return [s]
        if names & stored(rest):
            return [s]
        for x in rest:
            for y in ast.walk(x):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id in names:
                    return [s]
                if isinstance(y, ast.Delete):
                    return [s]
        j = i - 1
        while j >= 0 and not (isinstance(body[j], ast.Assign) and len(body[j].targets) == 1 and isinstance(body[j].targets[0], ast.Name) and body[j].targets[0].id == k):
            if k in stored([body[j]]):
                return [s]
            j -= 1
        if j < 0:
            return [s]
        start = body[j].value
        if not isinstance(start, ast.Constant) or not isinstance(start.value, int):
            return [s]
        # not read afterwards
        uses = [x for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Load)]
        inside = {id(x) for x in ast.walk(s)}
        early = {id(x) for b in body[:j] for x in ast.walk(b)}
        if any(id(x) not in inside and id(x) not in early and x.lineno > s.lineno for x in uses):
            return [s]
        f = ast.For(ast.Name(k, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [copy.deepcopy(start), bound] if start.value else [bound], []), rest, [], None)
        return [f]

    def joins(self, f):
        """pieces collected only to be joined: the text itself"""
        for name in sorted(self.lists):
            ok, n = True, 0
            seen = set()
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name:
                    if not (isinstance(x.value, ast.List) and not x.value.elts):
                        ok = False
                    seen.add(id(x.targets[0]))
                elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == 'append' \
                        and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == name and len(x.value.args) == 1:
                    seen.add(id(x.value.func.value))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'join' and isinstance(x.func.value, ast.Constant) and x.func.value.value == '' \
                        and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == name:
                    seen.add(id(x.args[0]))
                    n += 1
            if not ok or not n:
                continue
            if any(isinstance(x, ast.Name) and x.id == name and id(x) not in seen for x in ast.walk(f)) or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
                continue

            class Text(ast.NodeTransformer):
                def visit_Assign(self, x):
                    self.generic_visit(x)
                    if isinstance(x.targets[0], ast.Name) and x.targets[0].id == name:
                        x.value = ast.copy_location(ast.Constant(''), x)
                    return x

                def visit_Expr(self, x):
                    self.generic_visit(x)
                    v = x.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'append' and isinstance(v.func.value, ast.Name) and v.func.value.id == name:
                        return ast.fix_missing_locations(ast.copy_location(ast.AugAssign(ast.Name(name, ast.Store()), ast.Add(), v.args[0]), x))
                    return x

                def visit_Call(self, x):
                    self.generic_visit(x)
                    if isinstance(x.func, ast.Attribute) and x.func.attr == 'join' and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == name:
                        return x.args[0]
                    return x
            Text().visit(f)


class Sums(ast.NodeTransformer):
    """a sum over several loops is a sum of sums"""
    def visit_Call(self, x):
        self.generic_visit(x)
        if isinstance(x.func, ast.Name) and x.func.id == 'sum' and len(x.args) == 1 and not x.keywords and isinstance(x.args[0], (ast.GeneratorExp, ast.ListComp)):
            c = x.args[0]
            while len(c.generators) > 1:
                inner = ast.Call(ast.Name('sum', ast.Load()), [ast.GeneratorExp(c.elt, [c.generators.pop()])], [])
                c.elt = inner
            ast.fix_missing_locations(ast.copy_location(x, x))
            for y in ast.walk(x):
                if not hasattr(y, 'lineno') and isinstance(y, (ast.expr, ast.stmt)):
                    ast.copy_location(y, x)
        return x


def desugar(tree):
    Sums().visit(tree)
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            Desugar().func(f)
    return tree
