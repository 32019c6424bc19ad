"""Storage-sharing analysis: which storage a function may modify in place, return or hand on.

Origins are access paths rooted at a parameter ('P', name, ...), the receiver
('S', ...), a module-level object ('G', name, ...) or an allocation made here
('F', k, ...).  The same analysis is run on the reference definition; code may
not modify in place, nor (where the reference takes copies) return or store,
storage the reference leaves alone.
"""
import ast

from .repo import Func, Class

MUTATORS = {'append', 'extend', 'insert', 'sort', 'fill', 'update', 'pop', 'popitem', 'remove', 'clear', 'setdefault', 'add', 'discard', 'reverse', 'resize', 'put'}
VIEWS = {'asarray', 'atleast_1d', 'atleast_2d', 'ravel', 'reshape', 'transpose', 'squeeze', 'asanyarray', 'ascontiguousarray', 'nan_to_num_', 'view', 'swapaxes'}
ELEMS = {'values', 'get', 'pop', 'setdefault', 'items', 'popitem'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'sorted', 'reversed', 'OrderedDict'}
MAXPATH = 6
EMPTY = frozenset()


def step(n):
    return n.lstrip('_') if n.startswith('_') and not n.startswith('__') else n


class Summary:
    def __init__(self):
        self.mut = {}       # origin -> (line, file)
        self.sets = {}      # attribute paths assigned
        self.ret = set()
        self.tup = None     # per-position origins when every return is a tuple of one length
        self.tupc = {}      # position -> origins held by the containers made here and returned in that position
        self.stores = {}    # attr -> set of origins
        self.multi = {}     # attr -> line
        self.touched = {}   # (class, where) -> place; instances made here and modified, where: 'flat' no loop involved,
                            # 'outer' made before every loop and modified in one, 'inner' made anew in a loop
        self.retkind = set()    # classes of instances made here and returned


class Alias:
    def __init__(self, repo, specs=None, copies=True):
        self.repo = repo
        self.specs = specs or {}
        self.memo = {}
        self.stack = []

    def summary(self, f):
        k = id(f.node)
        if k in self.memo:
            return self.memo[k]
        if k in self.stack or len(self.stack) > 6:
            return None
        self.stack.append(k)
        try:
            s = Walk(self, f).run()
        finally:
            self.stack.pop()
        self.memo[k] = s
        return s


class Walk:
    def __init__(self, an, f):
        self.an = an
        self.repo = an.repo
        self.f = f
        self.sum = Summary()
        self.env = {}
        self.heap = {}
        self.shallow = {}
        self.alloc = {}
        self.nalloc = {}
        self.kinds = {}
        self.loops = []
        self.selfname = None
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, n in enumerate(names):
            self.env[n] = frozenset([('P', n)])
        if f.cls is not None and not f.static and names:
            self.selfname = names[0]
            if f.classm:
                self.env[names[0]] = EMPTY
            else:
                self.env[names[0]] = frozenset([('S',)])
        self.arrayish = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
                self.arrayish.add(x.value.id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and x.args and isinstance(x.args[0], ast.Name):
                self.arrayish.add(x.args[0].id)

    def run(self):
        self.block(self.f.node.body)
        return self.sum

    # -- allocation -------------------------------------------------------
    def fresh(self, node):
        k = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), self.f.qual)
        o = ('F', k)
        self.alloc.setdefault(o, tuple(self.loops))
        return frozenset([o])

    def touch(self, os_, s):
        """a local object is modified here"""
        for o in os_:
            if o[0] != 'F' or o not in self.kinds:
                continue
            at = self.alloc.get(o, ())
            self.note(self.kinds[o], 'inner' if at else 'outer' if self.loops else 'flat', s)

    def note(self, kind, where, s):
        self.sum.touched.setdefault((kind, where), (s.lineno, self.f.module.rel))

    def get(self, os_, st):
        out = set()
        for o in os_:
            if (o, st) in self.heap:
                out |= self.heap[(o, st)]
                continue
            if o in self.shallow:
                out |= self.get(self.shallow[o], st)
                continue
            if o[0] == 'F':
                continue
            if len(o) < MAXPATH:
                out.add(o + (st,))
            else:
                out.add(o)
        return frozenset(out)

    def put(self, os_, st, v):
        for o in os_:
            if len(os_) == 1 and not self.loops:
                self.heap[(o, st)] = frozenset(v)
            else:
                self.heap[(o, st)] = self.heap.get((o, st), self.get([o], st)) | v

    # -- statements -------------------------------------------------------
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                    and len(s.targets[0].elts) == len(s.value.elts):
                vs = [self.ev(e) for e in s.value.elts]
                for t, v in zip(s.targets[0].elts, vs):
                    self.assign(t, v, s)
                return
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                arr = isinstance(s.op, (ast.Mult, ast.Div)) or t.id in self.arrayish
                for o in self.env.get(t.id, EMPTY):
                    if o == ('S',):
                        self.mutate(frozenset([o]), s)
                        continue
                    if o[-1] == '[]' or (len(o) == 2 and o[0] == 'P' and t.id not in self.arrayish):
                        continue
                    if arr:
                        self.mutate(frozenset([o]), s)
            elif isinstance(t, ast.Subscript):
                self.ev(t.slice)
                self.mutate(self.ev(t.value), s)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.mutate(self.get(b, step(t.attr)), s, attr=True)
        elif isinstance(s, (ast.Return,)):
            if s.value is not None:
                if isinstance(s.value, (ast.Tuple, ast.List)):
                    vs = [self.ev(e) for e in s.value.elts]
                    for i, v in enumerate(vs):
                        self.retval(v)
                        self.sum.tupc.setdefault(i, set()).update(x for o in v if o[0] == 'F' for x in self.heap.get((o, '[]'), EMPTY))
                    if self.sum.tup is None:
                        self.sum.tup = [set(v) for v in vs]
                    elif self.sum.tup and len(self.sum.tup) == len(vs):
                        for a, b in zip(self.sum.tup, vs):
                            a |= b
                    else:
                        self.sum.tup = []
                else:
                    self.sum.tup = []
                    self.retval(self.ev(s.value))
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                if s.value.value is not None:
                    self.retval(self.ev(s.value.value))
            else:
                self.ev(s.value)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loops.append(id(s))
            for _ in range(2):
                self.target_iter(s.target, s.iter)
                self.block(s.body)
            self.loops.pop()
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.loops.append(id(s))
            for _ in range(2):
                self.ev(s.test)
                self.block(s.body)
            self.loops.pop()
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.branch([s.body, s.orelse])
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, EMPTY, s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.branch([s.body + s.orelse] + [h.body for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value), s)
        elif isinstance(s, (ast.Assert,)):
            self.ev(s.test)
        elif isinstance(s, ast.Raise):
            pass

    def branch(self, bodies):
        start, hstart = dict(self.env), dict(self.heap)
        envs = []
        for b in bodies:
            self.env, self.heap = dict(start), dict(hstart)
            self.block(b)
            if not ends(b):
                envs.append((self.env, self.heap))
        if not envs:
            envs = [(start, hstart)]
        env = {}
        for e, h in envs:
            for k, v in e.items():
                env[k] = env.get(k, EMPTY) | v
        heap = {}
        for e, h in envs:
            for k in h:
                heap[k] = EMPTY
        for k in heap:
            for e, h in envs:
                heap[k] = heap[k] | (h[k] if k in h else frozenset([k[0] + (k[1],)] if k[0][0] != 'F' and len(k[0]) < MAXPATH else []))
        self.env, self.heap = env, heap

    def retval(self, os_):
        self.sum.ret |= set(os_)
        self.sum.retkind |= {self.kinds.get(o) for o in os_ if o[0] == 'F'}
        # contents of fresh containers returned
        for o in os_:
            if o[0] == 'F':
                for (b, st), v in self.heap.items():
                    if b == o and st == '[]':
                        self.sum.ret |= set(v)
                    elif b == o and isinstance(st, str):
                        self.sum.ret |= {x + ('<%s>' % st,) for x in v if x[0] in 'PSG' and len(x) > 2}
                if o in self.shallow:
                    self.sum.ret |= {x + ('~',) for x in self.shallow[o] if x[0] != 'F'}

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = frozenset(v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.touch(b, s)
            for o in b:
                if o[0] in 'PSG' and o not in self.shallow:
                    self.sum.sets.setdefault(o + (step(t.attr),), (s.lineno, self.f.module.rel))
            self.put(b, step(t.attr), frozenset(v))
            self.stored(step(t.attr), v, s)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            b = self.ev(t.value)
            self.mutate(b, s)
            x = t.value
            while isinstance(x, (ast.Attribute, ast.Subscript)):
                x = x.value
                self.touch(self.ev(x), s)
            self.put_elem(b, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            el = self.get(v, '[]')
            known = bool(v) and all((o, i) in self.heap for o in v for i in range(len(t.elts)))
            for i, e in enumerate(t.elts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, self.nth(v, i) | (EMPTY if known else el), s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def nth(self, os_, i):
        return self.get(frozenset(o for o in os_ if (o, i) in self.heap), i)

    def put_elem(self, b, v):
        for o in b:
            self.heap[(o, '[]')] = self.heap.get((o, '[]'), self.get([o], '[]')) | frozenset(v)

    def stored(self, attr, v, s):
        st = self.sum.stores.setdefault(attr, set())
        st |= set(v)
        for o in v:
            if o in self.shallow:
                st |= {x + ('~',) for x in self.shallow[o]}
        for o in [x for o in v for x in (o,) + tuple(self.shallow.get(o, ()))]:
            if o[0] != 'F' or len(o) > 2:
                continue
            if self.alloc.get(o, ()) != tuple(self.loops):
                self.sum.multi.setdefault(attr, s.lineno)
            prev = self.nalloc.setdefault(o, {})
            if prev and (s.lineno, s.col_offset) not in prev:
                self.sum.multi.setdefault(attr, s.lineno)
                for a in prev.values():
                    self.sum.multi.setdefault(a, s.lineno)
            prev[(s.lineno, s.col_offset)] = attr

    def mutate(self, os_, s, attr=False):
        for o in os_:
            if o in self.shallow:
                continue
            if o[0] in 'PSG':
                self.sum.mut.setdefault(o, (s.lineno, self.f.module.rel))

    def target_iter(self, t, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'zip', 'reversed', 'sorted') and it.args:
            if it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                self.assign(t.elts[0], EMPTY, it)
                return self.target_iter(t.elts[1], it.args[0])
            if it.func.id == 'zip' and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
                for x, y in zip(t.elts, it.args):
                    self.target_iter(x, y)
                return
            if it.func.id in ('reversed', 'sorted'):
                return self.target_iter(t, it.args[0])
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args:
            b = it.func.value
            if it.func.attr == 'items' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                self.assign(t.elts[0], EMPTY, it)
                self.assign(t.elts[1], self.get(self.ev(b), '[]'), it)
                return
            if it.func.attr == 'keys':
                self.assign(t, EMPTY, it)
                return
            if it.func.attr == 'values':
                self.assign(t, self.get(self.ev(b), '[]'), it)
                return
        v = self.ev(it)
        self.assign(t, self.get(v, '[]'), it)

    # -- expressions -------------------------------------------------------
    def ev(self, n):
        if n is None:
            return EMPTY
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is not None:
            return m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return EMPTY

    def x_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        r = self.repo.resolve(self.f.module, n.id)
        if isinstance(r, tuple) and r[0] in ('var', 'specvar'):
            m = self.repo.modules.get(r[1]) if isinstance(r[1], str) else r[1]
            vs = [s.value for s in m.tree.body if isinstance(s, ast.Assign)
                  and any(isinstance(t, ast.Name) and t.id == r[2] for t in s.targets)] if m is not None else []
            if vs and all(isinstance(v, ast.Constant) for v in vs):
                return EMPTY        # a number or a string: nothing to share
            return frozenset([('G', n.id)])
        return EMPTY

    def x_Attribute(self, n):
        b = self.ev(n.value)
        if n.attr in ('T', 'flat', 'values', 'real'):
            return b
        return self.get(b, step(n.attr))

    def x_Subscript(self, n):
        b = self.ev(n.value)
        self.ev(n.slice)
        if isinstance(n.slice, ast.Slice) or isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.slice.elts):
            return b
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            x = self.nth(b, n.slice.value)
            if x:
                return x
        return self.get(b, '[]')

    def x_IfExp(self, n):
        self.ev(n.test)
        return self.ev(n.body) | self.ev(n.orelse)

    def x_BoolOp(self, n):
        out = EMPTY
        for v in n.values:
            out = out | self.ev(v)
        return out

    def x_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    def x_Starred(self, n):
        return self.ev(n.value)

    def seq(self, n):
        f = self.fresh(n)
        o = next(iter(f))
        el = EMPTY
        for i, e in enumerate(n.elts):
            v = self.ev(e)
            el = el | v
            self.heap[(o, i)] = v
        self.heap[(o, '[]')] = el
        return f
    x_List = x_Tuple = x_Set = seq

    def x_Dict(self, n):
        f = self.fresh(n)
        o = next(iter(f))
        el = EMPTY
        for k, v in zip(n.keys, n.values):
            self.ev(k)
            el = el | self.ev(v)
        self.heap[(o, '[]')] = el
        return f

    def comp(self, n):
        save = dict(self.env)
        self.loops.append(id(n))
        for g in n.generators:
            self.target_iter(g.target, g.iter)
            for c in g.ifs:
                self.ev(c)
        if isinstance(n, ast.DictComp):
            self.ev(n.key)
            v = self.ev(n.value)
        else:
            v = self.ev(n.elt)
        self.loops.pop()
        self.env = save
        f = self.fresh(n)
        self.heap[(next(iter(f)), '[]')] = v
        return f
    x_ListComp = x_SetComp = x_GeneratorExp = x_DictComp = comp

    def x_Lambda(self, n):
        return EMPTY

    def x_Call(self, n):
        fn = n.func
        args = [self.ev(a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        lib = self.libname(fn)
        if lib is not None:
            last = lib.split('.')[-1]
            if lib == 'copy.copy' and args:
                f = self.fresh(n)
                self.shallow[next(iter(f))] = args[0]
                self.kinds[next(iter(f))] = 'copy'
                return f
            if last in VIEWS and args and lib.startswith('numpy'):
                return args[0]
            if last in SHALLOW and lib.startswith(('builtins', 'collections')) and args:
                f = self.fresh(n)
                self.heap[(next(iter(f)), '[]')] = self.get(args[0], '[]')
                return f
            if lib in ('copy.deepcopy',):
                f = self.fresh(n)
                self.kinds[next(iter(f))] = 'copy'
                return f
            if lib == 'numpy.array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords) and args:
                return args[0]
            if last == 'next' and args:
                return self.get(args[0], '[]')
            for k in n.keywords:
                if k.arg == 'out':
                    self.mutate(kws['out'], n)
            return EMPTY
        target, recv = self.callee(fn)
        if isinstance(fn, ast.Attribute):
            b = self.ev(fn.value) if recv is None else recv
            if target is None and recv is None:
                ks = {self.kinds.get(o) for o in b if o[0] == 'F'}
                if len(ks) == 1 and isinstance(next(iter(ks)), str) and next(iter(ks)) != 'copy':
                    kc = self.repo.byclass(next(iter(ks)))
                    m_ = self.repo.method(kc, fn.attr) if kc is not None else None
                    if m_ is not None and not m_.static and not m_.classm:
                        self.modified(m_, b, args, kws, n)
            if target is None:
                if fn.attr in MUTATORS:
                    if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' \
                            and self.f.cls is not None and self.f.node.args.args:
                        b = self.env.get(self.f.node.args.args[0].arg, EMPTY)
                    self.mutate(b, n)
                    x = fn.value
                    while isinstance(x, (ast.Attribute, ast.Subscript)):
                        x = x.value
                        self.touch(self.ev(x), n)
                    if fn.attr in ('append', 'add', 'insert', 'extend', 'update', 'setdefault'):
                        v = EMPTY
                        for a in args[-1:]:
                            v = v | (self.get(a, '[]') if fn.attr in ('extend', 'update') else a)
                        self.put_elem(b, v)
                        self.stored_elem(fn, v, n)
                if fn.attr in ELEMS:
                    return self.get(b, '[]')
                if fn.attr in VIEWS:
                    return b
                return EMPTY
        if isinstance(target, Class):
            f = self.fresh(n)
            o = next(iter(f))
            self.kinds[o] = target.qual
            init = self.repo.method(target, '__init__')
            if init is not None:
                s = self.an.summary(init)
                if s is not None:
                    m = self.bindargs(init, f, args, kws)
                    for a, os_ in s.stores.items():
                        self.heap[(o, a)] = self.subst(os_, m)
            return f
        if isinstance(target, Func):
            s = self.an.summary(target)
            if s is None:
                return EMPTY
            m = self.bindargs(target, recv if recv is not None else EMPTY, args, kws)
            self.modified(target, recv if recv is not None else EMPTY, args, kws, n)
            for k_, w_ in s.touched:
                self.note(k_, 'inner' if self.loops else w_, n)
            for o in s.mut:
                for x in self.subst([o], m):
                    if x[0] in 'PSG':
                        self.sum.mut.setdefault(x, (n.lineno, self.f.module.rel))
            for o in s.sets:
                for x in self.subst([o[:-1]], m):
                    if x[0] in 'PSG':
                        self.sum.sets.setdefault(x + (o[-1],), (n.lineno, self.f.module.rel))
            out = self.subst(s.ret, m)
            if s.tup:
                f = self.fresh(n)
                o = next(iter(f))
                for i, os_ in enumerate(s.tup):
                    v = self.subst(os_, m)
                    if any(x[0] == 'F' for x in v):
                        e = ('F', o[1] + (i,))
                        self.alloc.setdefault(e, tuple(self.loops))
                        v = frozenset(x for x in v if x[0] != 'F') | {e}
                        c = frozenset(x for x in self.subst(s.tupc.get(i, EMPTY), m) if x[0] != 'F')
                        if c:
                            self.heap[(e, '[]')] = c
                    self.heap[(o, i)] = v
                return f
            if any(o[0] == 'F' for o in s.ret):
                out = frozenset(o for o in out if o[0] != 'F') | self.fresh(n)
                if len(s.retkind) == 1:
                    self.kinds[next(iter(self.fresh(n)))] = next(iter(s.retkind))
                # tuple results: contents
                cont = frozenset(o for o in out if o[0] != 'F')
                f = next(iter(self.fresh(n)))
                for i in range(4):
                    e = ('F', f[1] + (i,))
                    self.alloc.setdefault(e, tuple(self.loops))
                    self.heap[(f, i)] = frozenset([e])
                if cont:
                    self.heap[(f, '[]')] = cont
            return out
        return EMPTY

    def modified(self, f, recv, args, kws, n):
        s = self.an.summary(f)
        if s is None:
            return
        m = self.bindargs(f, recv, args, kws)
        for o in list(s.mut) + list(s.sets):
            if o[0] == 'S':
                self.touch(recv, n)
            elif o[0] == 'P':
                self.touch(m.get(o[:2], EMPTY), n)

    def stored_elem(self, fn, v, n):
        pass

    def bindargs(self, f, recv, args, kws):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        m = {}
        if f.cls is not None and not f.static and names:
            m[('S',)] = recv
            names = names[1:]
        for nme, v in zip(names, args):
            m[('P', nme)] = v
        for k, v in kws.items():
            if k:
                m[('P', k)] = v
        return m

    def subst(self, os_, m):
        out = set()
        for o in os_:
            if o[0] == 'P':
                base, rest = m.get(o[:2], EMPTY), o[2:]
            elif o[0] == 'S':
                base, rest = m.get(('S',), EMPTY), o[1:]
            else:
                out.add(o[:2] if o[0] == 'F' else o)
                continue
            cur = frozenset(base)
            for st in rest:
                cur = self.get(cur, st)
            out |= cur
        return frozenset(out)

    def libname(self, fn):
        parts = []
        x = fn
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name) or x.id in self.env:
            return None
        r = self.repo.resolve(self.f.module, x.id)
        if isinstance(r, tuple) and r[0] == 'lib':
            return '.'.join([r[1]] + parts[::-1])
        if r is None and not parts:
            return 'builtins.' + x.id
        return None

    def callee(self, fn):
        if isinstance(fn, ast.Name):
            if fn.id == self.selfname and self.f.classm and fn.id in self.env:
                return self.f.cls, None
            if fn.id in self.env:
                return None, None
            r = self.repo.resolve(self.f.module, fn.id)
            return (r if isinstance(r, (Func, Class)) else None), None
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id not in self.env:
                r = self.repo.resolve(self.f.module, v.value.id)
                if r is not None and not isinstance(r, (tuple, Func, Class)):
                    r2 = self.repo.resolve(r, v.attr)
                    if isinstance(r2, Class):
                        return self.repo.method(r2, fn.attr), EMPTY
            if isinstance(v, ast.Name) and v.id not in self.env:
                r = self.repo.resolve(self.f.module, v.id)
                if isinstance(r, Class):
                    return self.repo.method(r, fn.attr), EMPTY
                if r is not None and not isinstance(r, (tuple, Func)):
                    r2 = self.repo.resolve(r, fn.attr)
                    return (r2 if isinstance(r2, (Func, Class)) else None), EMPTY
            if isinstance(v, ast.Name) and v.id == self.selfname and self.f.cls is not None:
                sm = self.an.specs.get(self.f.module.name) if getattr(self.f, 'is_spec', False) else None
                t = sm.spec_method(self.f.cls, fn.attr) if sm is not None else None
                if t is None:
                    t = self.repo.method(self.f.cls, fn.attr)
                return t, self.env.get(self.selfname, EMPTY)
        return None, None


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def takes_copies(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in ('copy', 'deepcopy'):
                return True
            if isinstance(x.func, ast.Name) and x.func.id in ('deepcopy', 'copy'):
                return True
    return False


def covered(o, allowed):
    return any(a[-1:] != ('~',) and (o[:len(a)] == a or a[:len(o)] == o) for a in allowed)


def twins(node):
    """two names of one object, each used to modify it as if it were its own"""
    out = []
    for p in ast.walk(node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(p, f, None)
            if not isinstance(b, list):
                continue
            for k, n in enumerate(b):
                if not isinstance(n, ast.Assign):
                    continue
                xs = [t.id for t in n.targets if isinstance(t, ast.Name)]
                if isinstance(n.value, ast.Name):
                    xs.append(n.value.id)
                elif not isinstance(n.value, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)):
                    continue
                if len(set(xs)) < 2:
                    continue
                filled, bound = set(), set()
                for s in b[k + 1:]:
                    for m in ast.walk(s):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)):
                            bound.add(m.id)
                        elif isinstance(m, ast.Subscript) and isinstance(m.ctx, ast.Store) and isinstance(m.value, ast.Name):
                            filled.add(m.value.id)
                        elif isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and isinstance(m.func.value, ast.Name) \
                                and m.func.attr in ('append', 'extend', 'insert', 'add', 'fill'):
                            filled.add(m.func.value.id)
                xs = sorted({x for x in xs if x in filled and x not in bound})
                if len(xs) > 1:
                    out.append((xs[0], xs[1], n.lineno))
    return out


class AliasRule:
    """code vs reference; -> (instances, [(line, file, func, what)])"""
    MULTI = {'yield_', 'table', 'original_table', 'y', 'x'}

    def __init__(self, checker):
        self.c = checker
        self.code = Alias(checker.repo)
        self.ref = Alias(checker.repo, checker.specs)

    def check(self, qual):
        c = self.c
        sf = c.spec(qual)
        r = c.summaries(qual)
        if r is None:
            return None
        cf = r[0]
        a, b = self.code.summary(cf), self.ref.summary(sf)
        # parameters by position
        cn = [x.arg for x in cf.node.args.posonlyargs + cf.node.args.args]
        sn = [x.arg for x in sf.node.args.posonlyargs + sf.node.args.args]
        ren = {x: y for x, y in zip(cn, sn) if x not in sn}

        def nm(o):
            return ('P', ren.get(o[1], o[1])) + o[2:] if o[0] == 'P' else o
        out = []
        for o, (line, file) in sorted(a.mut.items(), key=repr):
            if not covered(nm(o), b.mut):
                out.append((line, file, 'modifies %s in place, which its contract leaves alone' % text(o)))
        if takes_copies(sf.node):
            for o, (line, file) in sorted(a.sets.items(), key=repr):
                if nm(o) not in b.sets and 'attr:' + o[-1] in c.vocab | {'attr:_' + o[-1]}:
                    out.append((line, file, 'assigns %s, which its contract leaves alone' % text(o)))
            for o in sorted(a.ret, key=repr):
                if o[0] in 'PSG' and len(o) > 1 and nm(o) not in b.ret and (o[-1][:1] == '<' or not covered(nm(o), b.ret)):
                    out.append((cf.node.lineno, cf.module.rel, 'returns storage shared with %s where a private copy is required' % text(o)))
            for at, os_ in sorted(a.stores.items()):
                bs = b.stores.get(at, set())
                for o in sorted(os_, key=repr):
                    if o[0] in 'PSG' and nm(o) not in bs and not covered(nm(o), bs) and at in b.stores:
                        out.append((cf.node.lineno, cf.module.rel, 'stores in .%s storage shared with %s where a private copy is required' % (at, text(o))))
        for (k, w), (line, file) in sorted(a.touched.items()):
            if w == 'outer' and (k, w) not in b.touched and (k, 'inner') in b.touched:
                out.append((line, file, 'modifies in every pass of a loop one %s made before it, where the contract makes a new one for each pass' % k.split('.')[-1]))
        for k, w in sorted(b.touched):
            if w == 'outer' and (k, w) not in a.touched and (k, 'inner') in a.touched and (k, 'inner') not in b.touched:
                out.append((cf.node.lineno, cf.module.rel, 'makes a new %s in each pass of a loop, where the contract modifies one throughout' % k.split('.')[-1]))
        for at, line in sorted(a.multi.items()):
            if at in self.MULTI and at not in b.multi:
                out.append((line, cf.module.rel, 'one object is shared between several owners through .%s' % at))
        if not twins(sf.node):
            for x, y, line in twins(cf.node):
                out.append((line, cf.module.rel, '%s and %s are one object, and both are filled in place' % (x, y)))
        return len(a.mut) + len(a.stores) + len(a.ret), out


def text(o):
    if o[0] == 'F':
        return 'a local object'
    p = {'P': '', 'S': 'self', 'G': ''}[o[0]]
    rest = o[1:] if o[0] == 'S' else o[2:]
    if o[0] != 'S':
        p = o[1]
    return p + ''.join('[...]' if x == '[]' else ('(contents)' if x == '~' else (' (as %s)' % x[1:-1] if x[:1] == '<' else '.%s' % x)) for x in rest)
