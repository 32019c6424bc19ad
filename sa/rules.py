"""Whole-program rules: each returns (instances examined, [(line, file, function, what)])."""
import ast
import builtins

from .repo import Func, Class, Module, AnalysisError
from .graph import module_env
from .terms import pyval, T

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__class__', 'WindowsError'}


def functions(repo, prefix=''):
    """every function with its class, also getters shadowed by name"""
    for m in repo.modules.values():
        if not m.name.startswith(prefix):
            continue
        for f in m.funcs.values():
            yield f
        for c in m.classes.values():
            seen = set()
            for f in list(c.methods.values()) + list(c.setters.values()) + list(c.getters.values()):
                if id(f.node) not in seen:
                    seen.add(id(f.node))
                    yield f


# ---- names -----------------------------------------------------------------
def star_unknown(repo, m, depth=0):
    """a star import from outside the analysed tree may define anything"""
    for b in m.imports.get('*', []):
        if b not in repo.modules:
            return True
        if depth < 6 and star_unknown(repo, repo.modules[b], depth + 1):
            return True
    return False


def bound_names(node):
    """names bound in the scope of a function / lambda / comprehension / class body"""
    out, glob = set(), set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                out.add(x.arg)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif type(n).__name__ in ('MatchAs', 'MatchStar') and n.name:
            out.add(n.name)
        elif type(n).__name__ == 'MatchMapping' and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            go(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        go(s)
    return out - glob


class Scope(ast.NodeVisitor):
    def __init__(self, repo, f, out):
        self.repo, self.f, self.out = repo, f, out
        self.stack = []
        self.n = 0
        self.free = star_unknown(repo, f.module)

    def known(self, name):
        if any(name in s for s in self.stack) or name in BUILTINS:
            return True
        m = self.f.module
        if self.repo.resolve(m, name) is not None or name in m.imports:
            return True
        return self.free

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.n += 1
            if not self.known(n.id):
                self.out.append((n.lineno, self.f.module.rel, self.f.qual, 'name %s is not defined anywhere' % n.id))

    def function(self, n):
        inclass = n is self.f.node and self.f.cls is not None
        if inclass:
            self.stack.append(bound_names(self.f.cls.node))
        for d in getattr(n, 'decorator_list', []):
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
        if inclass:
            self.stack.pop()
        self.stack.append(bound_names(n))
        for s in n.body if isinstance(n.body, list) else [n.body]:
            self.visit(s)
        self.stack.pop()
    visit_FunctionDef = visit_Lambda = visit_AsyncFunctionDef = function

    def visit_ClassDef(self, n):
        for b in n.bases:
            self.visit(b)
        self.stack.append(bound_names(n))
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def comp(self, n):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        self.stack.append(names)
        self.generic_visit(n)
        self.stack.pop()
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Attribute(self, n):
        self.generic_visit(n)
        # attribute of one of our own modules
        if isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and not any(n.value.id in s for s in self.stack):
            r = self.repo.resolve(self.f.module, n.value.id)
            if isinstance(r, Module) and not getattr(r, 'spec', False):
                self.n += 1
                if self.repo.resolve(r, n.attr) is None and n.attr not in r.imports and not star_unknown(self.repo, r) \
                        and r.name + '.' + n.attr not in self.repo.modules and not n.attr.startswith('__'):
                    self.out.append((n.lineno, self.f.module.rel, self.f.qual, 'module %s has no %s' % (r.name, n.attr)))


LIBRARY_BASES = {'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'str': str, 'Exception': Exception, 'ValueError': ValueError}


def class_attrs(repo, c, seen=None):
    """names an instance may have; None when a base class lies outside the tree"""
    seen = seen if seen is not None else set()
    if c.qual in seen:
        return set()
    seen.add(c.qual)
    out = set(c.methods) | set(c.setters) | set(c.getters) | set(c.attrs)
    for n in c.node.body:
        if isinstance(n, (ast.AnnAssign,)) and isinstance(n.target, ast.Name):
            out.add(n.target.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
    for n in ast.walk(c.node):
        if isinstance(n, ast.FunctionDef):
            # an instance filled from another of its kind has nothing new
            same = {id(x.func) for x in ast.walk(n) if isinstance(x, ast.Call) and n.args.args
                    and [ast.unparse(y) for y in x.args] == [n.args.args[0].arg + '.__dict__']}
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                    return None
                elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.value, ast.Attribute) and x.value.attr == '__dict__' \
                        and (isinstance(x, ast.Attribute) and x.attr not in ('items', 'keys', 'values', 'get', 'copy') or isinstance(x.ctx, ast.Store)):
                    if not (isinstance(x, ast.Attribute) and x.attr == 'update' and id(x) in same):
                        return None
    if '__getattr__' in c.methods or '__getattribute__' in c.methods:
        return None
    ours = repo.bases(c)
    builtin = [b for b in map(ast.unparse, c.node.bases) if b in LIBRARY_BASES]
    if len(ours) < len([b for b in c.node.bases if ast.unparse(b) not in ('object', 'ABC', 'abc.ABC')]) - len(builtin):
        return None
    for b in builtin:
        out |= set(dir(LIBRARY_BASES[b]))
    for b in ours:
        x = class_attrs(repo, b, seen)
        if x is None:
            return None
        out |= x
    return out


def subclass_attrs(repo, c):
    out = set()
    for m in repo.modules.values():
        for k in m.classes.values():
            if k is not c and derives(repo, k, c):
                x = class_attrs(repo, k)
                if x is None:
                    return None
                out |= x
    return out


def derives(repo, k, c, depth=0):
    return depth < 8 and any(b is c or derives(repo, b, c, depth + 1) for b in repo.bases(k))


def external_stores(repo):
    s = getattr(repo, '_ext', None)
    if s is None:
        s = set()
        for m in repo.modules.values():
            own = set()         # what a method stores on its own instance belongs to that class alone
            for c in m.classes.values():
                for g in c.node.body:
                    if isinstance(g, ast.FunctionDef) and g.args.args and not g.decorator_list:
                        me = g.args.args[0].arg
                        own |= {id(x) for x in ast.walk(g) if isinstance(x, ast.Attribute)
                                and isinstance(x.value, ast.Name) and x.value.id == me}
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and id(x) not in own:
                    s.add(x.attr)
        repo._ext = s
    return s


OBJ = set(dir(object)) | {'__dict__', '__class__', '__name__'}


def names(checker, arg=''):
    repo = checker.repo
    out = []
    n = 0
    for f in functions(repo):
        sc = Scope(repo, f, out)
        if f.node.name == '__main__' and f.cls is None:
            sc.stack.append(bound_names(f.node))
        sc.visit(f.node)
        n += sc.n
        if f.cls is None or f.static:
            continue
        args = f.node.args.posonlyargs + f.node.args.args
        if not args:
            continue
        have = class_attrs(repo, f.cls)
        if have is None:
            continue
        sub = None
        asked = {id(x) for t in ast.walk(f.node) if isinstance(t, ast.Try)
                 and any(h.type is None or 'AttributeError' in ast.unparse(h.type) or ast.unparse(h.type) == 'Exception' for h in t.handlers)
                 for s in t.body for x in ast.walk(s)}      # whether it is there is the question
        for x in ast.walk(f.node):
            if id(x) in asked:
                continue
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == args[0].arg:
                n += 1
                if x.attr in have or x.attr in OBJ:
                    continue
                if sub is None:
                    sub = subclass_attrs(repo, f.cls)
                if sub is None or x.attr in sub or x.attr in external_stores(repo):
                    continue
                out.append((x.lineno, f.module.rel, f.qual, 'attribute %s.%s is never defined' % (args[0].arg, x.attr)))
    return n, out


# ---- group structures --------------------------------------------------------
def groups(checker, arg=''):
    repo = checker.repo
    m = repo.modules.get('ASAPy.njoy')
    if m is None:
        raise AnalysisError('module ASAPy.njoy vanished')
    env = module_env(repo, m, checker.known)
    out, n = [], 0
    lines = {t.id: s.lineno for s in m.tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
    for name in sorted(k for k in env if isinstance(k, str) and k.startswith('energy_groups_')):
        tail = name[len('energy_groups_'):]
        if not tail.isdigit():
            continue
        try:
            v = pyval(env[name])
        except Exception:
            continue
        if isinstance(v, str):
            v = v.split()
        try:
            v = [float(x) for x in v]
        except (TypeError, ValueError):
            continue
        n += len(v)
        at = (lines.get(name, 1), m.rel, name)
        if len(v) != int(tail) + 1:
            out.append(at + ('%d bounds where %d groups need %d' % (len(v), int(tail), int(tail) + 1),))
        bad = [i for i in range(len(v) - 1) if not v[i] < v[i + 1]]
        if bad:
            out.append(at + ('bounds %d and %d are not increasing: %r, %r' % (bad[0], bad[0] + 1, v[bad[0]], v[bad[0] + 1]),))
        if v and not v[0] > 0:
            out.append(at + ('the lowest bound %r is not positive' % v[0],))
    if not n:
        raise AnalysisError('no group structure found in ASAPy.njoy')
    return n, out


# ---- state kept between calls ---------------------------------------------------
CACHES = {'lru_cache', 'cache', 'cached_property', 'memoize', 'memoized', 'singledispatch_'}
MUTS = {'append', 'extend', 'add', 'update', 'pop', 'remove', 'insert', 'clear', 'sort', 'setdefault', 'discard', 'popitem'}


def own(name):
    return name.lstrip('_')


def ref_state(checker, c):
    """attributes the reference keeps on instances of this class"""
    out = set()
    sm = checker.specs.get(c.module.name)
    names = {c.name} | {b.name for b in allbases(checker.repo, c)}
    for sm in checker.specs.values():
        for k, sc in sm.spec_classes.items():
            if k in names:
                out |= set(sc.attrs) | set(sc.methods) | set(sc.setters) | set(sc.getters)
                for x in ast.walk(sc.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        out.add(x.attr)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        out.add(x.args[1].value)
    return out


def allbases(repo, c, depth=0):
    out = []
    for b in repo.bases(c):
        out.append(b)
        if depth < 8:
            out += allbases(repo, b, depth + 1)
    return out


def attr_writes(node, name):
    """attributes of `name` written in this function: {attr: line}"""
    out = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.setdefault(x.attr, x.lineno)
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == name:
            out.setdefault(x.value.attr, x.lineno)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTS and isinstance(x.func.value, ast.Attribute) \
                and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id == name:
            out.setdefault(x.func.value.attr, x.lineno)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == name \
                and isinstance(x.args[1], ast.Constant):
            out.setdefault(x.args[1].value, x.lineno)
    return out


def attr_reads(node, name):
    out = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name and isinstance(x.ctx, ast.Load):
            out.setdefault(x.attr, x.lineno)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'hasattr') and len(x.args) > 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == name \
                and isinstance(x.args[1], ast.Constant):
            out.setdefault(x.args[1].value, x.lineno)
    return out


def transitive_reads(repo, c, f, seen=None):
    seen = seen if seen is not None else set()
    if id(f.node) in seen:
        return set()
    seen.add(id(f.node))
    a = f.node.args.posonlyargs + f.node.args.args
    if not a or f.static:
        return set()
    r = set(attr_reads(f.node, a[0].arg))
    for x in list(r):
        g = None
        k = c
        for k in [c] + allbases(repo, c):
            g = k.getters.get(x) or k.methods.get(x)
            if g is not None:
                break
        if g is not None:
            r |= transitive_reads(repo, c, g, seen)
    return r


def local_deps(node, targets):
    """names and attribute accesses that flow into the given expressions through local assignments"""
    defs = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        defs.setdefault(y.id, []).append(x.value)
        elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and isinstance(x.target, ast.Name) and x.value is not None:
            defs.setdefault(x.target.id, []).append(x.value)
        elif isinstance(x, ast.For):
            for y in ast.walk(x.target):
                if isinstance(y, ast.Name):
                    defs.setdefault(y.id, []).append(x.iter)
        elif isinstance(x, ast.comprehension):
            for y in ast.walk(x.target):
                if isinstance(y, ast.Name):
                    defs.setdefault(y.id, []).append(x.iter)
        elif isinstance(x, ast.withitem) and x.optional_vars is not None:
            for y in ast.walk(x.optional_vars):
                if isinstance(y, ast.Name):
                    defs.setdefault(y.id, []).append(x.context_expr)
    seen, todo, names_ = set(), list(targets), set()
    exprs = []
    while todo:
        e = todo.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        exprs.append(e)
        for y in ast.walk(e):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                names_.add(y.id)
                todo.extend(defs.get(y.id, ()))
    return names_, exprs


def memo_keys(node, is_memo):
    """expressions deciding whether a remembered value is used: tests mentioning it, and its subscripts"""
    out = []
    for x in ast.walk(node):
        if isinstance(x, (ast.If, ast.IfExp, ast.While)) and any(is_memo(y) for y in ast.walk(x.test)):
            out.append(x.test)
        elif isinstance(x, ast.Compare) and any(is_memo(y) for y in ast.walk(x)):
            out.append(x)
        elif isinstance(x, ast.Subscript) and is_memo(x.value):
            out.append(x.slice)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and is_memo(x.func.value):
            out.extend(x.args[:1])
    return out


def memo_stores(node, is_memo):
    """values put into the memo"""
    out = []
    for x in ast.walk(node):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                b = t.value if isinstance(t, ast.Subscript) else t
                if is_memo(b):
                    out.append(x.value)
        elif isinstance(x, (ast.AnnAssign, ast.AugAssign)) and x.value is not None:
            b = x.target.value if isinstance(x.target, ast.Subscript) else x.target
            if is_memo(b):
                out.append(x.value)
        elif isinstance(x, ast.NamedExpr) and is_memo(x.target):
            out.append(x.value)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTS and is_memo(x.func.value):
            out.extend(x.args)
            out.extend(k.value for k in x.keywords)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) == 3 and is_memo(x):
            out.append(x.args[2])
    return out


def writers_of(repo, attr):
    """functions outside constructors that assign or modify an attribute of this name"""
    idx = getattr(repo, '_writers', None)
    if idx is None:
        idx = repo._writers = {}
        for f in functions(repo):
            if f.node.name in ('__init__', '__new__', 'from_ace', 'from_endf', 'from_hdf5'):
                continue
            for x in ast.walk(f.node):
                a = None
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    a = x.attr
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
                    a = x.value.attr
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTS and isinstance(x.func.value, ast.Attribute):
                    a = x.func.value.attr
                if a:
                    idx.setdefault(own(a), []).append(f)
    return idx.get(own(attr), [])


def hidden_state(checker, prefix=''):
    repo = checker.repo
    out, n = [], 0
    refdeco = checker.__dict__.setdefault('_refdeco', {})
    # 1. memoising decorators
    for f in functions(repo, prefix):
        n += 1
        for d in f.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            nm = e.attr if isinstance(e, ast.Attribute) else (e.id if isinstance(e, ast.Name) else '')
            if nm not in CACHES:
                continue
            why = None
            a = f.node.args
            if f.cls is not None and not f.static:
                deps = transitive_reads(repo, f.cls, f)
                w = sorted(x for x in deps if writers_of(repo, x))
                if w:
                    why = 'the remembered result goes stale when %s changes' % ', '.join('self.' + x for x in w[:3])
            if why is None:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'open':
                        why = 'the remembered result goes stale when the file changes'
            if why is None and returns_mutable(repo, f):
                why = 'callers share one mutable result'
            if why:
                out.append((f.node.lineno, f.module.rel, f.qual, 'result is remembered between calls (%s): %s' % (nm, why)))
    # 2. attributes and module objects used as memo
    for f in functions(repo, prefix):
        args = f.node.args.posonlyargs + f.node.args.args
        params = [a.arg for a in args + f.node.args.kwonlyargs] + [a.arg for a in (f.node.args.vararg, f.node.args.kwarg) if a is not None]
        cands = []
        if f.cls is not None and not f.static and args:
            me = args[0].arg
            params = params[1:]
            have = ref_state(checker, f.cls)
            base = {own(x) for x in have}
            if f.node.name not in ('__init__', '__new__'):
                w, r = attr_writes(f.node, me), attr_reads(f.node, me)
                for a in w:
                    if own(a) not in base and a in r:
                        def is_memo(y, a=a, me=me):
                            return isinstance(y, ast.Attribute) and y.attr == a and isinstance(y.value, ast.Name) and y.value.id in (me, 'cls') or \
                                isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('getattr', 'hasattr', 'setattr') and len(y.args) > 1 \
                                and isinstance(y.args[1], ast.Constant) and y.args[1].value == a
                        cands.append((a, w[a], is_memo, 'self.' + a))
        # module-level or default-argument containers
        local = bound_names(f.node)
        glob = {x for y in ast.walk(f.node) if isinstance(y, ast.Global) for x in y.names}
        for x in ast.walk(f.node):
            nm = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                nm = x.value.id
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTS and isinstance(x.func.value, ast.Name):
                nm = x.func.value.id
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in glob:
                nm = x.id
            if nm is None or any(c[0] == nm for c in cands):
                continue
            isglob = nm not in local and (nm in f.module.varnodes or nm in repo.globals_of(f.module) or nm in glob)
            isdef = nm in params and mutable_default(f, nm)
            if not (isglob or isdef):
                continue
            sm = checker.specs.get(f.module.name)
            if isglob and sm is not None and global_mutated(sm, nm):
                continue
            if isdef and ref_has_default(checker, f, nm):
                continue

            def is_memo(y, nm=nm):
                return isinstance(y, ast.Name) and y.id == nm
            cands.append((nm, x.lineno, is_memo, nm))
        for a, line, is_memo, label in cands:
            n += 1
            keys = memo_keys(f.node, is_memo)
            vals = memo_stores(f.node, is_memo)
            if not keys or not vals:
                continue
            vn, vexprs = local_deps(f.node, vals)
            kn, kexprs = local_deps(f.node, keys)
            missing = [p for p in params if p in vn and p not in kn and p != a]
            if missing:
                out.append((line, f.module.rel, f.qual, 'remembers a result in %s without regard to argument %s' % (label, ', '.join(missing[:3]))))
                continue
            if f.cls is not None and not f.static and args:
                me = args[0].arg
                deps = set()
                for e in vexprs:
                    deps |= set(attr_reads(e, me))
                for d in list(deps):
                    for k in [f.cls] + allbases(repo, f.cls):
                        g = k.getters.get(d) or k.methods.get(d)
                        if g is not None:
                            deps |= transitive_reads(repo, f.cls, g)
                            break
                kdeps = set()
                for e in kexprs:
                    kdeps |= set(attr_reads(e, me))
                kd = {own(x) for x in kdeps}
                if me in kn and not label.startswith('self.'):
                    pass
                stale = []
                for d in sorted(deps):
                    if own(d) == own(a) or own(d) in kd:
                        continue
                    ws = [g for g in writers_of(repo, d) if g is not f and not any(own(z) == own(a) for z in all_attr_writes(g))]
                    if ws:
                        stale.append((d, ws[0].qual))
                if stale:
                    out.append((line, f.module.rel, f.qual, 'remembers a result in %s that goes stale when self.%s changes (%s)' % (label, stale[0][0], stale[0][1])))
                    continue
                if not label.startswith('self.') and deps and not (me in kn):
                    out.append((line, f.module.rel, f.qual, 'remembers a result in %s shared by all instances although it depends on self.%s' % (label, sorted(deps)[0])))
    return n, out


def all_attr_writes(g):
    s = set()
    for x in ast.walk(g.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
            s.add(x.attr)
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
            s.add(x.value.attr)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTS and isinstance(x.func.value, ast.Attribute):
            s.add(x.func.value.attr)
    return s


def returns_mutable(repo, f):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Return) and x.value is not None:
            v = x.value
            ns, ex = local_deps(f.node, [v])
            tops = [v]
            if isinstance(v, ast.Name):
                tops = ex[1:2] or [v]
            for t in tops:
                if isinstance(t, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                    return True
                if isinstance(t, ast.Call):
                    s = ast.unparse(t.func)
                    if s.startswith('np.') or s in ('list', 'dict', 'set', 'sorted') or s[:1].isupper() or s.split('.')[-1][:1].isupper():
                        return True
    return False


def mutable_default(f, nm):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == nm:
            return isinstance(d, (ast.Dict, ast.List, ast.Set)) or isinstance(d, ast.Call)
    return False


def ref_has_default(checker, f, nm):
    sm = checker.specs.get(f.module.name)
    if sm is None:
        return False
    path = f.node.name if f.cls is None else f.cls.name + '.' + f.node.name
    g = sm.get(path)
    return g is not None and mutable_default(g, nm)


def global_mutated(sm, nm):
    for x in ast.walk(sm.tree):
        if isinstance(x, ast.FunctionDef):
            for y in ast.walk(x):
                if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == nm:
                    return True
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in MUTS and isinstance(y.func.value, ast.Name) and y.func.value.id == nm:
                    return True
                if isinstance(y, ast.Global) and nm in y.names:
                    return True
    return False


RULES = {'names': names, 'groups': groups, 'hidden_state': hidden_state}
