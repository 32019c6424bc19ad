"""Loading and name resolution for the analysed source tree (syntax only)."""
import ast
import os
import warnings

from .terms import T, mk, const
from .desugar import desugar


class AnalysisError(Exception):
    """the analysis itself cannot proceed (anchor vanished, file unreadable)"""


class Func:
    def __init__(self, qual, node, module, cls=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.decos = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '') for d in node.decorator_list]

    @property
    def static(self):
        return 'staticmethod' in self.decos

    @property
    def classm(self):
        return 'classmethod' in self.decos

    @property
    def isprop(self):
        return 'property' in self.decos


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.module = module
        self.methods = {}
        self.setters = {}
        self.getters = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef,)):
                f = Func(qual + '.' + n.name, n, module, self)
                if 'setter' in f.decos:
                    self.setters[n.name] = f
                elif 'property' in f.decos:
                    self.getters[n.name] = f
                    self.methods.setdefault(n.name, f)
                else:
                    self.methods[n.name] = f
        self.attrs = {}
        for n in node.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value


class Module:
    def __init__(self, repo, dotted, path, rel, src=None):
        self.repo = repo
        self.name = dotted
        self.path = path
        self.rel = rel
        if src is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        self.src = src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = desugar(ast.parse(self.src, path))
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.varnodes = {}
        self.genv = None
        self._collect(self.tree.body)

    def _collect(self, body, top=True):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([base] if base else []))
                for a in n.names:
                    if a.name == '*':
                        self.imports.setdefault('*', []).append(base)
                    else:
                        self.imports[a.asname or a.name] = ('sym', base, a.name)
            elif isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(self.name + '.' + n.name, n, self)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(self.name + '.' + n.name, n, self)
            elif isinstance(n, ast.Try):
                self._collect(n.body)
                for h in n.handlers:
                    self._collect(h.body)
            elif isinstance(n, ast.If):
                t = n.test
                ismain = isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__'
                if not ismain:
                    self._collect(n.body)
                    self._collect(n.orelse)
                else:
                    fn = ast.FunctionDef(name='__main__', args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                                         body=n.body, decorator_list=[], returns=None, type_comment=None, lineno=n.lineno, col_offset=0)
                    self.funcs['__main__'] = Func(self.name + '.__main__', fn, self)


class Repo:
    def __init__(self, root='/repo', pkg='ASAPy', overlay=None):
        self.root = root
        self.modules = {}
        base = os.path.join(root, pkg)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__', 'test'))
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                dotted = rel[:-3].replace(os.sep, '.')
                if dotted.endswith('.__init__'):
                    dotted = dotted[:-9]
                try:
                    self.modules[dotted] = Module(self, dotted, p, rel, (overlay or {}).get(rel))
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
        self.method_index = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.method_index.setdefault(n, []).append(f)

    # -- lookup --------------------------------------------------------
    def func(self, qual):
        """'ASAPy.AceIO:AceEditor.set_sigma' -> Func"""
        mod, _, path = qual.partition(':')
        m = self.modules.get(mod)
        if m is None:
            raise AnalysisError('module %s vanished' % mod)
        parts = path.split('.')
        if len(parts) == 1:
            f = m.funcs.get(parts[0])
            if f is None:
                r = self.resolve(m, parts[0])
                if isinstance(r, Func):
                    f = r
        else:
            c = m.classes.get(parts[0])
            if c is None:
                r = self.resolve(m, parts[0])
                c = r if isinstance(r, Class) else None
            f = None
            if c is not None:
                if len(parts) == 3 and parts[2] == 'setter':
                    k = c
                    while k is not None and f is None:
                        f = k.setters.get(parts[1])
                        b = self.bases(k)
                        k = b[0] if b else None
                else:
                    f = self.method(c, parts[1])
        if f is None:
            raise AnalysisError('function %s vanished' % qual)
        return f

    def cls(self, qual):
        mod, _, path = qual.partition(':')
        m = self.modules.get(mod)
        if m is None:
            raise AnalysisError('module %s vanished' % mod)
        c = m.classes.get(path)
        if c is None:
            r = self.resolve(m, path)
            c = r if isinstance(r, Class) else None
        if c is None:
            raise AnalysisError('class %s vanished' % qual)
        return c

    def resolve(self, module, name, depth=0):
        """-> Func | Class | Module | ('lib', path) | ('var', module, name) | None"""
        if depth > 8:
            return None
        if getattr(module, 'spec', False):
            if name in module.funcs:
                return module.funcs[name]
            if name in module.imports:
                imp = module.imports[name]
                if imp[0] == 'mod':
                    return self.modules.get(imp[1]) or ('lib', imp[1])
                _, base, sym = imp
                if base in self.modules:
                    r = self.resolve(self.modules[base], sym, depth + 1)
                    if r is not None:
                        return r
                if base + '.' + sym in self.modules:
                    return self.modules[base + '.' + sym]
                if base.split('.')[0] == 'ASAPy':
                    return ('var', base, sym)
                return ('lib', base + '.' + sym)
            if name in self.globals_of(module):
                return ('specvar', module, name)
            return self.resolve(module.target, name, depth + 1)
        if name in module.funcs:
            return module.funcs[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports and name != '*':
            imp = module.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ('lib', imp[1])
            _, base, sym = imp
            if base in self.modules:
                r = self.resolve(self.modules[base], sym, depth + 1)
                if r is not None:
                    return r
            if base + '.' + sym in self.modules:
                return self.modules[base + '.' + sym]
            if base.split('.')[0] == 'ASAPy':
                return ('var', base, sym)
            return ('lib', base + '.' + sym)
        if name in self.globals_of(module):
            return ('var', module.name, name)
        for b in module.imports.get('*', []):
            if b in self.modules:
                r = self.resolve(self.modules[b], name, depth + 1)
                if r is not None:
                    return r
        return None

    def globals_of(self, module):
        g = getattr(module, '_gnames', None)
        if g is None:
            g = set()

            def tgt(t):
                if isinstance(t, ast.Name):
                    g.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in t.elts:
                        tgt(x)

            def walk(body):
                for n in body:
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            tgt(t)
                    elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                        tgt(n.target)
                    elif isinstance(n, ast.For):
                        tgt(n.target)
                        walk(n.body)
                    elif isinstance(n, ast.If):
                        t = n.test
                        if not (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__'):
                            walk(n.body)
                            walk(n.orelse)
                    elif isinstance(n, (ast.Try, ast.With)):
                        walk(n.body)
            walk(module.tree.body)
            module._gnames = g
        return g

    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(c.module, b.id)
                if isinstance(r, Class):
                    out.append(r)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r = self.resolve(c.module, b.value.id)
                if isinstance(r, Module):
                    r2 = self.resolve(r, b.attr)
                    if isinstance(r2, Class):
                        out.append(r2)
        return out

    def method(self, c, name, skip_self=False):
        if not skip_self and name in c.methods:
            return c.methods[name]
        for b in self.bases(c):
            f = self.method(b, name)
            if f is not None:
                return f
        return None

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k is not c and any(b is c or b in self.subclasses_cache(c) for b in self.bases(k)):
                    out.append(k)
        return out

    def subclasses_cache(self, c):
        return []

    def byqual(self, qual):
        m = getattr(self, '_byqual', None)
        if m is None:
            m = self._byqual = {f.qual: f for f in self.all_funcs()}
        return m.get(qual)

    def byclass(self, qual):
        m = getattr(self, '_byclass', None)
        if m is None:
            m = self._byclass = {c.qual: c for mod in self.modules.values() for c in mod.classes.values()}
        return m.get(qual)

    def mutated(self):
        """names of module-level objects that some code modifies in place or rebinds after start-up"""
        m = getattr(self, '_mutated', None)
        if m is not None:
            return m
        m = set()
        muts = ('append', 'extend', 'add', 'update', 'pop', 'remove', 'insert', 'clear', 'sort', 'setdefault', 'discard')

        def hits(node):
            for x in ast.walk(node):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                    yield x.value.id
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in muts and isinstance(x.func.value, ast.Name):
                    yield x.func.value.id
                elif isinstance(x, ast.Global):
                    for n in x.names:
                        yield n
        for mod in self.modules.values():
            for f in list(mod.funcs.values()) + [g for c in mod.classes.values() for g in list(c.methods.values()) + list(c.setters.values()) + list(c.getters.values())]:
                local = {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)}
                glob = {n for x in ast.walk(f.node) if isinstance(x, ast.Global) for n in x.names}
                local |= {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - glob
                m |= {n for n in hits(f.node) if n not in local}
            for s in mod.tree.body:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
                    m |= {n for n in hits(s) if n in mod.imports}
        self._mutated = m
        return m

    # -- attribute-name mod/ref sets, closed over calls resolved by name ------
    RUNS = ('Popen', 'check_call', 'check_output', 'system', 'communicate')

    def traits(self, f):
        """-> (checks its arguments and does nothing else, runs another program)"""
        c = getattr(self, '_traits', None)
        if c is None:
            c = self._traits = {}
        if f.node in c:
            return c[f.node]
        c[f.node] = (False, False)
        raises, writes, runs = False, False, False
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Raise, ast.Assert)):
                raises = True
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                writes = True
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.With)) or isinstance(x, ast.Return) and x.value is not None:
                writes = True
            if isinstance(x, ast.Attribute) and x.attr in self.RUNS or isinstance(x, ast.Name) and x.id in self.RUNS:
                runs = True
            if isinstance(x, ast.Call):
                g = None
                if isinstance(x.func, ast.Name):
                    g = self.resolve(f.module, x.func.id)
                elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                    m = f.module.imports.get(x.func.value.id)
                    if x.func.value.id == 'self' and f.cls is not None:
                        g = f.cls.methods.get(x.func.attr)
                if isinstance(g, Func):
                    k, r = self.traits(g)
                    raises, runs = raises or k, runs or r
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                g = self.resolve(f.module, x.value.func.id) if isinstance(x.value.func, ast.Name) else None
                if not (isinstance(g, Func) and self.traits(g)[0]):
                    writes = True
        c[f.node] = (raises and not writes, runs)
        return c[f.node]

    def modref(self, f):
        if f is None:
            return frozenset(), frozenset()
        c = getattr(self, '_modref', None)
        if c is None:
            c = self._modref = {}
        if f.node in c:
            return c[f.node]
        seen = set()
        reads, writes = set(), set()
        todo = [f]
        while todo:
            g = todo.pop()
            if g.node in seen:
                continue
            seen.add(g.node)
            r, w, calls = self._direct(g)
            reads |= r
            writes |= w
            for kind, name in calls:
                if kind == 'n':
                    t = self.resolve(g.module, name)
                    if isinstance(t, Func):
                        todo.append(t)
                    elif isinstance(t, Class) and '__init__' in t.methods:
                        todo.append(t.methods['__init__'])
                elif len(self.method_index.get(name, ())) <= 3:
                    todo.extend(self.method_index.get(name, ()))
        c[f.node] = (frozenset(reads), frozenset(writes))
        return c[f.node]

    def _direct(self, f):
        d = getattr(f, '_mr', None)
        if d is not None:
            return d
        r, w, calls = set(), set(), set()
        muts = ('append', 'extend', 'add', 'update', 'pop', 'remove', 'insert', 'clear', 'sort', 'setdefault', 'discard')
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                (r if isinstance(x.ctx, ast.Load) else w).add(x.attr)
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
                w.add(x.value.attr)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute):
                r.add(x.target.attr)
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Name):
                    calls.add(('n', x.func.id))
                elif isinstance(x.func, ast.Attribute):
                    calls.add(('m', x.func.attr))
                    if x.func.attr in muts and isinstance(x.func.value, ast.Attribute):
                        w.add(x.func.value.attr)
        f._mr = (r, w, calls)
        return f._mr

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    yield f


class SpecModule:
    """reference definitions for one module: own imports and functions, other names from the analysed module"""
    spec = True
    _collect = Module._collect

    def __init__(self, repo, target, path):
        self.repo = repo
        self.target = target
        self.name = target.name
        self.rel = os.path.relpath(path, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        self.path = path
        with open(path) as f:
            self.tree = desugar(ast.parse(f.read(), path))
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.genv = None
        self._collect(self.tree.body)
        self.spec_classes = self.classes
        for k, c in self.spec_classes.items():
            tc = target.classes.get(k)
            for f in list(c.methods.values()) + list(c.setters.values()) + list(c.getters.values()):
                f.cls = tc
                f.is_spec = True
        for f in self.funcs.values():
            f.is_spec = True
        self.classes = {}

    def spec_method(self, c, name):
        for k, sc in self.spec_classes.items():
            if self.target.classes.get(k) is c:
                return sc.methods.get(name)
        return None

    def get(self, path):
        parts = path.split('.')
        if len(parts) == 1:
            return self.funcs.get(parts[0])
        c = self.spec_classes.get(parts[0])
        if c is None:
            return None
        if len(parts) == 3:
            return c.setters.get(parts[1]) if parts[2] == 'setter' else c.getters.get(parts[1])
        return c.methods.get(parts[1])

    def paths(self):
        out = list(self.funcs)
        for k, c in self.spec_classes.items():
            out += [k + '.' + m for m in c.methods] + [k + '.' + m + '.setter' for m in c.setters]
        return out
