"""Syntax tree -> gated value graph (one pass, structured control flow, joins as gates).

For each function the builder yields
  * ``ret``     - one gated node for the value returned (``raise`` leaves included),
  * ``effects`` - the externally visible actions, each with its path condition,
                  enclosing loops and enclosing try handlers,
  * ``env``     - the final value of every local and of every attribute written.
Calls to helper functions of the repository are expanded in place; public
functions known to the reference inventory stay symbolic.
"""
import ast
import builtins

from .terms import (T, Loop, mk, const, NONE, FULL, TRUE, FALSE, isconst, pyval, allconst, lift, mentions_rec,
                    mentions_pos, subterms, _BIN)
from .interp import FAMILY, SIGNATURES
from .repo import Repo, Func, Class, Module, AnalysisError

IGNORED_CALLS = {'builtins.print', 'warnings.warn', 'warn', 'logging.info', 'logging.debug', 'logging.warning'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'update', 'add', 'discard', 'setdefault',
            'clear', 'popitem', 'fill'}
EFFECTS = {'write', 'writelines', 'put', 'create_dataset', 'create_group', 'close', 'bcast', 'flush', 'seek', 'to_csv',
           'to_hdf5', 'set_sigma', 'apply_sum_rules', 'replace_array', 'write_ace', 'insert', 'savefig', 'create'}
EFFECT_FUNCS = {'shutil.copy', 'shutil.move', 'shutil.copyfile', 'os.remove', 'os.makedirs', 'os.mkdir', 'os.rename',
                'subprocess.Popen', 'numpy.fill_diagonal', 'os.system', 'os.replace'}
STREAMS = {'file_obj', 'ace_file', 'fh'}
STRIP_METHODS = {'copy', 'tolist', 'keys', 'ravel'}
IDENT_FUNCS = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.deepcopy', 'copy.copy', 'builtins.list',
               'builtins.tuple', 'numpy.ascontiguousarray', 'numpy.float64', 'builtins.iter', 'collections.OrderedDict'}
LIB_ALIAS = {
    'numpy.absolute': 'numpy.abs', 'builtins.abs': 'numpy.abs', 'math.sqrt': 'numpy.sqrt', 'math.log': 'numpy.log',
    'math.exp': 'numpy.exp', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'builtins.max': 'numpy.max',
    'builtins.min': 'numpy.min', 'numpy.matmul': 'numpy.dot', 'numpy.identity': 'numpy.eye',
    'scipy.special.erf': 'math.erf', 'numpy.bytes_': 'numpy.string_', 'scipy.stats.distributions.norm': 'scipy.stats.norm',
    'scipy.stats.distributions.uniform': 'scipy.stats.uniform', 'math.pi': 'numpy.pi', 'itertools.accumulate': 'numpy.cumsum',
    'math.fabs': 'numpy.abs', 'pandas.isna': 'numpy.isnan', 'pandas.isnull': 'numpy.isnan', 'numpy.all': 'builtins.all',
    'numpy.any': 'builtins.any', 'numpy.row_stack': 'numpy.vstack', 'math.pow': 'numpy.power', 'operator.add': 'numpy.add',
}
BIN_FUNCS = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.true_divide': '/',
             'numpy.power': '**', 'numpy.dot': '@', 'numpy.mod': '%', 'numpy.floor_divide': '//'}
CMP_FUNCS = {'numpy.equal': '==', 'numpy.not_equal': '!=', 'numpy.less': '<', 'numpy.less_equal': '<=',
             'numpy.greater': '>', 'numpy.greater_equal': '>='}
BOOLISH = {'cmp', 'not', 'and', 'or', 'isna', 'truth', 'isinst', 'any', 'all', 'ex'}
NP_SIGS = {'numpy.searchsorted': ['a', 'v', 'side'], 'numpy.insert': ['arr', 'obj', 'values'], 'numpy.diag': ['v', 'k'],
           'numpy.full': ['shape', 'fill_value'], 'numpy.linspace': ['start', 'stop', 'num'],
           'numpy.reshape': ['a', 'newshape'], 'numpy.clip': ['a', 'a_min', 'a_max'], 'numpy.isclose': ['a', 'b'],
           'subprocess.CalledProcessError': ['returncode', 'cmd', 'output'], 'numpy.zeros': ['shape'],
           'numpy.ones': ['shape'], 'numpy.empty': ['shape'], 'builtins.open': ['file', 'mode']}


TEXTUAL = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'decode', 'replace', 'join', 'format', 'title', 'capitalize', 'dirname', 'basename'}


class State:
    __slots__ = ('env', 'guards', 'dead')

    def __init__(self, env=None, guards=None, dead=False):
        self.env = env if env is not None else {}
        self.guards = guards if guards is not None else []
        self.dead = dead

    def fork(self):
        return State(dict(self.env), list(self.guards), self.dead)


SITES = 'sites'


def tag_of(t):
    return t.a[2][-1][1].a[0] if t.a[2] and t.a[2][-1][0] == '@' else None


def roots(ts):
    """the instances made here that these values are or belong to"""
    out, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if not isinstance(t, T):
            continue
        if t.op == 'new':
            out.add(t)
        elif t.op in ('attr', 'idx', 'after'):
            todo.append(t.a[0])
        elif t.op == 'ite':
            todo += [t.a[1], t.a[2]]
    return out


class Effect:
    __slots__ = ('guards', 'loops', 'tries', 'kind', 'payload', 'line', 'file', 'func')

    def __init__(self, guards, loops, tries, kind, payload, line, file, func):
        self.guards, self.loops, self.tries, self.kind, self.payload, self.line, self.file, self.func = \
            guards, loops, tries, kind, payload, line, file, func

    def term(self):
        return mk('eff', tuple(self.guards), tuple(self.loops), (self.kind,) + tuple(self.payload))

    def __repr__(self):
        return '%s:%s %s%r if %r loops %r' % (self.file, self.line, self.kind, self.payload, self.guards, self.loops)


class Frame:
    def __init__(self, func, module, cls, parent=None):
        self.func = func
        self.module = module
        self.cls = cls
        self.parent = parent
        self.rets = []        # (guards tuple relative?, T)
        self.ends = []        # (guards, environment) at returns outside loops
        self.raises = []      # guards tuples (outside loops)
        self.loopctx = []     # active LoopCtx in this frame
        self.closure = None


class LoopCtx:
    def __init__(self, loop, nguards):
        self.loop = loop
        self.nguards = nguards
        self.conts = []


def gand(gs):
    gs = [g for g in gs if g is not TRUE]
    if not gs:
        return TRUE
    if len(gs) == 1:
        return gs[0]
    return mk('and', *gs)


def gnot(t):
    if t.op == 'not':
        return t.a[0] if t.a[0].op in BOOLISH else mk('truth', t.a[0])
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'cmp':
        inv = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>', 'in': 'not in', 'not in': 'in',
               'is': 'is not', 'is not': 'is'}
        return mk('cmp', inv[t.a[0]], t.a[1], t.a[2])
    return mk('not', t)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isconst(c):
        return a if c.a[0] else b
    if a is TRUE and b is FALSE and c.op in BOOLISH:
        return c
    if a is FALSE and b is TRUE and c.op in BOOLISH:
        return gnot(c)
    if a.op == 'dict' and b.op == 'dict' and a.a and b.a and len(a.a) == len(b.a) and all(allconst(k) for k, _ in a.a + b.a):
        other = {k: v for k, v in b.a}
        if len(other) == len(b.a) and set(other) == {k for k, _ in a.a}:
            # the same entries either way: one dictionary
            return mk('dict', *[(k, ite(c, v, other[k])) for k, v in a.a])
    if c.op == 'cmp' and c.a[0] in ('in', 'not in') and c.a[1].op == 'const' and isinstance(c.a[1].a[0], str):
        # the text before the first separator
        x, y = (a, b) if c.a[0] == 'in' else (b, a)
        if y is c.a[2] and x.op == 'idx' and x.a[0] is y and x.a[1].op == 'slice' and x.a[1].a[0] is NONE and x.a[1].a[2] is NONE and x.a[1].a[1].op == 'call' \
                and x.a[1].a[1].a[0].op == 'attr' and x.a[1].a[1].a[0].a[1] in ('find', 'index') and x.a[1].a[1].a[0].a[0] is y and x.a[1].a[1].a[1] == (c.a[1],):
            return mk('idx', mk('call', mk('attr', y, 'split'), (c.a[1],), ()), const(0))
    return mk('ite', c, a, b)


def some(L, c):
    """some turn of the loop satisfies c"""
    if c.op == 'cmp' and c.a[0] == '==' and L.kind == 'for' and not L.breaks and not L.recs:
        # one of the members
        p = mk('pos', L)
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if x.op == 'idx' and x.a[1] is p and L.domain is mk('len', x.a[0]) and x.a[0].op in ('attr', 'param', 'map', 'idx') and not any(t is p or t.op == 'rec' and t.a[0] is L for t in here(y)) \
                    and p not in set(here(x.a[0])):
                return mk('cmp', 'in', y, x.a[0])
    return FALSE if c is FALSE else mk('ex', L, c)


def first(L, c, v):
    """v at the first turn that satisfies c"""
    if isconst(v) or not (mentions_pos(v, L) or mentions_rec(v, L)):
        return v
    return mk('first', L, c, v)


class Builder:
    def __init__(self, repo, known=None, inline=(), opaque=(), max_depth=8):
        self.repo = repo
        self.known = known            # set of reference function quals (symbolic when public)
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.effects = []
        self.frames = []
        self.loops = []
        self.tries = []
        self.max_depth = max_depth
        self.file = None
        self.inlined = []
        self.unknown = []
        self.reading = 0
        self.folding = False
        self.quiet = 0
        self.made = {}
        self.probes = []
        self.tags = None
        self.sites = {}
        self.exc_count = {}
        self.sure = []
        self.solid = {}

    # ------------------------------------------------------------------
    def effect(self, st, kind, payload, node):
        fr = self.frames[-1]
        self.effects.append(Effect(tuple(st.guards), tuple(self.loops), tuple(self.tries), kind, tuple(payload),
                                   getattr(node, 'lineno', 0), fr.module.rel if fr.module else '?',
                                   fr.func.qual if fr.func else '<module>'))

    # ---------------------------------------------------------------- functions
    def analyse(self, func, args=None, as_module=None):
        """summarise one function"""
        st = State()
        fr = Frame(func, as_module or func.module, func.cls)
        self.frames.append(fr)
        node = func.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        params = []
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and not func.static:
                p = mk('param', 'cls' if func.classm else 'self')
            else:
                p = mk('param', n)
            if args and n in args:
                p = args[n]
            st.env[n] = p
            params.append(p)
        for x in a.kwonlyargs:
            st.env[x.arg] = (args or {}).get(x.arg, mk('param', x.arg))
        if a.vararg:
            st.env[a.vararg.arg] = mk('param', '*' + a.vararg.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = mk('param', '**' + a.kwarg.arg)
        self.block(node.body, st)
        ret = self.close(fr, st, 0)
        self.frames.pop()
        return Summary(func, params, ret, self.effects, st, self)

    def close(self, fr, st, ng):
        """fold the recorded exits of a frame into one gated node"""
        tail = NONE
        items = list(fr.rets)
        if st.dead or items:
            out = None
            if not st.dead:
                out = NONE
            for g, v in reversed(items):
                c = gand(g[ng:])
                out = v if out is None else ite(c, v, out)
            return out if out is not None else NONE
        return tail

    def block(self, body, st):
        for s in body:
            if st.dead:
                break
            self.stmt(s, st)

    # ---------------------------------------------------------------- statements
    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unknown.append(type(s).__name__)
            return
        m(s, st)

    def s_Pass(self, s, st):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            name = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            st.env[name] = mk('mod', tgt) if tgt in self.repo.modules else mk('lib', tgt)

    def s_ImportFrom(self, s, st):
        for a in s.names:
            base = s.module or ''
            if s.level:
                parts = self.frames[-1].module.name.split('.')[:-s.level]
                base = '.'.join(parts + ([base] if base else []))
            if base in self.repo.modules:
                st.env[a.asname or a.name] = self.wrap(self.repo.resolve(self.repo.modules[base], a.name), base + '.' + a.name)
            else:
                st.env[a.asname or a.name] = mk('lib', base + '.' + a.name)

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = Func((fr.func.qual if fr.func else fr.module.name) + '.<locals>.' + s.name, s, fr.module, None)
        f.closure_env = st.env
        f.nested = True
        f.cls_ctx = fr.cls
        st.env[s.name] = mk('lfunc', NodeBox(f))

    def s_ClassDef(self, s, st):
        st.env[s.name] = mk('unk', 'localclass:' + s.name)

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            self.call(v, st, stmt=True)
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            val = self.expr(v.value, st) if v.value is not None else NONE
            self.effect(st, 'yield', (val,), s)
            return
        self.expr(v, st)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        g = st.fork()
        g.guards.append(gnot(c))
        self.raise_(g, 'AssertionError', NONE, s)
        st.guards.append(c)

    def raise_(self, st, name, payload, node):
        fr = self.frames[-1]
        self.effect(st, 'raise', (const(name),), node)
        fr.rets.append((tuple(st.guards), mk('raise', name)))
        if not self.loops or not fr.loopctx:
            fr.raises.append(tuple(st.guards))
        st.dead = True

    def s_Raise(self, s, st):
        name = 'Exception'
        if s.exc is None:
            name = '<reraise>'
        else:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else (e.attr if isinstance(e, ast.Attribute) else 'Exception')
            if isinstance(s.exc, ast.Call):
                for x in s.exc.args:
                    self.quietly(x, st)
        self.raise_(st, name, NONE, s)

    def quietly(self, x, st):
        n = len(self.effects)
        v = self.expr(x, st)
        return v

    def s_Return(self, s, st):
        v = self.expr(s.value, st) if s.value is not None else NONE
        fr = self.frames[-1]
        fr.rets.append((tuple(st.guards), v))
        if not fr.loopctx:
            fr.ends.append((tuple(st.guards), dict(st.env)))
        st.dead = True

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                # an item taken out and dropped
                b = self.expr(t.value, st)
                self.mutate(s, t.value, b, 'pop', [self.expr(t.slice, st)], st, True)
            else:
                self.effect(st, 'del', (self.expr(t, st),), s)

    def s_Continue(self, s, st):
        fr = self.frames[-1]
        if fr.loopctx:
            lc = fr.loopctx[-1]
            lc.conts.append((tuple(st.guards[lc.nguards:]), dict(st.env)))
        st.dead = True

    def s_Break(self, s, st):
        fr = self.frames[-1]
        if fr.loopctx:
            lc = fr.loopctx[-1]
            lc.loop.breaks.append(tuple(st.guards[lc.nguards:]))
            lc.conts.append((tuple(st.guards[lc.nguards:]), dict(st.env)))
        st.dead = True

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        tok = self.fresh(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        if tok is not None:
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env[('fr', t.id)] = tok
                elif isinstance(t, ast.Attribute):
                    st.env[('fr', self.again(t.value, st), t.attr)] = tok
        if not isconst(v):
            # local name and attribute that denote one container
            an = s.value if isinstance(s.value, ast.Attribute) else next((t for t in s.targets if isinstance(t, ast.Attribute)), None)
            if an is not None:
                bb = self.again(an.value, st)
                names = [t.id for t in s.targets if isinstance(t, ast.Name)]
                if an is not s.value and isinstance(s.value, ast.Name):
                    names.append(s.value.id)
                for nm in names:
                    st.env[('al', nm)] = mk('akey', bb, an.attr)

    def fresh(self, n, st):
        """the expression makes a container of its own: a token for it"""
        if isinstance(n, ast.Name):
            return st.env.get(('fr', n.id))
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('list', 'dict', 'sorted') and len(n.args) == 1 and f.id not in st.env:
                return mk('tok', n.lineno, n.col_offset)
            if isinstance(f, ast.Attribute) and (f.attr == 'copy' and not n.args or f.attr == 'tolist'):
                return mk('tok', n.lineno, n.col_offset)
            if isinstance(f, ast.Attribute) and f.attr == 'reshape':
                return self.fresh(f.value, st)
            if isinstance(f, (ast.Name, ast.Attribute)) and n.args:
                g = self.quietly(f, st)
                if g is not None and g.op == 'lib' and g.a[0] in ('copy.copy', 'copy.deepcopy', 'numpy.array', 'numpy.copy'):
                    return mk('tok', n.lineno, n.col_offset)
                if g is not None and g.op == 'func' and self.makes(g.a[0].obj):
                    return mk('tok', n.lineno, n.col_offset)
        return None

    def makes(self, f):
        """the function returns an array or container that nobody else holds"""
        r = getattr(f, '_makes', None)
        if r is None:
            a = f.node.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            binds, rets, bad = {}, [], set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
                    params = None
                    break
                if isinstance(x, ast.Return):
                    rets.append(x.value)
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            binds.setdefault(t.id, []).append(x.value)
                        else:
                            bad |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                            bad |= {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
                elif isinstance(x, (ast.For, ast.comprehension)):
                    bad |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}

            def new(v, seen=()):
                if isinstance(v, (ast.BinOp, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                    return True
                if isinstance(v, ast.Name):
                    return v.id not in params and v.id not in bad and v.id not in seen and v.id in binds and all(new(y, seen + (v.id,)) for y in binds[v.id])
                return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in ('np', 'numpy') \
                    and v.func.attr in ('array', 'zeros', 'ones', 'dot', 'empty', 'copy', 'outer', 'sqrt', 'exp', 'log', 'diag')
            r = f._makes = bool(params is not None and not f.node.decorator_list and rets and all(v is not None and new(v) for v in rets))
        return r

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st), st, s)

    def s_AugAssign(self, s, st):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        old = self.again(load, st)
        v = self.binop(_BIN[type(s.op).__name__], old, self.expr(s.value, st))
        self.assign(t, v, st, s, aug=True)

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            st.env.pop(('al', t.id), None)
            if not aug:
                st.env.pop(('fr', t.id), None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if star:
                    k = star[0]
                    if i < k:
                        self.assign(e, self.index(v, const(i)), st, node)
                    elif i == k:
                        self.assign(e.value, self.index(v, mk('slice', const(k), const(k - n + 1) if k != n - 1 else NONE, NONE)), st, node)
                    else:
                        self.assign(e, self.index(v, const(i - n)), st, node)
                else:
                    self.assign(e, self.index(v, const(i)), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st)
            st.env[('h', b, t.attr)] = v
            if not aug:
                st.env.pop(('fr', b, t.attr), None)
            self.effect(st, 'setattr', (b, const(t.attr), v), node)
        elif isinstance(t, ast.Subscript):
            i = self.expr(t.slice, st)
            self.store(t.value, i, v, st, node)

    def store(self, bnode, i, v, st, node):
        bb = None
        i = axes(i)
        # several rows or columns at once, from as many others: one after the other
        ia = i.a if i.op == 'tuple' else (i,)
        ls = [k for k, x in enumerate(ia) if x.op == 'list']
        if len(ls) == 1 and 1 < len(ia[ls[0]].a) <= 4 and v.op == 'idx' and not any(x.op in BOOLISH or x.op == 'list' for x in ia[ls[0]].a) \
                and all(x.op == 'slice' for k, x in enumerate(ia) if k not in ls):
            k = ls[0]
            va = v.a[1].a if v.a[1].op == 'tuple' else (v.a[1],)
            n = len(ia[k].a)
            if len(va) > k and va[k].op == 'list' and len(va[k].a) == n and not any(x.op in BOOLISH or x.op == 'list' for x in va[k].a) \
                    and all(x.op == 'slice' for j, x in enumerate(va) if j != k):
                pick = lambda t, m: mk('tuple', *t[:k], t[k].a[m], *t[k + 1:]) if len(t) > 1 else t[k].a[m]
                vs = [self.index(v.a[0], pick(va, m)) for m in range(n)]
                for m in range(n):
                    self.store(bnode, pick(ia, m), vs[m], st, node)
                return
        if isinstance(bnode, ast.Attribute) and bnode.attr in ('loc', 'iloc', 'at', 'iat') and isinstance(bnode.value, (ast.Name, ast.Attribute)):
            # part of a frame: the frame itself changes
            f = bnode.value
            fb = self.expr(f.value, st) if isinstance(f, ast.Attribute) else None
            b = self.attr(fb, f.attr, st) if fb is not None else self.expr(f, st)
            self.changed(f, fb, b, mk('mut', '.' + bnode.attr, b, (i, v)), 'setitem', (mk('tuple', const('.' + bnode.attr), i), v), st, node)
            return
        if isinstance(bnode, ast.Attribute):
            bb = self.expr(bnode.value, st)
            b = self.attr(bb, bnode.attr, st)
        elif isinstance(bnode, ast.Subscript):
            ob = self.expr(bnode.value, st)
            inner_i = self.expr(bnode.slice, st)
            b = self.index(self.container(ob, '__getitem__', st) or ob, inner_i)
            new = self.upd(b, i, v)
            self.effect(st, 'setitem', (self.root(b), i, v), node)
            if isinstance(bnode.value, ast.Name):
                # nested container: x[i][j] = v
                st.env[bnode.value.id] = self.upd(ob, inner_i, new)
            return
        else:
            b = self.expr(bnode, st)
        new = self.upd(b, i, v)
        self.changed(bnode, bb, b, new, 'setitem', (i, v), st, node)

    def changed(self, tgt, bb, b, new, kind, payload, st, node):
        """container b (reached through expression tgt) now has contents new"""
        tok = st.env.get(('fr', tgt.id)) if isinstance(tgt, ast.Name) else st.env.get(('fr', bb, tgt.attr)) if isinstance(tgt, ast.Attribute) else None
        if tok is not None and tok.op == 'tok':
            # a private copy: only the places that hold it see the change
            for k in list(st.env):
                if isinstance(k, tuple) and k[0] == 'fr' and st.env[k] is tok:
                    if len(k) == 2:
                        if st.env.get(k[1]) is b or isinstance(tgt, ast.Name) and tgt.id == k[1]:
                            st.env[k[1]] = new
                    else:
                        st.env[('h', k[1], k[2])] = new
                        self.effect(st, 'setattr', (k[1], const(k[2]), new), node)
            return
        loc = (bb, tgt.attr) if isinstance(tgt, ast.Attribute) else None
        if isinstance(tgt, ast.Name):
            al = st.env.get(('al', tgt.id))
            if al is not None and al.op == 'akey':
                cur = st.env.get(('h', al.a[0], al.a[1]))
                if cur is None:
                    cur = mk('attr', al.a[0], al.a[1])
                if cur is b:
                    loc = al.a
        self.rebind(b, new, st)
        if isinstance(tgt, ast.Name):
            st.env[tgt.id] = new
        if loc is not None:
            st.env[('h',) + tuple(loc)] = new
            if self.literal(b):
                self.effect(st, 'setattr', (loc[0], const(loc[1]), new), node)
            else:
                self.effect(st, kind, (self.root(b) if self.shared(b) else mk('attr', *loc),) + tuple(payload), node)
        elif self.shared(b) or not isinstance(tgt, ast.Name):
            self.effect(st, kind, (self.root(b),) + tuple(payload), node)

    def literal(self, b):
        r = self.root(b)
        return r.op in ('list', 'dict', 'set') or r.op == 'ite' and all(x.op == 'dict' for x in leaves(r) or [r])

    def rebind(self, old, new, st):
        """an object was modified in place: every name or attribute holding it sees the new contents"""
        r = self.root(old)
        if r.op in ('list', 'dict', 'set', 'tuple', 'const', 'setof'):
            return
        for k in list(st.env):
            if st.env[k] is old and not (isinstance(k, tuple) and k[0] == 'io'):
                st.env[k] = new
        o = old.a[0] if old.op == 'after' else old
        if o.op == 'attr':
            st.env[('h', o.a[0], o.a[1])] = new

    def again(self, node, st):
        """value of an expression already evaluated once (its effects are not repeated)"""
        n = len(self.effects)
        k = dict(self.exc_count)
        v = self.expr(node, st.fork())
        del self.effects[n:]
        self.exc_count = k
        return v

    def root(self, b):
        while True:
            if b.op in ('upd', 'append', 'after'):
                b = b.a[0]
            elif b.op == 'mut':
                b = b.a[1]
            elif b.op in ('rec', 'out') and isinstance(b.a[1], tuple) and b.a[1][0] == 'h':
                return mk('attr', b.a[1][1], b.a[1][2])
            else:
                return b

    def shared(self, b):
        return self.root(b).op in ('param', 'attr', 'idx', 'glob', 'rcall', 'call', 'rd')

    def upd(self, b, i, v):
        i = axes(i)
        if b.op == 'ite' and allconst(i) and all(x.op == 'dict' for x in leaves(b) or [b]):
            return ite(b.a[0], self.upd(b.a[1], i, v), self.upd(b.a[2], i, v))
        if b.op == 'dict' and allconst(i):
            items = list(b.a)
            for k, (kk, vv) in enumerate(items):
                if kk is i:
                    items[k] = (i, v)
                    break
            else:
                items.append((i, v))
            return mk('dict', *items)
        if b.op == 'list' and i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool) and -len(b.a) <= i.a[0] < len(b.a):
            items = list(b.a)
            items[i.a[0]] = v
            return mk('list', *items)
        if i.op in BOOLISH:
            if v.op == 'idx' and v.a[1] is i:
                v = v.a[0]
            return ite(i, v, b)
        if b.op == 'upd' and b.a[1] is not i and row_of(i) is not None and row_of(b.a[1]) is not None and row_of(i) < row_of(b.a[1]):
            return mk('upd', self.upd(b.a[0], i, v), b.a[1], b.a[2])
        if b.op == 'upd' and allconst(i) and allconst(b.a[1]):
            # places that do not touch each other, in a fixed order
            if b.a[1] is i:
                return self.upd(b.a[0], i, v)
            if pyval(i) != pyval(b.a[1]) and isconst(i) and isconst(b.a[1]) and type(i.a[0]) is str and type(b.a[1].a[0]) is str and i.a[0] < b.a[1].a[0]:
                return mk('upd', self.upd(b.a[0], i, v), b.a[1], b.a[2])
        if b.op == 'upd' and i is not b.a[1] and v is self.index(b.a[0], b.a[1]) and b.a[2] is self.index(b.a[0], i):
            # two places exchange what they hold
            if weigh(i) < weigh(b.a[1]):
                return mk('upd', mk('upd', b.a[0], i, v), b.a[1], b.a[2])
        return mk('upd', b, i, v)

    # -- control flow
    def settled(self, c, st):
        """a question whose answer follows from a check made before"""
        if self.sure and c.op == 'cmp' and c.a[0] == '==' and isconst(c.a[2]):
            for g, x, vs in self.sure:
                if x is c.a[1] and tuple(st.guards[:len(g)]) == g:
                    if c.a[2] not in vs:
                        return FALSE
                    no = [gnot(mk('cmp', '==', x, v)) for v in vs if v is not c.a[2]]
                    if all(y in st.guards for y in no):
                        return TRUE
        return c

    def s_If(self, s, st):
        c = self.settled(self.cond(s.test, st), st)
        if isconst(c):
            self.block(s.body if c.a[0] else s.orelse, st)
            return
        n = len(st.guards)
        a = st.fork()
        a.guards.append(c)
        b = st.fork()
        b.guards.append(gnot(c))
        self.block(s.body, a)
        self.block(s.orelse, b)
        self.join(st, c, a, b, n)

    def join(self, st, c, a, b, n):
        if a.dead and b.dead:
            st.dead = True
            st.env = a.env
            return
        if a.dead:
            st.env, st.guards = b.env, b.guards
            return
        if b.dead:
            st.env, st.guards = a.env, a.guards
            return
        ea, eb = gand(a.guards[n + 1:]), gand(b.guards[n + 1:])
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x = a.env.get(k)
            y = b.env.get(k)
            if isinstance(k, tuple) and k[0] == 'fr':
                if x is y:
                    env[k] = x
                continue
            if x is None and isinstance(k, tuple):
                x = self.heap_default(k)
            if y is None and isinstance(k, tuple):
                y = self.heap_default(k)
            if x is None:
                x = mk('undef', 0)
            if y is None:
                y = mk('undef', 0)
            env[k] = ite(c, x, y)
        st.env = env
        st.guards = st.guards[:n]
        g = ite(c, ea, eb)
        if g is not TRUE:
            st.guards.append(g)

    def heap_default(self, k):
        if k[0] == 'h':
            return mk('attr', k[1], k[2])
        if k[0] == 'io':
            return const(0)
        if k[0] == 'al':
            return mk('undef', 0)
        return None

    def s_With(self, s, st):
        for it in s.items:
            v = self.expr(it.context_expr, st)
            if it.optional_vars is not None:
                if v.op == 'call' and v.a[0].op == 'lib' and v.a[0].a[0] == 'tempfile.TemporaryDirectory':
                    pass
                self.assign(it.optional_vars, v, st, s)
            self.effect(st, 'with', (v,), s)
        self.tries.append(('with', tuple(ast.unparse(i.context_expr) for i in s.items)))
        self.block(s.body, st)
        self.tries.pop()

    def s_Try(self, s, st):
        fr = self.frames[-1]
        names = []
        for h in s.handlers:
            names.append(_exc_names(h.type))
        s0 = st.fork()
        self.tries.append(('try', tuple(names)))
        self.probes.append({})
        n = len(st.guards)
        nr0, ne0 = len(fr.rets), len(fr.ends)
        self.block(s.body, st)
        nr1, ne1 = len(fr.rets), len(fr.ends)
        self.tries.pop()
        probes = tuple(sorted(self.probes.pop(), key=repr))
        if not st.dead:
            self.block(s.orelse, st)
        for h, nm in zip(s.handlers, names):
            k = self.exc_count.get(nm, 0)
            self.exc_count[nm] = k + 1
            c = mk('exc', nm, k, probes if nm == ('ValueError',) else ())
            if nm == ('ValueError',) and len(probes) == 1 and probes[0].op == 'call' and probes[0].a[0].op == 'attr':
                c = self.compare('not in', probes[0].a[1][0], probes[0].a[0].a[0])
            # what the body returns is returned when nothing went wrong
            for xs, lo, hi in ((fr.rets, nr0, nr1), (fr.ends, ne0, ne1)):
                for j in range(lo, hi):
                    g, v = xs[j]
                    if not (xs is fr.rets and v.op == 'raise'):
                        xs[j] = (tuple(g[:n]) + (gnot(c),) + tuple(g[n:]), v)
            hs = s0.fork()
            hs.guards.append(c)
            if h.name:
                hs.env[h.name] = mk('excval', nm)
            nret = len(fr.rets)
            self.block(h.body, hs)
            new = fr.rets[nret:]
            if not (hs.dead and new and all(v.op == 'raise' for g, v in new)):
                self.effect(s0, 'swallow', (const(nm),), h)
            if st.dead:
                if not hs.dead:
                    st.env, st.guards, st.dead = hs.env, hs.guards, False
            else:
                b = st.fork()
                b.guards.insert(n, gnot(c))
                self.join(st, c, hs, b, n)
        if s.finalbody:
            d = st.dead
            st.dead = False
            self.block(s.finalbody, st)
            st.dead = d or st.dead

    s_TryStar = s_Try

    def s_While(self, s, st):
        if not isconst_node(s.test) and not s.orelse and not has_continue(s.body):
            # the first test is known to succeed: the loop is left at the end of a turn
            ne, g0 = len(self.effects), len(st.guards)
            c = self.cond(s.test, st.fork())
            del self.effects[ne:]
            if c is TRUE:
                k = (id(s), 'rotated')
                w = self.made.get(k)
                if w is None:
                    x = ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])
                    w = self.made[k] = ast.fix_missing_locations(ast.copy_location(ast.While(ast.copy_location(ast.Constant(True), s), s.body + [ast.copy_location(x, s)], []), s))
                self.loop(w, st, None)
                return
        self.loop(s, st, None)

    def s_For(self, s, st):
        it = self.expr(s.iter, st)
        it = self.container(it, '__iter__', st) or it
        if it.op == 'ite' and (self.nothing(it.a[1]) or self.nothing(it.a[2])) and not s.orelse:
            # a walk over everything or nothing
            c, it = (gnot(it.a[0]), it.a[2]) if self.nothing(it.a[1]) else it.a[:2]
            n = len(st.guards)
            a, b = st.fork(), st.fork()
            a.guards.append(c)
            b.guards.append(gnot(c))
            self.walk(s, a, it)
            self.join(st, c, a, b, n)
            return
        two = self.either(it) if not s.orelse and len(s.body) < 4 and not self.folding else None
        if two is not None:
            # one walk or the other
            n = len(st.guards)
            c, x, y = two
            a, b = st.fork(), st.fork()
            a.guards.append(c)
            b.guards.append(gnot(c))
            for side, w, it in ((a, True, x), (b, False, y)):
                for k, v in list(side.env.items()):
                    if isinstance(v, T) and v.op == 'ite' and v.a[0] is c:
                        side.env[k] = v.a[1] if w else v.a[2]
                self.walk(s, side, it)
            self.join(st, c, a, b, n)
            return
        self.walk(s, st, it)

    def either(self, it):
        """a walk over a short literal under some condition: condition and the two walks"""
        if it.op == 'ite' and any(x.op in ('list', 'tuple') and len(x.a) < 3 for x in it.a[1:]):
            return it.a
        if it.op == 'range' and it.a[1].op == 'ite' and any(isconst(x) and x.a[0] in (0, 1, 2) for x in it.a[1].a[1:]):
            c, x, y = it.a[1].a
            return c, mk('range', it.a[0], x, it.a[2]), mk('range', it.a[0], y, it.a[2])
        if it.op == 'range' and it.a[1].op == 'len' and self.either(it.a[1].a[0]):
            c, x, y = self.either(it.a[1].a[0])
            return c, mk('range', it.a[0], self.length(x), it.a[2]), mk('range', it.a[0], self.length(y), it.a[2])
        if it.op in ('enum', 'reversed') and it.a[0].op == 'ite' and len(it.a) < 3:
            two = self.either(it.a[0])
            return two and (two[0],) + tuple(mk(it.op, x, *it.a[1:]) for x in two[1:])
        return None

    def nothing(self, x):
        return x.op in ('list', 'tuple', 'dict', 'set') and not x.a

    def walk(self, s, st, it):
        if self.folding and self.unroll(s, st, it):
            return
        if not self.folding and self.few(s, it):
            self.unroll(s, st, it)
            if not st.dead:
                self.block(s.orelse, st)
            return
        self.loop(s, st, it)

    def few(self, s, it):
        """a loop over a handful of elements written out in the source: the statements it abbreviates"""
        if it.op not in ('list', 'tuple', 'dict', 'dictitems', 'enum', 'zip', 'range'):
            return False
        items = self.items(it)
        if not items or len(items) > 8:
            return False
        todo = list(s.body)
        size = 0
        while todo:
            x = todo.pop()
            size += 1
            if isinstance(x, (ast.Break, ast.Continue)):
                return False
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                return False
            if isinstance(x, (ast.For, ast.While)) and not any(isinstance(y, (ast.Break, ast.Continue)) for z in x.orelse for y in ast.walk(z)):
                size += sum(1 for y in ast.walk(x) if isinstance(y, ast.stmt))
                continue
            todo += [y for y in ast.iter_child_nodes(x) if isinstance(y, (ast.stmt, ast.ExceptHandler))]
        return size * len(items) <= 160

    def unroll(self, s, st, it):
        items = self.items(it)
        if items is None or len(items) > 2000:
            return False
        for x in items:
            self.assign(s.target, x, st, s)
            self.block(s.body, st)
            if st.dead:
                break
        return True

    def items(self, it):
        if it.op in ('list', 'tuple', 'set'):
            return list(it.a)
        if it.op == 'range':
            try:
                a, b, c = [pyval(x) for x in it.a]
                r = range(a, b, c)
                if len(r) > 5000:
                    return None
                return [const(i) for i in r]
            except (ValueError, TypeError):
                return None
        if it.op == 'dict':
            return [k for k, v in it.a]
        if it.op == 'dictitems' and it.a[0].op == 'dict':
            return [mk('tuple', k, v) for k, v in it.a[0].a]
        if it.op == 'enum':
            x = self.items(it.a[0])
            if x is not None and isconst(it.a[1]):
                return [mk('tuple', const(i + it.a[1].a[0]), v) for i, v in enumerate(x)]
        if it.op == 'zip':
            xs = [self.items(x) for x in it.a]
            if all(x is not None for x in xs):
                return [mk('tuple', *r) for r in zip(*xs)]
            ns = {len(x) for x in xs if x is not None}
            if len(ns) == 1:        # cut to as many as are written out beside them
                n = ns.pop()
                if all(x is not None or y.op == 'idx' and y.a[1].op == 'slice' and y.a[1].a[2] is NONE and isconst(y.a[1].a[1])
                       and isinstance(y.a[1].a[1].a[0], int) and (y.a[1].a[0] is NONE or isconst(y.a[1].a[0]))
                       and y.a[1].a[1].a[0] - ((y.a[1].a[0].a[0] or 0) if y.a[1].a[0] is not NONE else 0) == n for x, y in zip(xs, it.a)):
                    xs = [x if x is not None else [self.index(y, const(k)) for k in range(n)] for x, y in zip(xs, it.a)]
                    return [mk('tuple', *r) for r in zip(*xs)]
        return None

    def iterate(self, it):
        """-> (domain T, fn(pos) -> element T)"""
        o = it.op
        if o == 'range':
            a, b, c = it.a
            dom = self.binop('-', b, a)
            if c is not const(1):
                dom = mk('rangelen', a, b, c)
            return dom, lambda p: self.binop('+', a, self.binop('*', c, p))
        if o == 'enum':
            d, f = self.iterate(it.a[0])
            return d, lambda p: mk('tuple', self.binop('+', p, it.a[1]), f(p))
        if o == 'dict':
            it = mk('list', *[k for k, v in it.a])
        if o in ('dictitems', 'dictvalues') and it.a[0].op == 'dict':
            ks, vs = mk('list', *[k for k, v in it.a[0].a]), mk('list', *[v for k, v in it.a[0].a])
            if o == 'dictvalues':
                return self.length(vs), lambda p: self.index(vs, p)
            return self.length(ks), lambda p: mk('tuple', self.index(ks, p), self.index(vs, p))
        if o == 'zip':
            parts = [self.iterate(x) for x in it.a]
            ds = list(dict.fromkeys(d for d, f in parts))
            return (mk('zipdom', *ds) if len(ds) > 1 else ds[0] if ds else const(0)), lambda p: mk('tuple', *[f(p) for d, f in parts])
        if o == 'dictitems':
            d = it.a[0]
            return self.length(d), lambda p: mk('tuple', mk('idx', d, p), mk('idx', d, mk('idx', d, p)))
        if o == 'dictvalues':
            d = it.a[0]
            return self.length(d), lambda p: mk('idx', d, mk('idx', d, p))
        if o == 'reversed':
            x = it.a[0]
            return self.length(x), lambda p: self.index(x, self.binop('-', const(-1), p))
        if o == 'map' and it.a[2] is TRUE:
            L, g, c = it.a
            return self.loop_len(L), lambda p: subst_pos(g, L, p)
        if o in ('list', 'tuple') and len(it.a) > 1 and all(x.op == 'tuple' and len(x.a) == len(it.a[0].a) for x in it.a):
            cols = [mk('list', *[x.a[k] for x in it.a]) for k in range(len(it.a[0].a))]
            return self.length(it), lambda p: mk('tuple', *[self.index(c, p) for c in cols])
        return self.length(it), lambda p: self.index(it, p)

    def filtered(self, it):
        """the loop over a selection is a loop over everything that skips the rest"""
        L, g, c = it.a
        return self.loop_len(L), lambda p: subst_pos(g, L, p), lambda p: subst_pos(c, L, p)

    def loop_len(self, L):
        return L.domain

    def loop(self, s, st, it):
        """abstract one loop: body once for a generic position, loop-carried values as rec nodes"""
        isfor = it is not None
        fr = self.frames[-1]
        parent = self.loops[-1] if self.loops else None
        env0 = dict(st.env)
        changed = {}
        ne = len(self.effects)
        nr, nx = len(fr.rets), len(fr.raises)
        exc0 = dict(self.exc_count)
        L = Loop('for' if isfor else 'while', parent, TRUE, s.lineno)
        self.made[id(s)] = s
        closed = {}
        for attempt in range(9):
            del self.effects[ne:]
            del fr.rets[nr:]
            del fr.raises[nx:]
            self.exc_count = dict(exc0)
            L.recs, L.breaks, L.domain = {}, [], TRUE
            st2 = State(dict(env0), list(st.guards))
            for k in changed:
                st2.env[k] = mk('rec', L, k)
                L.recs[k] = (env0[k] if k in env0 else (self.heap_default(k) if isinstance(k, tuple) else None) or mk('undef', 0), None)
            for k, (v, o) in closed.items():
                st2.env[k] = v
            self.loops.append(L)
            sel = None
            if isfor:
                dom, el = self.iterate(it)
                if it.op == 'map' and it.a[2] is not TRUE:
                    dom, el, sel = self.filtered(it)
                L.domain = dom
                self.assign(s.target, el(mk('pos', L)), st2, s)
            else:
                c = self.cond(s.test, st2)
                L.domain = c
                st2.guards.append(c)
            fr.loopctx.append(LoopCtx(L, len(st2.guards)))
            if sel is not None:
                c = sel(mk('pos', L))
                fr.loopctx[-1].conts.append(((gnot(c),), dict(st2.env)))
                st2.guards.append(c)
            self.block(s.body, st2)
            lc = fr.loopctx.pop()
            self.loops.pop()
            # merge continue/break states into the end-of-body state
            end = st2.env if not st2.dead else None
            for g, e in reversed(lc.conts):
                if end is None:
                    end = e
                else:
                    c = gand(g)
                    m = {}
                    for k in list(e) + [k for k in end if k not in e]:
                        if isinstance(k, tuple) and k[0] == 'fr':
                            if e.get(k) is end.get(k):
                                m[k] = e[k]
                            continue
                        x = e.get(k) if k in e else (self.heap_default(k) if isinstance(k, tuple) else None)
                        y = end.get(k) if k in end else (self.heap_default(k) if isinstance(k, tuple) else None)
                        x = x if x is not None else mk('undef', 0)
                        y = y if y is not None else mk('undef', 0)
                        m[k] = ite(c, x, y)
                    end = m
            if end is None:
                end = dict(st2.env)
            tgts = set(_target_names(s.target)) if isfor else set()
            ch = {}
            lost = [k for k in env0 if isinstance(k, tuple) and k[0] == 'fr' and end.get(k) is not env0[k]]
            for k in lost:
                del env0[k]
            for k, v in end.items():
                if isinstance(k, tuple) and k[0] == 'fr' or k in closed:
                    continue
                before = env0.get(k)
                if before is None and isinstance(k, tuple):
                    before = self.heap_default(k)
                if k in changed or v is not before:
                    if k in tgts:
                        continue
                    if isinstance(k, tuple) and mentions_pos(k[1], L):
                        continue          # belongs to an object of this iteration only
                    ch[k] = 1
            if all(k in changed for k in ch) and not lost:
                more = self.closed_forms(L, changed, env0, end) if isfor and attempt < 7 else {}
                kept = [k for k in changed if attempt < 7 and k not in L.samelen and k in env0 and k in end and end[k].op in ('upd', 'out')
                        and self.length(end[k]) is mk('len', mk('rec', L, k))]
                for k in kept:
                    L.samelen[k] = env0[k]      # items are replaced, none added
                if not more and not kept:
                    break
                closed.update(more)
                for k in more:
                    changed.pop(k)
                continue
            changed.update(ch)
        if not isfor:
            # what ends the loop is observable when it waits for the outside world
            ex = mk('or', gnot(L.domain), *[gand(list(g)) for g in L.breaks])
            if any(x.op == 'rd' or x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] in ('poll', 'readline', 'read', 'wait') for x in subterms([ex])):
                self.loops.append(L)
                self.effect(st, 'call', (mk('call', mk('lib', 'loop.exit'), (ex,), ()),), s)
                self.loops.pop()
        if isfor and len(fr.rets) > nr:
            # the first turn that leaves the function decides
            exits = [(gand(list(g[len(st.guards):])), v) for g, v in fr.rets[nr:]]
            leave = exits[0][0] if len(exits) == 1 else mk('or', *[c for c, v in exits])
            x = some(L, leave)
            if all(v is exits[0][1] for c, v in exits):
                v = first(L, leave, exits[0][1])
            else:
                v = exits[-1][1]
                for c, w in reversed(exits[:-1]):
                    v = ite(c, w, v)
                v = first(L, leave, v)
            del fr.rets[nr:]
            fr.rets.append((tuple(st.guards) + (x,), v))
            if v.op == 'raise' and not fr.loopctx:
                fr.raises.append(tuple(st.guards) + (x,))
            st.guards.append(gnot(x))
        st.env = dict(env0)
        for k in changed:
            if k not in L.recs:
                L.recs[k] = (env0.get(k) or (self.heap_default(k) if isinstance(k, tuple) else None) or mk('undef', 0), None)
            init = L.recs[k][0]
            u = end.get(k)
            if u is None:
                u = mk('rec', L, k)
            L.recs[k] = (init, u)
        if not isfor and L.domain is TRUE:
            # at least one turn is made: what a name held before matters only where it is read
            used = set(subterms([u for i, u in L.recs.values()] + [x for g in L.breaks for x in g] + [x for e in self.effects[ne:] for x in list(e.payload) + list(e.guards) if isinstance(x, T)]))
            for k, (i, u) in list(L.recs.items()):
                if isinstance(k, str) and mk('rec', L, k) not in used:
                    L.recs[k] = (mk('undef', 0), u)
        for k in changed:
            init, u = L.recs[k]
            st.env[k] = self.loop_out(L, k, init, u)
        for k, (v, o) in closed.items():
            if isinstance(o, tuple):
                st.env[k] = subst_term(v, o[0], st.env[o[1]])
                continue
            st.env[k] = o if not L.breaks else mk('last', L, end.get(k, v))
        if isfor:
            for k in tgts:
                if k in end:
                    i0 = env0.get(k)
                    st.env[k] = mk('last', L, end[k]) if i0 is None or i0.op == 'undef' else mk('last', L, end[k], i0)
                    if L.breaks:
                        c = stops(L)
                        st.env[k] = ite(some(L, c), first(L, c, end[k]), st.env[k])
        if s.orelse:
            c = gnot(some(L, stops(L)) if isfor else mk('broke', L)) if L.breaks else TRUE
            n = len(st.guards)
            a = st.fork()
            a.guards.append(c)
            b = st.fork()
            b.guards.append(gnot(c))
            self.block(s.orelse, a)
            self.join(st, c, a, b, n)

    def closed_forms(self, L, changed, env0, end):
        """counters: loop-carried names whose value is a function of the position"""
        out = {}
        p = mk('pos', L)
        for k in changed:
            if isinstance(k, tuple) or k not in env0:
                continue
            r, u, i = mk('rec', L, k), end.get(k), env0[k]
            if u is None or i.op == 'undef':
                continue
            n = self.step(u, r)
            if n is not None and not mentions_pos(i, L):
                out[k] = (self.binop('+', i, self.binop('*', const(n), p)), self.binop('+', i, self.binop('*', const(n), L.domain)))
                continue
            # what the turn before left behind
            if not mentions_rec(u, L) and not isconst(u) and mentions_pos(u, L) and not mentions_pos(i, L) and not mentions_rec(i, L) and not L.breaks \
                    and not opaque(u, L):
                out[k] = (ite(mk('cmp', '>', p, const(0)), subst_pos(u, L, self.binop('-', p, const(1))), i), mk('last', L, u, i))
                continue
            # a text consumed from the front
            if u.op == 'idx' and u.a[0] is r and u.a[1].op == 'slice' and u.a[1].a[1] is NONE and u.a[1].a[2] is NONE and isconst(u.a[1].a[0]) \
                    and nonneg(u.a[1].a[0]) and not mentions_pos(i, L) and not mentions_rec(i, L):
                c = u.a[1].a[0]
                out[k] = tuple(self.index(i, self.slice(self.binop('*', c, x), NONE, NONE)) for x in (p, L.domain))
                continue
            # counted round a dial
            if u.op == 'bin' and u.a[0] == '%' and self.step(u.a[1], r) == 1 and u.a[2].op == 'const' and isinstance(u.a[2].a[0], int) and u.a[2].a[0] > 1 \
                    and i is const(0):
                out[k] = (mk('bin', '%', p, u.a[2]), mk('bin', '%', L.domain, u.a[2]))
                continue
            # 0, 1, ..., N-1, 0, 1, ...
            if u.op == 'ite' and i is const(0):
                c, a, b = u.a
                if a is not const(0):
                    c, a, b = gnot(c), b, a
                if a is const(0) and self.step(b, r) == 1 and c.op == 'cmp' and c.a[2].op == 'const' and isinstance(c.a[2].a[0], int):
                    n = c.a[2].a[0]
                    if c.a[1] is b and c.a[0] in ('==', '>=') or c.a[1] is b and c.a[0] == '>' and n >= 0:
                        n += c.a[0] == '>'
                    elif c.a[1] is r and c.a[0] in ('==', '>='):
                        n += 1
                    else:
                        continue
                    if n > 1:
                        out[k] = (mk('bin', '%', p, const(n)), mk('bin', '%', L.domain, const(n)))
        # what is remembered together with the place it was found at is what stands at that place
        for k in changed:
            r, u, i = mk('rec', L, k), end.get(k), env0.get(k)
            if isinstance(k, tuple) or k in out or u is None or i is None or i.op == 'undef' or u.op != 'ite':
                continue
            c, a, b = u.a
            if a is r:
                c, a, b = gnot(c), b, a
            if b is not r or any(t.op in ('rd', 'unk', 'new', 'undef', 'raise', 'after') or t.op == 'rec' and t.a[0] is L for t in here(a)):
                continue
            for q in changed:
                w, j = end.get(q), env0.get(q)
                if q == k or isinstance(q, tuple) or q in out or w is None or j is None or j.op == 'undef' or w.op != 'ite':
                    continue
                rq = mk('rec', L, q)
                d, e, f = w.a
                if e is rq:
                    d, e, f = gnot(d), f, e
                if f is not rq or d is not c or isconst(e) or not any(t is mk('pos', L) for t in here(e)) or any(t.op == 'rec' and t.a[0] is L for t in here(e)):
                    continue
                v = subst_term(a, e, rq)
                if v is not a and mk('pos', L) not in set(here(v)) and subst_term(a, e, j) is i:
                    out[k] = (v, (rq, q))
                    break
        return out

    def step(self, u, r):
        if u.op == 'bin' and u.a[0] in ('+', '-'):
            for x, y in ((u.a[1], u.a[2]),) + (((u.a[2], u.a[1]),) if u.a[0] == '+' else ()):
                if x is r and y.op == 'const' and isinstance(y.a[0], int) and not isinstance(y.a[0], bool):
                    return y.a[0] if u.a[0] == '+' else -y.a[0]
        return None

    def loop_out(self, L, k, init, u):
        r = mk('rec', L, k)
        if u is r:
            return init
        if L.kind == 'for' and u.op == 'ite' and not mentions_rec(u.a[0], L):
            # found: what the first suitable turn assigns
            c, a, b = u.a
            if a is r:
                c, a, b = gnot(c), b, a
            if b is r and not mentions_rec(a, L):
                if len(L.breaks) == 1 and gand(list(L.breaks[0])) is c or not L.breaks and isconst(a):
                    return ite(some(L, c), first(L, c, a), init)
        m = self.accum(L, r, u)
        if m is not None and not L.breaks:
            kind, g, c = m
            mp = self.simp_map(L, g, c)
            if kind == 'add':
                return mk('setof', mp) if init.op == 'set' and not init.a else mk('out', L, k)
            if kind == 'upd':
                return mk('dictof', mp) if init.op == 'dict' and not init.a else mk('out', L, k)
            if kind == 'append':
                if init.op == 'list' and not init.a:
                    return mp
                return mk('bin', '+', init, mp)
            if kind == 'cat':
                return self.cat([init, mk('join', const(''), mp)])
            if kind == '+':
                if isconst(init) and isinstance(init.a[0], str):
                    return self.cat([init, mk('join', const(''), mp)])
                s = mk('sum', mp)
                return self.binop('+', init, s)
        if L.kind == 'for' and not mentions_rec(u, L) and not mentions_pos(u, L):
            # loop-invariant assignment: last value (loop may be empty)
            return u if init.op == 'undef' else mk('lastinv', L, init, u)
        if L.kind == 'for' and not mentions_rec(u, L):
            return mk('last', L, u) if init.op == 'undef' else mk('last', L, u, init)
        return mk('out', L, k)

    def accum(self, L, r, u):
        """recognise append/sum/concat accumulators: -> (kind, element, condition)"""
        if u.op == 'append' and u.a[0] is r and not self.has(u.a[1], r):
            return 'append', u.a[1], TRUE
        if u.op == 'mut' and u.a[0] == 'add' and u.a[1] is r and len(u.a[2]) == 1 and not self.has(u.a[2][0], r):
            return 'add', u.a[2][0], TRUE
        if u.op == 'upd' and u.a[0] is r and not self.has(u.a[1], r) and not self.has(u.a[2], r):
            return 'upd', mk('tuple', u.a[1], u.a[2]), TRUE
        if u.op == 'cat' and u.a and u.a[0] is r and not any(self.has(x, r) for x in u.a[1:]):
            return 'cat', self.cat(list(u.a[1:])), TRUE
        if u.op == 'cat' and u.a and u.a[0].op == 'fv' and u.a[0].a[0] is r and not any(self.has(x, r) for x in u.a[1:]):
            return 'cat', self.cat(list(u.a[1:])), TRUE
        if u.op == 'bin' and u.a[0] == '+':
            if u.a[1] is r and not self.has(u.a[2], r):
                if u.a[2].op == 'list' and len(u.a[2].a) == 1:
                    return 'append', u.a[2].a[0], TRUE
                return '+', u.a[2], TRUE
            if u.a[2] is r and not self.has(u.a[1], r):
                return '+', u.a[1], TRUE
        if u.op == 'ite':
            c, a, b = u.a
            if self.has(c, r):
                return None
            if b is r:
                m = self.accum(L, r, a)
                if m:
                    return m[0], m[1], gand([c, m[2]])
            elif a is r:
                m = self.accum(L, r, b)
                if m:
                    return m[0], m[1], gand([gnot(c), m[2]])
            else:
                m1, m2 = self.accum(L, r, a), self.accum(L, r, b)
                if m1 and m2 and m1[0] == m2[0] and m1[2] is TRUE and m2[2] is TRUE:
                    return m1[0], ite(c, m1[1], m2[1]), TRUE
        return None

    def has(self, t, r):
        return any(s is r for s in subterms([t], r.a[0]))

    def total(self, x):
        if x.op == 'flatmap':
            # a sum over several loops is a sum of sums
            return mk('sum', self.simp_map(x.a[0], self.total(x.a[1]), x.a[2]))
        return mk('sum', x)

    def last_turn(self, op, a, b):
        """questions whether a loop over all positions has come to the last one"""
        for p, q, sign in ((a, b, 1), (b, a, -1)):
            la, lb = linear(p), linear(q)
            ps = [t for t in la if t is not None and t.op == 'pos' and la[t] == 1 and isinstance(t.a[0], Loop) and t.a[0].kind == 'for']
            for t in ps:
                L = t.a[0]
                rest = dict(la)
                for k, v in lb.items():
                    rest[k] = rest.get(k, 0) - v
                for k, v in linear(L.domain).items():
                    rest[k] = rest.get(k, 0) + v
                if rest.pop(t, 0) != 1:
                    continue
                c = rest.pop(None, 0)
                if any(rest.values()) or isconst(L.domain):
                    continue
                # here p - q = position - number + c, with position at most number - 1
                o = op if sign == 1 else {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
                if c <= 0:
                    return const(o in ('<', '<=', '!='))
                if c == 1:
                    if o in ('>', '<='):
                        return const(o == '<=')
                    return mk('cmp', '<' if o in ('<', '!=') else '>=', t, self.binop('-', L.domain, const(1)))
        return None

    def simp_map(self, L, g, c):
        p = mk('pos', L)
        if c is TRUE and g.op == 'idx' and g.a[1] is p and not mentions_pos(g.a[0], L) and L.domain is self.length(g.a[0]):
            return g.a[0]
        if c is TRUE and g is p:
            return mk('range', const(0), L.domain, const(1))
        if c is TRUE and g.op == 'bin' and g.a[0] == '+' and p in g.a[1:]:
            x = g.a[2] if g.a[1] is p else g.a[1]
            if x is not p and not mentions_pos(x, L) and not mentions_rec(x, L) and L.kind == 'for':
                return mk('range', x, self.binop('+', L.domain, x), const(1))
        if c is TRUE and g.op == 'tuple' and len(g.a) == 2 and all(x.op == 'idx' and x.a[1] is const(k) and x.a[0] is g.a[0].a[0] for k, x in enumerate(g.a)):
            e = g.a[0].a[0]
            if e.op == 'idx' and e.a[1] is p and not mentions_pos(e.a[0], L) and L.domain is self.length(e.a[0]):
                return e.a[0]
        if c is TRUE and g.op == 'tuple' and len(g.a) > 1 and all(x.op == 'idx' and x.a[1] is p and not mentions_pos(x.a[0], L) for x in g.a) \
                and L.domain is self.iterate(mk('zip', *[x.a[0] for x in g.a]))[0]:
            return mk('zip', *[x.a[0] for x in g.a])
        # cumulative sum written as a comprehension of partial sums
        if c is TRUE and g.op in ('sum', 'sumall') and g.a[0].op == 'idx' and g.a[0].a[1].op == 'slice':
            lo, hi, stp = g.a[0].a[1].a
            x = g.a[0].a[0]
            if lo is NONE and stp is NONE and hi is self.binop('+', p, const(1)) and L.domain is self.length(x):
                return mk('call', mk('lib', 'numpy.cumsum'), (x,), ())
        # [x for x in A if x in B]
        if c.op == 'cmp' and c.a[0] == 'in' and c.a[1] is g and g.op == 'idx' and g.a[1] is p and not mentions_pos(c.a[2], L):
            return mk('comm', 'intersect', unset(g.a[0]), unset(c.a[2]))
        return mk('map', L, g, c)

    # ---------------------------------------------------------------- expressions
    def cond(self, node, st):
        t = self.expr(node, st)
        return self.truthy(t)

    def truthy(self, t):
        if isconst(t):
            return TRUE if t.a[0] else FALSE
        if t.op in ('list', 'tuple', 'dict', 'set'):
            return TRUE if t.a else FALSE
        if t.op in BOOLISH:
            return t
        if t.op == 'boolor':
            return mk('or', *[self.truthy(x) for x in t.a])
        if t.op == 'booland':
            return mk('and', *[self.truthy(x) for x in t.a])
        if t.op == 'len':
            return self.truthy(t.a[0])
        if t.op == 'call' and t.a[0] is mk('lib', 'numpy.count_nonzero') and len(t.a[1]) == 1 and not t.a[2]:
            return self.truthy(mk('call', mk('lib', 'builtins.any'), t.a[1], ()))
        if t.op == 'map':
            return some(t.a[0], t.a[2])
        if t.op == 'ite' and all(x.op in ('map', 'list') for x in t.a[1:]):
            return ite(t.a[0], self.truthy(t.a[1]), self.truthy(t.a[2]))
        if t.op == 'idx' and t.a[0].op == 'attr' and t.a[0].a[1] in ('xss', 'nxs', 'jxs') and t.a[1].op != 'slice' or t.op == 'fn' and t.a[0] in ('int', 'float'):
            return mk('cmp', '!=', t, const(0))
        if t.op == 'idx' and t.a[1].op == 'slice' and t.a[1].a[1] is NONE and t.a[1].a[2] is NONE and nonneg(t.a[1].a[0]) \
                and t.a[0].op in ('map', 'ite', 'list', 'accum', 'cat'):
            return self.compare('>', self.length(t.a[0]), t.a[1].a[0])
        if t.op == 'bin' and (t.a[0] == '%' and not self.isstr(t.a[1]) or t.a[0] in ('*', '/', '//', '**')) or t.op == 'attr' and t.a[1] == 'returncode':
            return mk('cmp', '!=', t, const(0))
        if t.op == 'bin' and t.a[0] == '-':
            if t.a[1].op == 'setof' or t.a[2].op == 'setof':
                return gnot(self.subset(t.a[1], t.a[2]))
            return mk('cmp', '!=', t, const(0))
        if t.op == 'call' and t.a[0].op == 'lib' and t.a[0].a[0] in ('builtins.any', 'builtins.all') and len(t.a[1]) == 1:
            return t
        return mk('truth', t)

    def subset(self, a, b):
        """every element of a is in b"""
        a, b = unset(a), unset(b)
        dom, el = self.iterate(a)
        L = Loop('for', self.loops[-1] if self.loops else None, dom, 0)
        return gnot(some(L, self.compare('not in', el(mk('pos', L)), b)))

    def expr(self, n, st):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            self.unknown.append(type(n).__name__)
            return mk('unk', ast.dump(n))
        return m(n, st)

    def x_Constant(self, n, st):
        return const(n.value)

    def x_Name(self, n, st):
        return self.name(n.id, st)

    def name(self, name, st):
        if name in st.env:
            return st.env[name]
        fr = self.frames[-1]
        if fr.closure is not None and name in fr.closure:
            return fr.closure[name]
        r = self.repo.resolve(fr.module, name)
        if r is not None:
            return self.wrap(r, name)
        if hasattr(builtins, name):
            v = getattr(builtins, name)
            return mk('lib', 'builtins.' + name)
        return mk('unbound', name)

    def wrap(self, r, name):
        if r is None:
            return mk('unbound', name)
        if isinstance(r, Func):
            return mk('func', NodeBox.of(r))
        if isinstance(r, Class):
            return mk('cls', NodeBox.of(r))
        if isinstance(r, Module):
            return mk('mod', r.name)
        if r[0] == 'lib':
            return mk('lib', LIB_ALIAS.get(r[1], r[1]))
        if r[0] == 'specvar':
            return self.globalof(r[1], r[2])
        return self.globalvar(r[1], r[2])

    def globalvar(self, modname, name):
        m = self.repo.modules.get(modname)
        if m is None:
            return mk('unbound', modname + '.' + name)
        return self.globalof(m, name)

    def globalof(self, m, name):
        v = module_env(self.repo, m, self.known).get(name)
        if v is not None and name not in self.repo.mutated() and (v.op != 'dict' or len(v.a) <= 60) and foldable(v):
            return v
        return mk('glob', m.name + '.' + name)

    def x_Attribute(self, n, st):
        b = self.expr(n.value, st)
        return self.attr(b, n.attr, st)

    def attr(self, b, name, st):
        if b.op == 'mod':
            m = self.repo.modules.get(b.a[0])
            if m is not None:
                r = self.repo.resolve(m, name)
                if r is not None:
                    return self.wrap(r, name)
                if b.a[0] + '.' + name in self.repo.modules:
                    return mk('mod', b.a[0] + '.' + name)
            return mk('unbound', b.a[0] + '.' + name)
        if b.op == 'lib':
            p = b.a[0] + '.' + name
            return mk('lib', LIB_ALIAS.get(p, p))
        b = self.found(b)
        if b.op == 'first':
            return first(b.a[0], b.a[1], self.attr(b.a[2], name, None))
        if b.op == 'ite' and b.a[1].op == 'first' and b.a[2].op == 'first' and (st is None or ('h', b, name) not in st.env):
            return ite(b.a[0], self.attr(b.a[1], name, st), self.attr(b.a[2], name, st))
        k = ('h', b, name)
        if st is not None and k in st.env:
            return st.env[k]
        if b.op == 'cls':
            c = b.a[0].obj
            f = self.lookup(c, name)
            if f is not None:
                return mk('func', NodeBox.of(f), b) if f.classm and f.cls is not c else mk('func', NodeBox.of(f))
            if name in c.attrs:
                return mk('classattr', c.qual, name)
        if b.op == 'param' and b.a[0] in ('self', 'cls') and (self.frames[0].cls or self.frames[-1].cls) is not None:
            c = self.frames[0].cls or self.frames[-1].cls
            g = self.find_getter(c, name)
            if g is not None:
                v = self.trivial_getter(g)
                if v is not None:
                    kk = ('h', b, v)
                    if st is not None and kk in st.env:
                        return st.env[kk]
        if b.op == 'new' and st is not None:
            v = self.given(b, name, st)
            if v is not None:
                return v
        if name == 'ndim':
            return self.length(self.attr(b, 'shape', st))
        if name == 'T':
            if b.op == 'attr' and b.a[1] == 'T':
                return b.a[0]
            return mk('attr', b, 'T')
        return self.after_attr(mk('attr', b, name), name)

    def lookup(self, c, name, skip_self=False):
        mod = self.frames[-1].module
        if getattr(mod, 'spec', False) and not skip_self:
            f = mod.spec_method(c, name)
            if f is not None:
                return f
        return self.repo.method(c, name, skip_self=skip_self)

    def family(self, c):
        f = FAMILY.get(c.qual)
        if f is None:
            f = FAMILY[c.qual] = {c.qual}
            for b in self.repo.bases(c):
                f |= self.family(b)
        return f

    def find_getter(self, c, name):
        if name in c.getters:
            return c.getters[name]
        for b in self.repo.bases(c):
            g = self.find_getter(b, name)
            if g is not None:
                return g
        return None

    def given(self, b, name, st):
        """attribute of an instance just made: what the constructor was given, or what its property works out"""
        c = self.repo.byclass(b.a[0])
        if c is None:
            return None
        slot = name
        g = self.find_getter(c, name)
        if g is not None:
            slot = self.trivial_getter(g) if len([x for x in g.node.body if not isinstance(x, ast.Expr)]) == 1 else None
            if slot is None:
                body = [x for x in g.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and not any(f.func is g for f in self.frames):
                    self.reading += 1
                    try:
                        return self.expand(g, [b], [], st, g.node)
                    finally:
                        self.reading -= 1
                return None
        k = ('h', b, slot)
        if k in st.env:
            return st.env[k]
        init = self.lookup(c, '__init__')
        if init is None:
            return None
        names = [x.arg for x in init.node.args.posonlyargs + init.node.args.args]
        at = None
        for x in init.node.body:
            if isinstance(x, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                if any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr in (name, slot) or isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id in names
                       for y in ast.walk(x)) or any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == 'self' for y in ast.walk(x)):
                    return None
                continue
            if isinstance(x, ast.Assign) and len(x.targets) == 1:
                t = x.targets[0]
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr in (name, slot):
                    if not isinstance(x.value, ast.Name) or x.value.id not in names[1:]:
                        return None
                    if t.attr != slot:
                        s = self.find_setter(c, t.attr)
                        if s is None or not self.plain_setter(s, slot):
                            return None
                    at = names.index(x.value.id)
                    continue
            if any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id in names for y in ast.walk(x)):
                return None
            if any(isinstance(y, ast.Call) and (isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == 'self'
                                                or isinstance(y.func, ast.Name) and y.func.id == 'super') for y in ast.walk(x)):
                return None
        if at is None:
            return None
        kw = dict(b.a[2])
        v = kw.get('a%d' % at)
        if v is None:
            v = self.defaults(init).get(names[at])
        if v is None or not (self.reading and v.op in ('map', 'list', 'tuple')) and v.op not in ('param', 'const', 'pos', 'idx', 'attr', 'bin', 'fn', 'float', 'cat', 'call', 'rcall', 'rd'):
            return None
        r = self.after_attr(mk('attr', b, name), name)
        return v if r.op == 'attr' else None

    def find_setter(self, c, name):
        if name in c.setters:
            return c.setters[name]
        for b in self.repo.bases(c):
            s = self.find_setter(b, name)
            if s is not None:
                return s
        return None

    def plain_setter(self, s, slot):
        """checks, then stores what it was given"""
        a = [x.arg for x in s.node.args.args]
        n = 0
        for x in s.node.body:
            if isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or isinstance(x.value, ast.Call)):
                continue
            if isinstance(x, ast.If) and all(isinstance(y, ast.Expr) and isinstance(y.value, ast.Call) for y in x.body + x.orelse):
                continue
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == slot \
                    and isinstance(x.value, ast.Name) and len(a) == 2 and x.value.id == a[1]:
                n += 1
                continue
            return False
        return n == 1

    def trivial_getter(self, g):
        for s in g.node.body:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Attribute) and isinstance(s.value.value, ast.Name):
                return s.value.attr
        return None

    def x_Subscript(self, n, st):
        b = self.expr(n.value, st)
        i = self.expr(n.slice, st)
        return self.index(self.container(b, '__getitem__', st) or b, i)

    def klass(self, b):
        """class of an object, where it shows"""
        if b.op == 'param' and b.a[0] == 'self':
            return self.frames[0].cls or self.frames[-1].cls
        if b.op == 'new':
            return self.repo.byclass(b.a[0])
        if b.op == 'rcall':
            f = self.repo.byqual(b.a[0])
            if f is not None and f.classm and f.node.name.startswith('from_'):
                return f.cls
        return None

    def container(self, b, how, st):
        """the container an object hands this protocol on to"""
        c = self.klass(b)
        if c is None:
            return None
        sm = getattr(self.repo, 'specs', {}).get(c.module.name)
        f = sm.spec_method(c, how) if sm is not None else None
        if f is None:
            f = self.repo.method(c, how)
        if f is None or any(x.func is not None and x.func.node.name == how for x in self.frames):
            return None
        body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        k = f.node.args.args[1].arg if len(f.node.args.args) > 1 else None

        def own(e):
            return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' else None
        x = body[0]
        slot = None
        if how == '__contains__' and isinstance(x, ast.Return) and isinstance(x.value, ast.Compare) and len(x.value.ops) == 1 and isinstance(x.value.ops[0], ast.In) \
                and isinstance(x.value.left, ast.Name) and x.value.left.id == k:
            slot = own(x.value.comparators[0])
        if how == '__getitem__' and isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and len(x.test.ops) == 1 and isinstance(x.test.ops[0], ast.In) \
                and len(x.body) == 1 and isinstance(x.body[0], ast.Return) and isinstance(x.body[0].value, ast.Subscript) \
                and ast.dump(x.body[0].value.value) == ast.dump(x.test.comparators[0]) and isinstance(x.body[0].value.slice, ast.Name) and x.body[0].value.slice.id == k \
                and isinstance(x.test.left, ast.Name) and x.test.left.id == k \
                and len(x.orelse or body[1:]) == 1 and isinstance((x.orelse or body[1:])[0], ast.Raise):
            slot = own(x.test.comparators[0])
        if how == '__iter__' and len(body) == 1 and isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'iter' and len(x.value.args) == 1:
            e = x.value.args[0]
            vals = isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'values'
            slot = own(e.func.value if vals else e)
            if slot:
                r = self.attr(b, slot, st)
                return mk('dictvalues', r) if vals else r
        if how == '__iter__' and len(body) == 1 and isinstance(x, ast.For) and isinstance(x.target, ast.Name) and len(x.body) == 1 and isinstance(x.body[0], ast.Expr) \
                and isinstance(x.body[0].value, ast.Yield) and isinstance(x.body[0].value.value, ast.Name) and x.body[0].value.value.id == x.target.id:
            slot = own(x.iter)
        return self.attr(b, slot, st) if slot else None

    def x_Slice(self, n, st):
        lo = self.expr(n.lower, st) if n.lower is not None else NONE
        hi = self.expr(n.upper, st) if n.upper is not None else NONE
        sp = self.expr(n.step, st) if n.step is not None else NONE
        return self.slice(lo, hi, sp)

    def slice(self, lo, hi, sp):
        if sp is const(1):
            sp = NONE
        if lo is const(0) and (sp is NONE or isconst(sp) and isinstance(sp.a[0], int) and sp.a[0] > 0):
            lo = NONE
        if sp is const(-1) and lo is const(-1):
            lo = NONE
        return mk('slice', lo, hi, sp)

    def index(self, b, i):
        if i.op == 'tuple' and not i.a:
            return b                      # x[()]
        if i is const(Ellipsis):
            return b
        while b.op == 'mut' and b.a[0] == '.loc' and i.op == 'const' and isinstance(i.a[0], str) and b.a[2][0].op == 'tuple' and len(b.a[2][0].a) == 2:
            # columns a partial store leaves alone
            c = b.a[2][0].a[1]
            c = list(c.a) if c.op in ('tuple', 'list') else [c]
            if not all(x.op == 'const' and isinstance(x.a[0], str) for x in c) or i in c:
                break
            b = b.a[1]
        if b.op in ('list', 'tuple'):
            if i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
                try:
                    return b.a[i.a[0]]
                except IndexError:
                    return mk('raise', 'IndexError')
            if i.op == 'slice':
                try:
                    lo, hi, sp = [pyval(x) for x in i.a]
                    return mk(b.op, *b.a[lo:hi:sp])
                except (ValueError, TypeError):
                    pass
            if i.op == 'const' and isinstance(i.a[0], bool):
                return b.a[int(i.a[0])]
            if len(b.a) == 2 and i.op in BOOLISH:
                return ite(i, b.a[1], b.a[0])
            if i.op == 'tuple' and len(i.a) == 2 and b.op == 'list':
                # rows of a stacked array: [a, b][0, :]
                if i.a[0].op == 'const' and isinstance(i.a[0].a[0], int):
                    return self.index(self.index(b, i.a[0]), i.a[1])
        i = axes(i)
        if i.op == 'const' and type(i.a[0]) is int and i.a[0] < 0:
            w = self.width(b)
            if w is not None and w + i.a[0] >= 0:
                i = const(w + i.a[0])
        if b.op == 'dict' and allconst(i):
            for k, v in b.a:
                if k is i:
                    return v
            for k, v in b.a:
                try:
                    if pyval(k) == pyval(i):
                        return v
                except ValueError:
                    pass
        if b.op == 'dict' and b.a and len(b.a) <= 40 and not allconst(i) and i.op not in ('slice', 'tuple') and all(v.op in ('cls', 'func', 'lfunc') and allconst(k) for k, v in b.a):
            # a table of what to call
            out = mk('raise', 'KeyError')
            for k, v in sorted(b.a, key=lambda x: repr(x[0]), reverse=True):
                out = ite(self.compare('==', i, k), v, out)
            return out
        if b.op == 'upd' and b.a[1] is i:
            return b.a[2]
        if b.op == 'upd' and isconst(b.a[1]) and isconst(i) and b.a[1] is not i:
            return self.index(b.a[0], i)
        if b.op == 'ite' and i.op == 'const' and (b.a[1].op in ('tuple', 'list') or b.a[2].op in ('tuple', 'list') or b.a[1].op == 'map' and b.a[2].op == 'map' and i is const(0)):
            return ite(b.a[0], self.index(b.a[1], i), self.index(b.a[2], i))
        if b.op == 'raise':
            return b
        if b.op == 'dictvalues' and i.op != 'slice':
            return self.index(b.a[0], mk('idx', b.a[0], i))
        if b.op == 'dictitems' and i.op != 'slice':
            k = mk('idx', b.a[0], i)
            return mk('tuple', k, self.index(b.a[0], k))
        if i.op == 'slice' and i.a[2] is NONE and i.a[0].op == 'call' and i.a[0].a[0] is mk('attr', b, 'index') and len(i.a[0].a[1]) == 1:
            # the text just found
            x = i.a[0].a[1][0]
            if i.a[1] is self.binop('+', i.a[0], self.length(x)):
                return x
        if b.op == 'idx' and b.a[1].op == 'slice' and i.op == 'pos' and b.a[1].a[2] is NONE:
            lo = b.a[1].a[0]
            if lo is NONE or isconst(lo) and isinstance(lo.a[0], int) and lo.a[0] >= 0 \
                    or b.a[0].op == 'attr' and not isconst(lo) and b.a[1].a[1] is not NONE and not isconst(b.a[1].a[1]):
                return self.index(b.a[0], i if lo is NONE else self.binop('+', i, lo))
        if i.op == 'slice' and i.a == (NONE, NONE, NONE):
            return b
        if i.op == 'slice' and b.op == 'bin' and b.a[0] in ('+', '-', '*', '/'):
            # part of a multiple of an array
            if scalar(b.a[1]) and not scalar(b.a[2]):
                return self.binop(b.a[0], b.a[1], self.index(b.a[2], i))
            if scalar(b.a[2]) and not scalar(b.a[1]):
                return self.binop(b.a[0], self.index(b.a[1], i), b.a[2])
        if b.op == 'zip' and i.op == 'slice':
            return mk('idx', b, i)
        if b.op == 'attr' and b.a[1] == 'shape' and i is const(0):
            return self.length(b.a[0])
        if b.op == 'attr' and b.a[1] == 'shape' and i is const(1) and filled(b.a[0]) is not None and filled(b.a[0]).op == 'tuple' and len(filled(b.a[0]).a) == 2:
            return filled(b.a[0]).a[1]
        if b.op == 'attr' and b.a[1] == 'shape' and i is const(1) and filled(b.a[0]) is not None and filled(b.a[0]).op == 'attr' and filled(b.a[0]).a[1] == 'shape':
            return self.index(filled(b.a[0]), i)
        if b.op == 'attr' and b.a[1] == 'shape' and i is const(1) and b.a[0].op == 'upd':
            return self.index(mk('attr', self.root(b.a[0]), 'shape'), i)
        if b.op == 'map' and b.a[2] is TRUE and i.op != 'slice' and i.op != 'tuple':
            L, g, c = b.a
            return self.refold(subst_pos(g, L, i), g)
        if b.op == 'map' and b.a[2] is not TRUE and i is const(0):
            return first(b.a[0], b.a[2], b.a[1])
        if b.op == 'const' and isinstance(b.a[0], str) and allconst(i):
            try:
                return const(b.a[0][pyval(i)])
            except Exception:
                pass
        if b.op == 'const' and isinstance(b.a[0], str) and i.op == 'slice':
            try:
                return const(b.a[0][slice(*[pyval(x) for x in i.a])])
            except Exception:
                pass
        if b.op == 'idx' and b.a[1].op == 'slice' and i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool) and i.a[0] >= 0 \
                and b.a[1].a[2] is NONE:
            lo, hi = b.a[1].a[0], b.a[1].a[1]
            if (lo is NONE or isconst(lo) and lo.a[0] >= 0) and (hi is NONE or isconst(hi) and (hi.a[0] > i.a[0] + (0 if lo is NONE else lo.a[0]))):
                return self.index(b.a[0], const(i.a[0] + (0 if lo is NONE else lo.a[0])))
        if b.op == 'idx' and b.a[1].op == 'slice' and i.op == 'const' and type(i.a[0]) is int and i.a[0] >= 0 and b.a[1].a[2] is NONE \
                and b.a[1].a[0] is not NONE and b.a[1].a[1] is not NONE and not isconst(b.a[1].a[0]):
            lo, hi = b.a[1].a[:2]
            n = difference(hi, lo)
            if n is not None and n > i.a[0]:
                return self.index(b.a[0], self.binop('+', lo, i))
        if b.op == 'idx' and i.op == 'slice' and i.a[2] is NONE and all(x is NONE or isconst(x) and type(x.a[0]) is int and x.a[0] >= 0 for x in i.a[:2]):
            sl = b.a[1]
            row = None
            if sl.op == 'tuple' and len(sl.a) == 2 and (sl.a[0].op == 'pos' or sl.a[0].op == 'const' and type(sl.a[0].a[0]) is int):
                row, sl = sl.a
            if sl.op == 'slice' and sl.a[2] is NONE and sl.a[0] is not NONE and sl.a[1] is not NONE and not isconst(sl.a[0]):
                n = difference(sl.a[1], sl.a[0])
                if n is not None and n >= 0 and all(x is NONE or x.a[0] <= n for x in i.a[:2]):
                    # part of a section of known width
                    sl = self.slice(sl.a[0] if i.a[0] is NONE else self.binop('+', sl.a[0], i.a[0]), sl.a[1] if i.a[1] is NONE else self.binop('+', sl.a[0], i.a[1]), NONE)
                    return self.index(b.a[0] if row is None else mk('idx', b.a[0], row), sl)
        if b.op == 'idx' and b.a[1].op == 'tuple' and len(b.a[1].a) == 2 and b.a[1].a[1].op == 'slice' and (i.op == 'pos' or i.op == 'const' and type(i.a[0]) is int and i.a[0] >= 0):
            # an element of part of a row
            r, sl = b.a[1].a
            if r.op == 'pos' or r.op == 'const' and type(r.a[0]) is int:
                whole = mk('idx', mk('idx', b.a[0], r), sl)
                x = self.index(whole, i)
                if x.op != 'idx' or x.a[0] is not whole:
                    return x
        if b.op == 'idx' and b.a[1].op == 'slice' and i.op == 'const' and type(i.a[0]) is int and isconst(b.a[1].a[0]) and type(b.a[1].a[0].a[0]) is int \
                and b.a[1].a[0].a[0] < 0 and b.a[1].a[1] is NONE and b.a[1].a[2] is NONE and b.a[1].a[0].a[0] <= (i.a[0] if i.a[0] < 0 else b.a[1].a[0].a[0]) \
                and i.a[0] < -b.a[1].a[0].a[0]:
            # one of the last few
            return self.index(b.a[0], const(i.a[0] if i.a[0] < 0 else b.a[1].a[0].a[0] + i.a[0]))
        if b.op == 'idx' and b.a[1].op == 'slice' and i.op == 'slice' and b.a[1].a[1] is NONE and b.a[1].a[2] is NONE and i.a[2] is NONE \
                and nonneg(b.a[1].a[0]) and all(x is NONE or nonneg(x) for x in i.a[:2]):
            # a section of the rest
            lo = b.a[1].a[0]
            return self.index(b.a[0], self.slice(lo if i.a[0] is NONE else self.binop('+', lo, i.a[0]), NONE if i.a[1] is NONE else self.binop('+', lo, i.a[1]), NONE))
        # x[i, :][j] and x[i][j] with constant row
        if b.op == 'idx' and (b.a[1].op == 'const' and isinstance(b.a[1].a[0], int) and not isinstance(b.a[1].a[0], bool) or b.a[1].op == 'pos') and i.op == 'slice':
            return mk('idx', b.a[0], mk('tuple', b.a[1], i))
        if b.op == 'idx' and b.a[1].op == 'tuple' and len(b.a[1].a) == 2 and b.a[1].a[0] is mk('slice', NONE, NONE, NONE) and (i.op == 'pos' or i.op == 'const' and type(i.a[0]) is int):
            # a row of some columns
            return self.index(self.index(b.a[0], i), b.a[1].a[1]) if isconst(i) else mk('idx', b.a[0], mk('tuple', i, b.a[1].a[1]))
        return mk('idx', b, i)

    def width(self, t):
        """how many things a function of ours always returns"""
        if t.op == 'rd':
            t = t.a[0]
        f = self.solid.get(t.a[0]) if t.op == 'rcall' else None
        if f is None:
            return None
        ns = set()
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda)) and x is not f.node:
                return None
            if isinstance(x, ast.Return):
                v = x.value
                ns.add(len(v.elts) if isinstance(v, (ast.List, ast.Tuple)) and not any(isinstance(e, ast.Starred) for e in v.elts) else None)
        return ns.pop() if len(ns) == 1 else None

    def refold(self, t, old):
        """positions in sections, now that the position is known"""
        memo = {}

        def go(t):
            if isinstance(t, tuple):
                return tuple(go(x) for x in t)
            if not isinstance(t, T) or t.op in ('map', 'ex', 'first'):
                return t
            r = memo.get(id(t))
            if r is None:
                na = tuple(go(x) for x in t.a)
                if t.op == 'idx' and na[0].op == 'idx' and na[0].a[1].op == 'slice' and isconst(na[1]):
                    r = self.index(*na)
                else:
                    r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
                memo[id(t)] = r
            return r
        return t if t is old else go(t)

    def length(self, x):
        if x.op in ('list', 'tuple', 'set', 'dict'):
            return const(len(x.a))
        if x.op == 'const' and isinstance(x.a[0], (str, bytes)):
            return const(len(x.a[0]))
        if x.op == 'map' and x.a[2] is TRUE:
            return x.a[0].domain
        if x.op in ('dictitems', 'dictvalues', 'reversed', 'sorted', 'enum'):
            return self.length(x.a[0])
        if x.op == 'range':
            a, b, c = x.a
            if c is const(1):
                return self.binop('-', b, a)
            return mk('rangelen', a, b, c)
        if x.op == 'upd':
            return self.length(x.a[0])
        if x.op in ('rec', 'out') and x.a[1] in x.a[0].samelen:
            return self.length(x.a[0].samelen[x.a[1]])
        shp = filled(x)
        if shp is not None and shp.op == 'tuple' and shp.a:
            return shp.a[0]
        if shp is not None and shp.op == 'attr' and shp.a[1] == 'shape':
            return self.length(shp.a[0])
        if shp is not None and (isconst(shp) or shp.op in ('len', 'idx', 'bin')):
            return shp
        if x.op == 'idx' and x.a[1].op == 'slice' and x.a[1].a[2] is NONE:
            lo, hi = x.a[1].a[:2]
            if (lo is NONE or isconst(lo) and isinstance(lo.a[0], int) and lo.a[0] >= 0) and (hi is NONE or isconst(hi) and isinstance(hi.a[0], int) and hi.a[0] < 0):
                return self.binop('+', self.length(x.a[0]), const((hi.a[0] if hi is not NONE else 0) - (lo.a[0] if lo is not NONE else 0)))
            if x.a[0].op == 'attr' and x.a[0].a[1] in ('xss', 'nxs', 'jxs') and lo is not NONE and hi is not NONE and hi.op == 'bin' and hi.a[0] == '+':
                # a section of a table that holds it whole
                more, less = addends(hi), addends(lo)
                if all(less.count(t) <= more.count(t) for t in less if not isconst(t)):
                    for t in less:
                        if not isconst(t):
                            more.remove(t)
                    k = sum(t.a[0] for t in more if isconst(t)) - sum(t.a[0] for t in less if isconst(t))
                    out = None
                    for t in [t for t in more if not isconst(t)] + ([const(k)] if k else []):
                        out = t if out is None else self.binop('+', out, t)
                    return const(0) if out is None else out
            if x.a[0].op == 'attr' and lo is not NONE and hi is not NONE and not isconst(lo) and not isconst(hi):
                # rows from here to there
                return self.binop('-', hi, lo)
        if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'astype':
            return self.length(x.a[0].a[0])
        if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'reshape' and x.a[1] and x.a[1][0].op == 'tuple' and x.a[1][0].a \
                and not (isconst(x.a[1][0].a[0]) and x.a[1][0].a[0].a[0] == -1):
            return x.a[1][0].a[0]
        if x.op == 'idx' and row_of(x.a[1]) is not None and x.a[1].op == 'const':
            y = self.root(x.a[0]) if x.a[0].op == 'upd' else x.a[0]
            if y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] == 'reshape' and y.a[1] and y.a[1][0].op == 'tuple' and len(y.a[1][0].a) == 2:
                return y.a[1][0].a[1]
        return mk('len', x)

    def x_Tuple(self, n, st):
        return self.seq('tuple', n.elts, st)

    def x_List(self, n, st):
        return self.seq('list', n.elts, st)

    def x_Set(self, n, st):
        return self.seq('set', n.elts, st)

    def seq(self, op, elts, st):
        out = []
        rest = None
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.expr(e.value, st)
                its = self.items(v)
                if its is not None:
                    if rest is None:
                        out.extend(its)
                    else:
                        rest = mk('bin', '+', rest, mk(op, *its))
                else:
                    cur = mk(op, *out) if rest is None else (mk('bin', '+', rest, mk(op, *out)) if out else rest)
                    rest = mk('bin', '+', cur, v) if (rest is not None or out) else v
                    out = []
            else:
                out.append(self.expr(e, st))
        if rest is not None:
            return mk('bin', '+', rest, mk(op, *out)) if out else rest
        return mk(op, *out)

    def x_Dict(self, n, st):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.expr(v, st)
                if d.op == 'dict':
                    items.extend(d.a)
                else:
                    items.append((mk('unk', '**'), d))
            else:
                items.append((self.expr(k, st), self.expr(v, st)))
        return mk('dict', *items)

    def x_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.expr(v, st))
        return self.cat(parts)

    def x_FormattedValue(self, n, st):
        spec = ''
        if n.format_spec is not None:
            sp = self.expr(n.format_spec, st)
            spec = sp.a[0] if isconst(sp) else sp
        v = self.expr(n.value, st)
        if n.conversion == 114:
            v = self.lib_call('builtins.repr', [v], [], st, None, False)
        return self.fv(v, spec)

    def fv(self, v, spec):
        if isinstance(spec, T) and spec.op == 'cat' and len(spec.a) == 1 and spec.a[0].op == 'fv' and spec.a[0].a[1] == '':
            spec = spec.a[0].a[0]
        if spec == '' and (v.op == 'cat'):
            return v
        if isinstance(spec, str) and len(spec) == 3 and spec[0] == '0' and spec[1].isdigit() and spec[2] == 'd':
            spec = spec[:2]
        if isconst(v) and isinstance(spec, str):
            try:
                return const(format(v.a[0], spec))
            except Exception:
                pass
        return mk('fv', v, spec)

    def cat(self, parts):
        out = []
        for p in parts:
            if p.op == 'cat':
                out.extend(p.a)
            elif p.op == 'join' and p.a[1].op in ('list', 'tuple') and isconst(p.a[0]):
                for i, x in enumerate(p.a[1].a):
                    if i:
                        out.append(p.a[0])
                    out.append(self.fv(x, ''))
            else:
                out.append(p)
        res = []
        for p in out:
            if isconst(p) and isinstance(p.a[0], str):
                if p.a[0] == '':
                    continue
                if res and isconst(res[-1]) and isinstance(res[-1].a[0], str):
                    res[-1] = const(res[-1].a[0] + p.a[0])
                    continue
            res.append(p)
        if not res:
            return const('')
        if len(res) == 1 and isconst(res[0]) and isinstance(res[0].a[0], str):
            return res[0]
        return mk('cat', *res)

    def x_BoolOp(self, n, st):
        op = 'booland' if isinstance(n.op, ast.And) else 'boolor'
        vs = []
        for v in n.values:
            vs.append(self.expr(v, st))
        if all(v.op in BOOLISH or (isconst(v) and isinstance(v.a[0], bool)) for v in vs):
            return mk('and' if op == 'booland' else 'or', *vs)
        return mk(op, *vs)

    def x_UnaryOp(self, n, st):
        v = self.expr(n.operand, st)
        if isinstance(n.op, ast.Not):
            return gnot(self.truthy(v)) if not isconst(v) else (FALSE if v.a[0] else TRUE)
        if isinstance(n.op, ast.USub):
            if isconst(v) and isinstance(v.a[0], (int, float)):
                return const(-v.a[0])
            return mk('un', '-', v)
        if isinstance(n.op, ast.UAdd):
            return v
        return gnot(v) if v.op in BOOLISH else mk('not', v)

    def x_BinOp(self, n, st):
        return self.binop(_BIN[type(n.op).__name__], self.expr(n.left, st), self.expr(n.right, st))

    def isstr(self, t):
        return (isconst(t) and isinstance(t.a[0], str)) or t.op in ('cat', 'join', 'fv') or \
            (t.op == 'ite' and (self.isstr(t.a[1]) or self.isstr(t.a[2])))

    def binop(self, op, a, b):
        if op == '+' and (self.isstr(a) or self.isstr(b)):
            return self.cat([a, b])
        if op == '%' and isconst(b) and a.op == 'bin' and a.a[0] == '+' and isconst(a.a[2]) and isinstance(a.a[2].a[0], int) and a.a[1].op == 'bin' and a.a[1].a[0] == '%' and a.a[1].a[2] is b:
            return self.binop('%', self.binop('+', a.a[1].a[1], a.a[2]), b)
        if op == '%' and isconst(a) and isinstance(a.a[0], str):
            f = self.percent(a.a[0], b)
            if f is not None:
                return f
        if op == '*' and isconst(b) and isinstance(b.a[0], str):
            a, b = b, a
        if op == '*' and isconst(a) and isinstance(a.a[0], str) and b.op == 'ite':
            return ite(b.a[0], self.binop(op, a, b.a[1]), self.binop(op, a, b.a[2]))
        if op == '*' and isconst(a) and isinstance(a.a[0], str) and b.op == 'len' and b.a[0].op == 'ite':
            return ite(b.a[0].a[0], *(self.binop(op, a, self.length(x)) for x in b.a[0].a[1:]))
        if op == '*' and isconst(a) and isinstance(a.a[0], str) and not isconst(b):
            L = Loop('for', self.loops[-1] if self.loops else None, b, 0)
            return self.cat([mk('join', const(''), mk('map', L, a, TRUE))])
        if allconst(a) and allconst(b):
            x, y = pyval(a), pyval(b)
            try:
                if op == '+':
                    return lift(x + y)
                if op == '-':
                    return lift(x - y)
                if op == '*' and not (isinstance(x, (list, str)) and y > 100000):
                    return lift(x * y)
                if op == '/':
                    return lift(x / y)
                if op == '//':
                    return lift(x // y)
                if op == '%':
                    return lift(x % y)
                if op == '**' and abs(y) < 64:
                    return lift(x ** y)
            except Exception:
                pass
        if op == '+' and a.op in ('list', 'tuple') and b.op == a.op:
            return mk(a.op, *(a.a + b.a))
        if op == '+':
            for p, q in ((a, b), (b, a)):
                if p.op == 'call' and p.a[0] is mk('lib', 'numpy.zeros') and len(p.a[1]) == 1 and not p.a[2] and isconst(q) and isinstance(q.a[0], (int, float)):
                    return self.binop('*', q, mk('call', mk('lib', 'numpy.ones'), p.a[1], ()))
        if op == '+' and isconst(a) and a.a[0] == 0 and not isinstance(a.a[0], (str, bool)):
            return b
        if op in '+-' and isconst(b) and b.a[0] == 0 and not isinstance(b.a[0], (str, bool)):
            return a
        if op == '*' and isconst(a) and a.a[0] == 1:
            return b
        if op in ('*', '/') and isconst(b) and b.a[0] == 1:
            return a
        if op == '+' and isconst(b) and isinstance(b.a[0], (int, float)) and a.op == 'bin' and a.a[0] in '+-' and isconst(a.a[2]) \
                and isinstance(a.a[2].a[0], (int, float)):
            k = a.a[2].a[0] if a.a[0] == '+' else -a.a[2].a[0]
            return self.binop('+', a.a[1], const(k + b.a[0]))
        if op == '-' and a is b:
            return const(0)
        if op == '-' and a.op == 'idx' and b.op == 'idx' and a.a[0] is b.a[0]:
            if a.a[1] is mk('slice', const(1), NONE, NONE) and b.a[1] is mk('slice', NONE, const(-1), NONE):
                return mk('call', mk('lib', 'numpy.diff'), (a.a[0],), ())
        if op == '&' and (a.op == 'setof' or b.op == 'setof' or a.op == 'comm' or b.op == 'comm'):
            return mk('comm', 'intersect', unset(a), unset(b))
        if op in '&|' and a.op in BOOLISH and b.op in BOOLISH:
            return mk('and' if op == '&' else 'or', a, b)
        if op == '*' and self.islist(a) and b.op == 'len':
            return mk('bin', op, a, b)
        return mk('bin', op, a, b)

    def textual(self, t):
        """the value can only be a text"""
        return self.isstr(t) or t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in TEXTUAL \
            or t.op == 'idx' and t.a[1].op == 'slice' and self.textual(t.a[0]) or t.op == 'ite' and self.textual(t.a[1]) and self.textual(t.a[2])

    def islist(self, t):
        return t.op == 'list'

    def percent(self, s, b):
        import re
        parts = re.split(r'(%(?:\([^)]*\))?[-#0 +]*\d*(?:\.\d+)?[sdifeEgGr])', s)
        args = list(b.a) if b.op == 'tuple' else [b]
        out = []
        k = 0
        for p in parts:
            if p.startswith('%') and len(p) > 1:
                if k >= len(args) or '(' in p:
                    return None
                spec = p[1:]
                if spec in ('s', 'd', 'i'):
                    spec = ''
                out.append(self.fv(args[k], spec))
                k += 1
            else:
                out.append(const(p.replace('%%', '%')))
        return self.cat(out)

    def x_Compare(self, n, st):
        left = self.expr(n.left, st)
        out = []
        names = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is', 'IsNot': 'is not',
                 'In': 'in', 'NotIn': 'not in'}
        for op, r in zip(n.ops, n.comparators):
            right = self.expr(r, st)
            if isinstance(op, (ast.In, ast.NotIn)):
                right = self.container(right, '__contains__', st) or right
            out.append(self.compare(names[type(op).__name__], left, right))
            left = right
        return out[0] if len(out) == 1 else mk('and', *out)

    def compare(self, op, a, b):
        if allconst(a) and allconst(b):
            x, y = pyval(a), pyval(b)
            try:
                r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
                     '>=': lambda: x >= y, 'is': lambda: x is y or x == y, 'is not': lambda: not (x is y or x == y),
                     'in': lambda: x in y, 'not in': lambda: x not in y}[op]()
                return const(bool(r))
            except Exception:
                pass
        if op in ('in', 'not in'):
            b = unset(b)
        if op in ('==', '!=') and a.op == b.op == 'tuple' and len(a.a) == len(b.a) and a.a:
            r = mk('and', *[self.compare('==', x, y) for x, y in zip(a.a, b.a)])
            return r if op == '==' else gnot(r)
        # len(x) > 0  <->  truthiness
        for p, q, o in ((a, b, op), (b, a, {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op))):
            if p.op == 'call' and p.a[0] is mk('lib', 'numpy.count_nonzero') and len(p.a[1]) == 1 and not p.a[2] and isconst(q):
                v = q.a[0]
                if (o, v) in (('>', 0), ('>=', 1), ('!=', 0)):
                    return self.truthy(p)
                if (o, v) in (('==', 0), ('<', 1), ('<=', 0)):
                    return gnot(self.truthy(p))
        for p, q, o in ((a, b, op), (b, a, {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op))):
            if p.op == 'len' and isconst(q):
                v = q.a[0]
                if (o, v) in (('>', 0), ('>=', 1), ('!=', 0)):
                    return self.truthy(p.a[0])
                if (o, v) in (('==', 0), ('<', 1), ('<=', 0)):
                    return gnot(self.truthy(p.a[0]))
        for p, q in ((a, b), (b, a)):
            if isconst(q) and p.op == 'call' and p.a[0].op == 'attr' and p.a[0].a[1] == 'find' and len(p.a[1]) == 1:
                o = op if p is a else {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
                if (o, q.a[0]) in (('==', -1), ('<', 0), ('<=', -1)):
                    return self.compare('not in', p.a[1][0], p.a[0].a[0])
                if (o, q.a[0]) in (('!=', -1), ('>=', 0), ('>', -1)):
                    return self.compare('in', p.a[1][0], p.a[0].a[0])
            if isconst(q) and isinstance(q.a[0], str) and q.a[0] and op in ('==', '!=') and p.op == 'idx' and p.a[1].op == 'slice' and p.a[1].a[2] is NONE:
                lo, hi, n = p.a[1].a[0], p.a[1].a[1], len(q.a[0])
                m = 'startswith' if lo is NONE and hi is const(n) else 'endswith' if lo is const(-n) and hi is NONE else None
                if m:
                    r = self.truthy(mk('call', mk('attr', p.a[0], m), (q,), ()))
                    return r if op == '==' else gnot(r)
            # counters modulo N
            if isconst(q) and isinstance(q.a[0], int) and p.op == 'bin' and p.a[0] == '%' and p.a[2].op == 'const' and isinstance(p.a[2].a[0], int) and p is a:
                n = p.a[2].a[0]
                if n > 0 and (op == '<' and q.a[0] >= n or op == '>=' and q.a[0] <= 0 or op == '<=' and q.a[0] >= n - 1):
                    return TRUE
                if n > 1 and op in ('==', '!=', '>=') and q.a[0] == n - 1:
                    return mk('cmp', '!=' if op == '!=' else '==', mk('bin', '%', self.binop('+', p.a[1], const(1)), p.a[2]), const(0))
            if isconst(q) and isinstance(q.a[0], int) and p.op == 'bin' and p.a[0] == '+' and p.a[2] is const(1) and p.a[1].op == 'bin' and p.a[1].a[0] == '%' \
                    and p.a[1].a[2] is q and op in ('==', '!=', '>=') and p is a:
                return mk('cmp', '!=' if op == '!=' else '==', mk('bin', '%', self.binop('+', p.a[1].a[1], const(1)), q), const(0))
        if op in ('==', '!=', '<', '<=', '>', '>=') and (a.op in ('pos', 'bin') or b.op in ('pos', 'bin')):
            r = self.last_turn(op, a, b)
            if r is not None:
                return r
        if b is NONE and op in ('is', 'is not', '==', '!=') and self.found(a) is not a:
            L, c, v = a.a[1].a
            if v.op in ('tuple', 'list', 'new') or any(x.op in ('attr', 'idx') and x.a[0] is v for x in subterms([c])):
                return a.a[0] if op in ('is not', '!=') else gnot(a.a[0])
        if op in ('==', '!='):
            for p, q in ((a, b), (b, a)):
                if q is const('') and self.textual(p):
                    return self.truthy(p) if op == '!=' else gnot(self.truthy(p))
        if b is NONE and op in ('is', 'is not') and self.something(a):
            return const(op == 'is not')
        if b is NONE and op in ('is', 'is not') and a.op == 'ite' and any(x is NONE or self.something(x) for x in a.a[1:]):
            return ite(a.a[0], self.compare(op, a.a[1], b), self.compare(op, a.a[2], b))
        # bool == True
        if isconst(b) and isinstance(b.a[0], bool) and op in ('==', 'is', '!=', 'is not') and a.op in BOOLISH:
            pos = (op in ('==', 'is')) == b.a[0]
            return a if pos else gnot(a)
        return mk('cmp', op, a, b)

    def x_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if isconst(c):
            return self.expr(n.body if c.a[0] else n.orelse, st)
        a = st.fork()
        a.guards.append(c)
        b = st.fork()
        b.guards.append(gnot(c))
        x = self.expr(n.body, a)
        y = self.expr(n.orelse, b)
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            if isinstance(k, tuple) and k[0] != 'fr':
                p = a.env.get(k, self.heap_default(k))
                q = b.env.get(k, self.heap_default(k))
                st.env[k] = ite(c, p, q)
        return ite(c, x, y)

    def x_NamedExpr(self, n, st):
        v = self.expr(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def x_Lambda(self, n, st):
        fr = self.frames[-1]
        node = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n)], decorator_list=[],
                               returns=None)
        node.lineno = n.lineno
        f = Func((fr.func.qual if fr.func else fr.module.name) + '.<lambda>', node, fr.module, None)
        f.closure_env = st.env
        f.nested = True
        f.cls_ctx = fr.cls
        return mk('lfunc', NodeBox(f))

    def x_Starred(self, n, st):
        return mk('star', self.expr(n.value, st))

    def x_Yield(self, n, st):
        v = self.expr(n.value, st) if n.value is not None else NONE
        self.effect(st, 'yield', (v,), n)
        return mk('unk', 'yield')

    def x_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def x_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def x_SetComp(self, n, st):
        r = self.comp(n, st, 'set')
        if r.op in ('list',):
            return mk('set', *dict.fromkeys(r.a))
        return mk('setof', r)

    def x_DictComp(self, n, st):
        r = self.comp(n, st, 'dict')
        if r.op == 'list' and all(x.op == 'tuple' for x in r.a):
            return mk('dict', *[(x.a[0], x.a[1]) for x in r.a])
        return mk('dictof', r)

    def comp(self, n, st, kind):
        def elt(s2):
            if kind == 'dict':
                return mk('tuple', self.expr(n.key, s2), self.expr(n.value, s2))
            return self.expr(n.elt, s2)

        def rec(gens, s2):
            if not gens:
                return elt(s2)
            it = self.expr(gens[0].iter, s2)
            it = self.container(it, '__iter__', s2) or it
            if it.op == 'ite' and len(gens) == 1 and kind != 'dict' and (self.nothing(it.a[1]) or self.nothing(it.a[2])):
                # everything or nothing
                c, x = (gnot(it.a[0]), it.a[2]) if self.nothing(it.a[1]) else it.a[:2]
                s3 = s2.fork()
                s3.guards.append(c)
                return ite(c, over(gens, x, s3), mk('list'))
            return over(gens, it, s2)

        def over(gens, it, s2):
            g = gens[0]
            its = self.items(it)
            if its is not None and len(its) <= 3000 and (allconst(it) or it.op == 'range' or len(its) <= 8):
                out = []
                ok = True
                ne = len(self.effects)
                for x in its:
                    s3 = s2.fork()
                    self.assign(g.target, x, s3, n)
                    keep = TRUE
                    for c in g.ifs:
                        cc = self.cond(c, s3)
                        if not isconst(cc):
                            ok = False
                            break
                        if cc is FALSE:
                            keep = FALSE
                    if not ok:
                        break
                    if keep is TRUE:
                        v = rec(gens[1:], s3)
                        if len(gens) > 1:
                            if v.op != 'list':
                                ok = False
                                break
                            out.extend(v.a)
                        else:
                            out.append(v)
                if ok and len(self.effects) == ne:
                    return mk('list', *out)
                del self.effects[ne:]
            dom, el = self.iterate(it)
            L = Loop('for', self.loops[-1] if self.loops else None, dom, n.lineno)
            self.loops.append(L)
            s3 = s2.fork()
            conds = []
            if it.op == 'map' and it.a[2] is not TRUE:
                dom, el, c = self.filtered(it)
                L.domain = dom
                conds.append(c(mk('pos', L)))
                s3.guards.append(conds[0])
            self.assign(g.target, el(mk('pos', L)), s3, n)
            for c in g.ifs:
                cc = self.cond(c, s3)
                conds.append(cc)
                s3.guards.append(cc)
            v = rec(gens[1:], s3)
            for k, x in s3.env.items():
                if isinstance(k, tuple) and k[0] == 'io':
                    s2.env[k] = x
            self.loops.pop()
            if len(gens) > 1:
                return mk('flatmap', L, v, gand(conds))
            return self.simp_map(L, v, gand(conds))
        ne = len(self.effects)
        self.made[id(n)] = n
        s0 = _CompState(st)
        r = rec(n.generators, s0)
        if kind == 'list' and (r.op == 'flatmap' or len(self.effects) > ne):
            del self.effects[ne:]
            return self.comp_loop(n, st)
        for k, x in s0.env.items():
            if isinstance(k, tuple) and st.env.get(k) is not x:
                st.env[k] = x
        return r

    def comp_loop(self, n, st):
        """a comprehension with effects or several generators, as the loop it abbreviates"""
        acc = '$acc'
        body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[n.elt], keywords=[]))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[], type_comment=None)]
        loop = ast.copy_location(body[0], n)
        ast.fix_missing_locations(loop)
        s2 = _CompState(st)
        s2.env[acc] = mk('list')
        self.stmt(loop, s2)
        for k, x in s2.env.items():
            if isinstance(k, tuple):
                st.env[k] = x
        return s2.env[acc]

    # ---------------------------------------------------------------- calls
    def x_Call(self, n, st):
        return self.call(n, st)

    def args(self, n, st):
        pos, kw = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st)
                its = self.items(v)
                f = self.repo.byqual(v.a[0]) if v.op == 'rcall' else None
                if its is None and f is not None and self.values(f):
                    its = [self.index(v, const(i)) for i in range(self.values(f))]
                if its is None and v.op == 'idx':
                    # a section of known width
                    sl = v.a[1].a[-1] if v.a[1].op == 'tuple' and len(v.a[1].a) == 2 else v.a[1]
                    if sl.op == 'slice' and sl.a[2] is NONE and sl.a[1] is not NONE:
                        lo = const(0) if sl.a[0] is NONE else sl.a[0]
                        w = difference(sl.a[1], lo)
                        if type(w) is int and 0 < w <= 8 and (nonneg(lo) or not isconst(lo)):
                            its = [self.index(v, const(i)) for i in range(w)]
                if its is not None:
                    pos.extend(its)
                else:
                    pos.append(mk('star', v))
            else:
                pos.append(self.expr(a, st))
        for k in n.keywords:
            v = self.expr(k.value, st)
            if k.arg is None and v.op == 'dict' and all(isconst(x[0]) for x in v.a):
                for kk, vv in v.a:
                    kw.append((kk.a[0], vv))
            else:
                kw.append((k.arg or '**', v))
        return pos, kw

    def call(self, n, st, stmt=False):
        f = n.func
        # super().x(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            c = self.frames[-1].cls
            m = self.lookup(c, f.attr, skip_self=True) if c is not None else None
            pos, kw = self.args(n, st)
            selfv = mk('param', 'self')
            for nm in ('self', 'cls'):
                if nm in st.env:
                    selfv = st.env[nm]
            if m is not None:
                return self.repo_call(m, [selfv] + pos, kw, st, n, stmt, force=True)
            return mk('call', mk('attr', mk('unk', 'super'), f.attr), tuple(pos), tuple(sorted(kw, key=lambda x: x[0])))
        if isinstance(f, ast.Attribute):
            b = self.expr(f.value, st)
            if b.op == 'ite' and self.chosen(b):
                pos, kw = self.args(n, st)
                return self.apply(self.choose(b, f.attr, st), pos, kw, st, n, stmt)
            if b.op not in ('mod', 'lib', 'cls'):
                return self.method_call(n, f, b, st, stmt)
            fn = self.attr(b, f.attr, st)
        else:
            fn = self.expr(f, st)
        if fn.op == 'lib' and fn.a[0] in ('builtins.locals', 'builtins.vars') and not n.args:
            return mk('dict', *[(const(k), v) for k, v in st.env.items() if isinstance(k, str)])
        pos, kw = self.args(n, st)
        return self.apply(fn, pos, kw, st, n, stmt)

    def chosen(self, b):
        """one of several classes"""
        xs = [b]
        some_ = False
        while xs:
            x = xs.pop()
            if x.op == 'ite':
                xs += x.a[1:]
            elif x.op == 'cls':
                some_ = True
            elif x is not NONE and x.op != 'raise':
                return False
        return some_

    def choose(self, b, name, st):
        if b.op == 'ite':
            return ite(b.a[0], self.choose(b.a[1], name, st), self.choose(b.a[2], name, st))
        return self.attr(b, name, st) if b.op == 'cls' else b

    def lam(self, t, st):
        """a local function used as a value: its body over bound variables"""
        if t.op != 'lfunc':
            return t
        f = t.a[0].obj
        a = f.node.args
        if a.vararg or a.kwarg or len(self.frames) >= self.max_depth or any(fr.func is not None and fr.func.node is f.node for fr in self.frames):
            return t
        names = [x.arg for x in a.posonlyargs + a.args]
        depth = sum(1 for fr in self.frames if getattr(fr, 'bound', False))
        ne = len(self.effects)
        s2 = st.fork()
        nr = len(self.frames[-1].rets)
        nx = len(self.frames[-1].raises)
        vals = []
        dfl = self.defaults(f)
        for i, x in enumerate(names):
            vals.append(mk('bound', depth, i))
        v = self.expand(f, vals, [], s2, None)
        del self.effects[ne:]
        del self.frames[-1].rets[nr:]
        del self.frames[-1].raises[nx:]
        if v is None:
            return t
        return mk('lambda', len(names), tuple(dfl.get(x, mk('nodefault', 0)) for x in names), v)

    def apply(self, fn, pos, kw, st, n, stmt=False):
        if fn.op in ('lib', 'attr', 'cls', 'func') and any(v.op == 'lfunc' for v in pos):
            if not (fn.op == 'lib' and fn.a[0] in ('builtins.map', 'builtins.filter')) and not (fn.op == 'func'):
                pos = [self.lam(v, st) for v in pos]
        if fn.op == 'lib' and any(v.op == 'lfunc' for k, v in kw):
            kw = [(k, self.lam(v, st)) for k, v in kw]
        if fn is NONE:
            return mk('raise', 'AttributeError')
        if fn.op == 'raise':
            return fn
        if fn.op == 'ite' and any(x.op in ('func', 'lfunc', 'lib', 'cls') for x in leaves(fn)):
            c = fn.a[0]
            ng = len(st.guards)
            a = st.fork()
            a.guards.append(c)
            b = st.fork()
            b.guards.append(gnot(c))
            x = self.apply(fn.a[1], pos, kw, a, n, stmt)
            y = self.apply(fn.a[2], pos, kw, b, n, stmt)
            self.join(st, c, a, b, ng)
            return ite(c, x, y)
        if fn.op == 'func':
            f = fn.a[0].obj
            if f.classm:
                pos = [fn.a[1] if len(fn.a) > 1 else mk('cls', NodeBox.of(f.cls))] + pos
            return self.repo_call(f, pos, kw, st, n, stmt)
        if fn.op == 'lfunc':
            return self.expand(fn.a[0].obj, pos, kw, st, n)
        if fn.op == 'cls':
            return self.new(fn.a[0].obj, pos, kw, st, n, stmt)
        if fn.op == 'param' and fn.a[0] == 'cls' and (self.frames[0].cls or self.frames[-1].cls) is not None:
            return self.new(self.frames[0].cls or self.frames[-1].cls, pos, kw, st, n, stmt)
        if fn.op == 'lib':
            return self.lib_call(fn.a[0], pos, kw, st, n, stmt)
        if fn.op == 'attr':
            # a bound method held in a variable
            return self.method_apply(n, None, fn.a[0], fn.a[1], pos, kw, st, stmt)
        t = mk('call', fn, tuple(pos), tuple(sorted(kw, key=lambda x: x[0])))
        return self.stateful(t, [fn] + pos, st, n, stmt)

    def new(self, c, pos, kw, st, n, stmt):
        init = self.repo.method(c, '__init__')
        if init is not None:
            b = self.bind(init, [mk('unk', 'self')] + pos, kw)
            if b is not None:
                dflt = self.defaults(init)
                SIGNATURES[c.qual] = ({'a%d' % i: dflt[k] for i, (k, v) in enumerate(b) if k in dflt}, 0)
                return self.tagged(mk('new', c.qual, (), tuple(('a%d' % i, v) for i, (k, v) in enumerate(b)
                                                               if i and not (k in dflt and dflt[k] is v))), n)
        return self.tagged(mk('new', c.qual, tuple(pos), tuple(sorted(kw, key=lambda x: x[0]))), n)

    def tagged(self, t, n):
        """instances made by equal calls at different places kept apart (only when asked to)"""
        if self.tags is None:
            return t
        site = (id(n),) + tuple(id(f.func.node) for f in self.frames if f.func is not None)
        if self.tags is SITES:
            k = self.sites.setdefault(site, (t, len(self.sites)))[1]
        else:
            k = self.tags.get(site)
            if k is None:
                return t
        return mk('new', t.a[0], t.a[1], t.a[2] + (('@', const(k)),))

    def histories(self):
        """site -> what this function does to the instances made there (by name)"""
        use = {k: set() for t, k in self.sites.values()}
        for e in self.effects:
            if e.kind == 'setattr':
                w, ts = [e.payload[1].a[0]], [e.payload[0]]
            elif e.kind in ('setitem', 'mutate', 'del'):
                w, ts = [e.kind], [e.payload[0]]
            elif e.kind == 'call' and e.payload[0].op == 'rcall':
                w, ts = [e.payload[0].a[0]], list(e.payload[0].a[1]) + [v for k, v in e.payload[0].a[2]]
            else:
                continue
            for r in roots(ts):
                k = tag_of(r)
                if k is not None:
                    use[k].update(w)
        return {site: (t, '|'.join(sorted(use[k]))) for site, (t, k) in self.sites.items()}

    def bind(self, f, pos, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg or any(p.op == 'star' for p in pos) or any(k == '**' for k, v in kw):
            if any(p.op == 'star' for p in pos) or any(k == '**' for k, v in kw):
                return None
        if len(pos) > len(names) and not a.vararg:
            return None
        out = {}
        for nme, v in zip(names, pos):
            out[nme] = v
        extra = pos[len(names):]
        ekw = []
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kw:
            if k in allowed:
                out[k] = v
            elif a.kwarg:
                ekw.append((k, v))
            else:
                return None
        dn = names[len(names) - len(a.defaults):]
        save = self.frames
        for nme, d in zip(dn, a.defaults):
            if nme not in out:
                out[nme] = self.default(f, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.default(f, d)
        res = []
        for nme in names + [x.arg for x in a.kwonlyargs]:
            if nme not in out:
                return None
            res.append((nme, out[nme]))
        if a.vararg:
            res.append((a.vararg.arg, mk('tuple', *extra)))
        if a.kwarg:
            res.append((a.kwarg.arg, mk('dict', *[(const(k), v) for k, v in sorted(ekw, key=lambda x: x[0])])))
        return res

    def default(self, f, d):
        fr = Frame(f, f.module, f.cls)
        self.frames.append(fr)
        try:
            return self.expr(d, State())
        finally:
            self.frames.pop()

    def should_inline(self, f):
        q = f.qual
        name = f.node.name
        if q in self.opaque or name in self.opaque:
            return False
        if q in self.inline or name in self.inline:
            return True
        if name.startswith('_') and not name.startswith('__'):
            return True
        if self.known is not None and q not in self.known:
            return True
        return False

    def repo_call(self, f, pos, kw, st, n, stmt, force=False):
        depth = len(self.frames)
        rec = any(fr.func is not None and fr.func.node is f.node for fr in self.frames)
        if not rec and depth < self.max_depth and self.should_inline(f):
            r = self.expand(f, pos, kw, st, n)
            if r is not None:
                return r
        t = self.rcall(f, pos, kw)
        if f.node.name == 'check_value' and len(pos) == 3 and not kw and allconst(pos[2]) and self.items(pos[2]):
            self.sure.append((tuple(st.guards), pos[1], self.items(pos[2])))
        r = self.stateful(t, pos + [v for k, v in kw], st, n, stmt or f.node.name in EFFECTS)
        return self.after(r, self.repo.modref(f)[0])

    def rcall(self, f, pos, kw):
        """call of a function kept symbolic: arguments by position, defaults left out"""
        b = self.bind(f, pos, kw)
        if b is None:
            return mk('rcall', f.qual, tuple(pos), tuple(sorted(kw, key=lambda x: x[0])))
        dflt = self.defaults(f)
        out = []
        for i, (k, v) in enumerate(b):
            if k in dflt and dflt[k] is v:
                continue
            out.append(('a%d' % i, v))
        self.solid[f.qual] = f
        SIGNATURES[f.qual] = ({'a%d' % i: dflt[k] for i, (k, v) in enumerate(b) if k in dflt}, self.values(f))
        return mk('rcall', f.qual, (), tuple(out))

    def something(self, t):
        """the value is certainly not None"""
        if t.op in ('list', 'tuple', 'set', 'dict', 'cat', 'map', 'setof', 'new', 'cls', 'func', 'lfunc'):
            return True
        if t.op == 'const':
            return t is not NONE
        if t.op == 'after':
            return self.something(t.a[0])
        if t.op == 'idx':
            return t.a[0] is mk('attr', mk('lib', 'os'), 'environ') or t.a[0] is mk('lib', 'os.environ')
        return t.op == 'rcall' and t.a[0] in self.solid and self.never_none(self.solid[t.a[0]])

    def never_none(self, f, seen=()):
        """every return of the function hands out an object it makes"""
        r = getattr(f, '_solid', None)
        if r is None:
            binds, rets, bad = {}, [], set()
            todo = list(f.node.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    rets.append(None)
                if isinstance(x, ast.Return):
                    rets.append(x.value)
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                if y is t:
                                    binds.setdefault(y.id, []).append(x.value)
                                else:
                                    bad.add(y.id)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in binds:
                    bad.add(x.id)
                if isinstance(x, ast.Assign):
                    todo.append(x.value)
                else:
                    todo.extend(ast.iter_child_nodes(x))

            def ends(b):
                z = b[-1]
                return isinstance(z, (ast.Return, ast.Raise)) or isinstance(z, ast.If) and z.orelse and ends(z.body) and ends(z.orelse) \
                    or isinstance(z, ast.With) and ends(z.body)

            def made(v, seen=()):
                if isinstance(v, (ast.BinOp, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Tuple, ast.JoinedStr)):
                    return True
                if isinstance(v, ast.Name):
                    return v.id not in bad and v.id not in seen and v.id in binds and all(made(y, seen + (v.id,)) for y in binds[v.id])
                if isinstance(v, ast.IfExp):
                    return made(v.body, seen) and made(v.orelse, seen)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                    m = f.module if isinstance(f.module, Module) else self.repo.modules.get(f.module)
                    return v.func.id == 'cls' and f.classm or m is not None and (v.func.id in m.classes or v.func.id[:1].isupper() and v.func.id in m.imports)
                return False
            r = f._solid = bool(ends(f.node.body) and rets and all(v is not None and made(v) for v in rets))
        return r

    def values(self, f):
        """number of values a function returns together, 0 when that is not plain"""
        r = getattr(f, '_values', None)
        if r is None:
            ns = set()
            todo = list(f.node.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    ns.add(0)
                if isinstance(x, ast.Return):
                    v = x.value
                    ns.add(len(v.elts) if isinstance(v, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in v.elts) else 0)
                todo.extend(ast.iter_child_nodes(x))
            r = f._values = ns.pop() if len(ns) == 1 else 0
        return r

    def after(self, t, reads):
        """value of a call that may observe earlier writes of this function (attribute-name mod/ref sets)"""
        dep = []
        for e in self.effects:
            if e.kind == 'setattr':
                w = (e.payload[1].a[0],)
            elif e.kind in ('setitem', 'mutate') and e.payload[0].op == 'attr':
                w = (e.payload[0].a[1],)
            elif e.kind == 'call' and e.payload[0].op == 'rcall' and e.payload[0] is not t:
                f = self.repo.byqual(e.payload[0].a[0])
                w = self.repo.modref(f)[1] if f is not None else ()
            else:
                continue
            if any(x in reads for x in w):
                if self.tags is not None and self.apart(e, t):
                    continue
                dep.append(e.term())
        return mk('after', t, tuple(dep)) if dep else t

    def apart(self, e, t):
        """the effect and the read concern different instances"""
        p = e.payload[0]
        a = roots(list(p.a[1]) + [v for k, v in p.a[2]] if p.op == 'rcall' else [p])
        b = roots(list(t.a[1]) + [v for k, v in t.a[2]] if t.op == 'rcall' else [t])
        return bool(a) and bool(b) and not a & b

    def after_attr(self, t, name):
        dep = []
        for e in self.effects:
            if self.tags is not None and self.apart(e, t):
                continue
            if e.kind == 'call' and e.payload[0].op == 'rcall':
                f = self.repo.byqual(e.payload[0].a[0])
                if f is not None and name in self.repo.modref(f)[1]:
                    dep.append(e.term())
        return mk('after', t, tuple(dep)) if dep else t

    def defaults(self, f):
        d = getattr(f, '_defaults', None)
        if d is None:
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            d = {}
            for nme, x in zip(names[len(names) - len(a.defaults):], a.defaults):
                d[nme] = self.default(f, x)
            for x, v in zip(a.kwonlyargs, a.kw_defaults):
                if v is not None:
                    d[x.arg] = self.default(f, v)
            if a.vararg:
                d[a.vararg.arg] = mk('tuple')
            if a.kwarg:
                d[a.kwarg.arg] = mk('dict')
            f._defaults = d
        return d

    def expand(self, f, pos, kw, st, n):
        b = self.bind(f, pos, kw)
        if b is None:
            return mk('call', mk('func', NodeBox.of(f)), tuple(pos), tuple(sorted(kw, key=lambda x: x[0])))
        self.inlined.append(f.qual)
        fr = Frame(f, f.module, getattr(f, 'cls_ctx', None) or f.cls)
        if getattr(f, 'nested', False):
            fr.closure = _Chain(f.closure_env, self.frames[-1].closure)
        env = {k: v for k, v in b}
        for k, v in st.env.items():
            if isinstance(k, tuple):
                env[k] = v
        s2 = State(env, list(st.guards))
        ng = len(st.guards)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node) if not isinstance(x, ast.Lambda))
        ne = len(self.effects)
        self.frames.append(fr)
        self.block(f.node.body, s2)
        self.frames.pop()
        if isgen:
            ys = [e for e in self.effects[ne:] if e.kind == 'yield']
            if len(ys) == 1 and len(ys[0].loops) == len(self.loops) + 1:
                y = ys[0]
                self.effects.remove(y)
                L = y.loops[-1]
                return self.simp_map(L, y.payload[0], gand(list(y.guards[ng:])))
            return mk('unk', 'generator:' + f.qual)
        # exits
        rets = [(g, v) for g, v in fr.rets if v.op != 'raise']
        out = NONE if not s2.dead else None
        for g, v in reversed(rets):
            c = gand(g[ng:])
            out = v if out is None else ite(c, v, out)
        if out is None:
            out = NONE
        # what was changed before an early return stays changed, what follows it did not happen
        if fr.ends:
            end = None if s2.dead else s2.env
            for g, env in reversed(fr.ends):
                if end is None:
                    end = env
                else:
                    a, b2 = State(env), State(end)
                    x = State({}, [])
                    self.join(x, gand(g[ng:]), a, b2, 0)
                    end = x.env
            s2.env = end
        # heap changes
        for k, v in s2.env.items():
            if isinstance(k, tuple):
                st.env[k] = v
        # mutated arguments
        nodes = {}
        if isinstance(n, ast.Call):
            off = len(pos) - len(n.args)
            pn = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            for j, an in enumerate(n.args):
                if 0 <= j + off < len(pn):
                    nodes[pn[j + off]] = an
            for kwn in n.keywords:
                if kwn.arg:
                    nodes[kwn.arg] = kwn.value
        for (pname, old) in b:
            new = s2.env.get(pname)
            if new is not None and new is not old and self.is_mutation(f, pname):
                self.rebind(old, new, st)
                an = nodes.get(pname)
                if isinstance(an, ast.Name) and an.id in st.env:
                    st.env[an.id] = new
                elif isinstance(an, ast.Attribute):
                    st.env[('h', self.again(an.value, st), an.attr)] = new
        for g in fr.raises:
            st.guards.append(gnot(gand(g[ng:])))
            if self.frames:
                cf = self.frames[-1]
                if not cf.loopctx:
                    cf.raises.append(tuple(g))
        for g, v in fr.rets:
            if v.op == 'raise':
                self.frames[-1].rets.append((g, v))
        if s2.dead and not rets:
            st.dead = True
        return out

    def is_mutation(self, f, pname):
        """is the parameter object itself modified (rather than the name rebound)?"""
        reb = False
        mut = False
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id == pname and isinstance(x.ctx, ast.Store):
                reb = True
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == pname:
                mut = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                    x.func.value.id == pname and x.func.attr in MUTATORS:
                mut = True
        return mut and not reb

    # -- stateful streams
    def is_stream(self, t, st):
        if ('io', t) in st.env:
            return True
        if t.op == 'param' and t.a[0] in STREAMS:
            return True
        if t.op == 'call' and t.a[0].op == 'lib' and t.a[0].a[0] in ('builtins.open', 'io.StringIO', 'h5py.File'):
            return t.a[0].a[0] != 'h5py.File'
        return False

    def stateful(self, t, parts, st, n, stmt):
        """calls that consume or advance a stream get a version; effects are recorded"""
        for p in parts:
            if p.op == 'attr':
                p = p.a[0]
            if self.is_stream(p, st):
                k = ('io', p)
                ver = st.env.get(k, const(0))
                r = mk('rd', t, ver)
                st.env[k] = mk('ver', t, ver)
                self.effect(st, 'call', (t,), n)
                return r
        if (stmt and not self.is_pure(t)) or self.is_effect(t):
            self.effect(st, 'call', (t,), n)
        return t

    def is_pure(self, t):
        if t.op == 'call' and t.a[0].op == 'lib':
            p = t.a[0].a[0]
            return (p.startswith('builtins.') and p.split('.')[1] not in ('open', 'exec', 'eval', 'exit', 'setattr', 'delattr', 'next')) or \
                (p.startswith('numpy.') and p not in EFFECT_FUNCS and not p.startswith('numpy.random')) or p.startswith('os.path.') or \
                p.startswith('time.') or p.startswith('matplotlib.')
        return False

    def is_effect(self, t):
        if t.op == 'call':
            f = t.a[0]
            if f.op == 'attr' and f.a[1] in EFFECTS:
                return True
            if f.op == 'lib' and f.a[0] in EFFECT_FUNCS:
                return True
        return False

    def method_call(self, n, f, b, st, stmt):
        name = f.attr
        pos, kw = self.args(n, st)
        return self.method_apply(n, f.value, b, name, pos, kw, st, stmt)

    def method_apply(self, n, tgt, b, name, pos, kw, st, stmt):
        if any(v.op == 'lfunc' for v in pos) or any(v.op == 'lfunc' for k, v in kw):
            pos = [self.lam(v, st) for v in pos]
            kw = [(k, self.lam(v, st)) for k, v in kw]
        b = self.found(b)
        if b.op == 'first' and tgt is not None:
            # a method of the element found: called at the turn that finds it
            L, cond, v = b.a
            self.loops.append(L)
            s2 = st.fork()
            s2.guards.append(cond)
            r = self.method_apply(n, None, v, name, pos, kw, s2, stmt)
            self.loops.pop()
            return first(L, cond, r)
        # repository method on self / known object
        c = None
        if b.op == 'param' and b.a[0] in ('self', 'cls'):
            c = self.frames[0].cls or self.frames[-1].cls
        elif b.op == 'new':
            m, _, k = b.a[0].rpartition('.')
            mod = self.repo.modules.get(m)
            c = mod.classes.get(k) if mod else None
        key = ('h', b, name)
        if key in st.env and st.env[key] is not mk('attr', b, name):
            return self.apply(st.env[key], pos, kw, st, n, stmt)
        if c is not None:
            m = self.lookup(c, name)
            if m is not None and not m.isprop:
                if m.static:
                    return self.repo_call(m, pos, kw, st, n, stmt)
                return self.repo_call(m, [b] + pos, kw, st, n, stmt)
        if name == 'writelines' and len(pos) == 1 and not kw:
            dom, el = self.iterate(pos[0])
            if pos[0].op == 'map':
                dom, el, g = pos[0].a[0].domain, (lambda p: subst_pos(pos[0].a[1], pos[0].a[0], p)), (lambda p: subst_pos(pos[0].a[2], pos[0].a[0], p))
            L = Loop('for', self.loops[-1] if self.loops else None, dom, n.lineno)
            self.loops.append(L)
            s2 = st.fork()
            if pos[0].op == 'map':
                s2.guards.append(g(mk('pos', L)))
            self.method_apply(n, tgt, b, 'write', [el(mk('pos', L))], [], s2, True)
            self.loops.pop()
            return NONE
        # method name defined once in the repository: bind the arguments
        cands = self.repo.method_index.get(name, [])
        if len(cands) == 1 and not cands[0].isprop and not cands[0].static and name not in MUTATORS and b.op != 'lib':
            if self.bind(cands[0], [b] + pos, kw) is not None:
                t = self.rcall(cands[0], [b] + pos, kw)
                r = self.stateful(t, [b] + pos, st, n, stmt or name in EFFECTS)
                return self.after(r, self.repo.modref(cands[0])[0])
        if name in MUTATORS and not kw and not self.isstr(b) and not (name in ('insert', 'update', 'pop', 'remove', 'add', 'fill') and self.opaque_obj(b)):
            return self.mutate(n, tgt, b, name, pos, st, stmt)
        r = self.method_norm(b, name, pos, kw, st)
        if r is not None:
            return r
        t = mk('call', mk('attr', b, name), tuple(pos), tuple(sorted(kw, key=lambda x: x[0])))
        return self.stateful(t, [b] + pos, st, n, stmt)

    def found(self, b):
        """the element a search found, where its absence would be an error"""
        if b.op == 'ite' and b.a[0].op == 'ex' and b.a[2] is NONE and b.a[1].op == 'first' and b.a[1].a[:2] == b.a[0].a:
            return b.a[1]
        return b

    def opaque_obj(self, b):
        return False

    def mutate(self, n, tgt, b, name, pos, st, stmt):
        if name == 'pop' and not pos:
            pos = [const(-1)]
        res = mk('call', mk('attr', b, name), tuple(pos), ())
        new = None
        if name == 'add' and len(pos) == 1 and isinstance(tgt, ast.Attribute) and self.already(self.again(tgt.value, st), tgt.attr, pos[0]):
            return NONE
        if name == 'append' and len(pos) == 1:
            new = mk('list', *(b.a + (pos[0],))) if b.op == 'list' else mk('append', b, pos[0])
        elif name == 'extend' and len(pos) == 1:
            its = self.items(pos[0])
            if its is not None and 0 < len(its) <= 8 and tgt is not None and pos[0].op in ('list', 'tuple'):
                for x in its:
                    self.mutate(n, tgt, self.again(tgt, st), 'append', [x], st, stmt)
                return NONE
            if b.op == 'list' and its is not None:
                new = mk('list', *(b.a + tuple(its)))
            else:
                new = mk('bin', '+', b, pos[0])
        elif name == 'insert' and len(pos) == 2 and b.op == 'list' and isconst(pos[0]):
            l = list(b.a)
            l.insert(pos[0].a[0], pos[1])
            new = mk('list', *l)
        elif name == 'insert' and len(pos) == 2 and pos[0] is const(0):
            new = mk('concat', mk('list', pos[1]), b)
        elif name == 'update' and b.op == 'dict' and len(pos) == 1 and pos[0].op == 'dict':
            items = dict(b.a)
            items.update(dict(pos[0].a))
            new = mk('dict', *items.items())
        elif name == 'pop' and b.op == 'list' and (not pos or isconst(pos[0])) and b.a:
            l = list(b.a)
            res = l.pop(pos[0].a[0] if pos else -1)
            new = mk('list', *l)
        elif name == 'sort' and not pos:
            new = mk('sorted', b)
        elif name == 'reverse':
            new = mk('idx', b, self.slice(NONE, NONE, const(-1)))
        else:
            new = mk('mut', name, b, tuple(pos))
        if tgt is None:
            # through a held bound method: every name holding the same container sees the change
            hit = [k for k, v in st.env.items() if v is b]
            if len(hit) != 1:
                self.unknown.append('bound mutator')
            for k in hit:
                st.env[k] = new
            if self.shared(b):
                self.effect(st, 'mutate', (self.root(b), const(name)) + tuple(pos), n)
        else:
            bb = self.again(tgt.value, st) if isinstance(tgt, ast.Attribute) else None
            self.changed(tgt, bb, b, new, 'mutate', (const(name),) + tuple(pos), st, n)
        return res

    def already(self, obj, attr, x):
        """the call just made has added x to obj.attr on every normal return"""
        for e in reversed(self.effects):
            if e.kind in ('with', 'raise'):
                continue
            if e.kind != 'call' or e.payload[0].op != 'rcall' or tuple(e.loops) != tuple(self.loops):
                return False
            t = e.payload[0]
            f = self.repo.byqual(t.a[0])
            if f is None:
                return False
            args = dict(t.a[2])
            names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
            if any(isinstance(y, ast.Return) for y in ast.walk(f.node)):
                return False
            for y in f.node.body:
                if isinstance(y, ast.Expr) and isinstance(y.value, ast.Call) and isinstance(y.value.func, ast.Attribute) and y.value.func.attr == 'add' \
                        and isinstance(y.value.func.value, ast.Attribute) and y.value.func.value.attr == attr and isinstance(y.value.func.value.value, ast.Name) \
                        and len(y.value.args) == 1 and isinstance(y.value.args[0], ast.Name):
                    o, v = y.value.func.value.value.id, y.value.args[0].id
                    if o in names and v in names and args.get('a%d' % names.index(o)) is obj and args.get('a%d' % names.index(v)) is x:
                        return True
            return False
        return False

    def method_norm(self, b, name, pos, kw, st):
        kwd = dict(kw)
        if name in STRIP_METHODS and not pos and not kw:
            return b
        if name == 'format' and b.op == 'ite' and self.isstr(b.a[1]) and self.isstr(b.a[2]):
            x, y = (self.format(z, pos, kwd) if z.op != 'ite' else self.method_norm(z, name, pos, kw, st) for z in b.a[1:])
            if x is not None and y is not None:
                return ite(b.a[0], x, y)
        if name == 'format' and self.isstr(b):
            r = self.format(b, pos, kwd)
            if r is not None:
                return r
        if name == 'format_map' and self.isstr(b) and pos and pos[0].op == 'dict' and all(isconst(k) for k, v in pos[0].a):
            r = self.format(b, [], {k.a[0]: v for k, v in pos[0].a})
            if r is not None:
                return r
        if name == 'join' and self.isstr(b) and len(pos) == 1:
            if isconst(b) and pos[0].op in ('list', 'tuple'):
                return self.cat([mk('join', b, pos[0])])
            return mk('cat', mk('join', b, pos[0]))
        if name == 'items' and not pos:
            return mk('dictitems', b)
        if name == 'iteritems' and not pos:
            return mk('call', mk('attr', b, 'iteritems'), (), ())
        if name == 'values' and not pos:
            return mk('dictvalues', b)
        if name == 'get' and b.op == 'dict' and pos and not (b.a and all(v.op in ('list', 'tuple', 'set') for k, v in b.a)):
            out = pos[1] if len(pos) > 1 else NONE
            for k, v in reversed(b.a):
                out = ite(self.compare('==', pos[0], k), v, out)
            return out
        if name == 'get' and len(pos) in (1, 2) and not kw and not (b.op == 'param' and len(pos) == 1):
            return ite(self.compare('in', pos[0], b), self.index(b, pos[0]), pos[1] if len(pos) > 1 else NONE)
        if name == 'dot' and len(pos) == 1:
            return self.binop('@', b, pos[0])
        if name in ('max', 'min') and not pos and not kw:
            return mk('fn', name, b)
        if name == 'sum':
            ax = kwd.get('axis', pos[0] if pos else None)
            if ax is None:
                return self.total(b) if line(b) else mk('sumall', b)
            if ax is const(0):
                return mk('sum', b)
        if name == 'transpose' and not pos:
            return self.attr(b, 'T', st)
        if name in ('isna', 'isnull') and not pos:
            return mk('isna', b)
        if name == 'intersection' and len(pos) == 1:
            return mk('comm', 'intersect', unset(b), unset(pos[0]))
        if name == 'issubset' and len(pos) == 1:
            return self.subset(b, pos[0])
        if name == 'issuperset' and len(pos) == 1:
            return self.subset(pos[0], b)
        if name == 'reshape' and pos and not kw:
            shp = pos[0] if len(pos) == 1 else mk('tuple', *pos)
            return mk('call', mk('attr', b, 'reshape'), (mk('tuple', *shp.a) if shp.op == 'list' else shp,), ())
        if name in ('any', 'all') and not pos and not kw:
            return mk('call', mk('lib', 'builtins.' + name), (b,), ())
        if name == 'union' and len(pos) == 1:
            return mk('comm', 'union', unset(b), unset(pos[0]))
        if name in ('rjust', 'ljust', 'center') and len(pos) == 1 and isconst(pos[0]):
            return mk('cat', mk('fv', b, '%s%s' % ({'r': '>', 'l': '<', 'c': '^'}[name[0]], pos[0].a[0])))
        if name == 'zfill' and len(pos) == 1 and isconst(pos[0]) and pos[0].a[0] in range(1, 10) and b.op == 'cat' and len(b.a) == 1 \
                and b.a[0].op == 'fv' and b.a[0].a[1] == '' and not self.isstr(b.a[0].a[0]):
            return mk('cat', self.fv(b.a[0].a[0], '0%d' % pos[0].a[0]))
        if name == 'find' and len(pos) == 1 and not kw:
            return mk('call', mk('attr', b, 'find'), tuple(pos), ())
        if name in ('index', 'rindex') and len(pos) == 1 and not kw and self.probes:
            t = mk('call', mk('attr', b, name), tuple(pos), ())
            self.probes[-1][t] = 1
            return t
        if name == 'decode' and not kw and (not pos or pos[0] in (const('utf-8'), const('UTF-8'), const('ascii'))):
            return mk('call', mk('attr', b, 'decode'), (), ())
        if isconst(b) and isinstance(b.a[0], str) and all(isconst(p) for p in pos) and not kw and name in (
                'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'zfill', 'lstrip', 'rstrip', 'index', 'find', 'count', 'splitlines'):
            try:
                return lift(getattr(b.a[0], name)(*[p.a[0] for p in pos]))
            except Exception:
                pass
        if name == 'diagonal' and not pos and not kw:
            return self.lib_call('numpy.diag', [b], [], st, None, False)
        if name == 'astype' and len(pos) == 1 and pos[0] in (mk('lib', 'builtins.float'),):
            return b
        return None

    def format(self, b, pos, kwd):
        import string
        # only constant templates (possibly with interpolated parts) are expanded
        parts = list(b.a) if b.op == 'cat' else [b]
        auto = [0]
        out = []
        for p in parts:
            if not (isconst(p) and isinstance(p.a[0], str)):
                out.append(self.format_in(p, kwd))
                continue
            try:
                fields = list(string.Formatter().parse(p.a[0]))
            except ValueError:
                return None
            for lit, fld, spec, conv in fields:
                if lit:
                    out.append(const(lit))
                if fld is None:
                    continue
                head, rest = _split_field(fld)
                if head == '' or head.isdigit():
                    k = int(head) if head else auto[0]
                    auto[0] += head == ''
                    v = pos[k] if k < len(pos) else None
                    if pos and pos[-1].op == 'star' and k >= len(pos) - 1:
                        v = self.index(pos[-1].a[0], const(k - len(pos) + 1))
                else:
                    v = kwd.get(head)
                    if v is None and '**' in kwd:
                        v = self.index(kwd['**'], const(head))
                if v is None:
                    out.append(mk('unboundfield', head))
                    continue
                if v.op == 'star':
                    return None
                for kind, k in rest:
                    v = mk('attr', v, k) if kind == '.' else self.index(v, const(int(k)) if k.isdigit() else const(k))
                sp = spec or ''
                if '{' in sp:
                    m = sp.strip('{}')
                    sv = kwd.get(m) if not m.isdigit() else (pos[int(m)] if int(m) < len(pos) else None)
                    if sv is not None and isconst(sv):
                        sp = str(sv.a[0])
                    elif sv is not None:
                        sp = sv
                if conv == 'r':
                    v = mk('call', mk('lib', 'builtins.repr'), (v,), ())
                out.append(self.fv(v, sp))
        return self.cat(out)

    def format_in(self, p, kwd):
        """a piece of a template that is itself a choice or a run of templates"""
        if p.op == 'ite' and self.isstr(p.a[1]) and self.isstr(p.a[2]):
            x, y = (self.format(q, [], kwd) if q.op != 'ite' else self.format_in(q, kwd) for q in p.a[1:])
            if x is not None and y is not None:
                return ite(p.a[0], x, y)
        elif p.op == 'join' and isconst(p.a[0]) and p.a[1].op == 'map' and self.isstr(p.a[1].a[1]):
            m = p.a[1]
            x = self.format(m.a[1], [], kwd) if m.a[1].op != 'ite' else self.format_in(m.a[1], kwd)
            if x is not None and x is not m.a[1]:
                return mk('join', p.a[0], mk('map', m.a[0], x, *m.a[2:]))
        return p

    def lib_call(self, path, pos, kw, st, n, stmt):
        path = LIB_ALIAS.get(path, path)
        kwd = dict(kw)
        if path in IGNORED_CALLS or path.split('.')[-1] == 'warn':
            return NONE
        if path in NP_SIGS and kw:
            sig = NP_SIGS[path]
            p2 = list(pos)
            k2 = dict(kwd)
            for nm in sig[len(p2):]:
                if nm in k2:
                    p2.append(k2.pop(nm))
                else:
                    break
            pos, kw, kwd = p2, sorted(k2.items()), k2
        one = len(pos) == 1 and not kw
        if path == 'collections.OrderedDict':
            if not pos:
                return mk('dict', *[(const(k), v) for k, v in kw])
            its = self.items(pos[0])
            if its is not None and pos[0].op != 'dict' and all(x.op in ('tuple', 'list') and len(x.a) == 2 for x in its):
                return mk('dict', *([(x.a[0], x.a[1]) for x in its] + [(const(k), v) for k, v in kw]))
        if path in IDENT_FUNCS:
            if len(pos) >= 1:
                extra = [(k, v) for k, v in kw if k not in ('copy', 'order')]
                dt = kwd.get('dtype', pos[1] if len(pos) > 1 else None)
                if path in ('builtins.list', 'builtins.tuple') and pos[0].op in ('list', 'tuple'):
                    return mk(path.split('.')[1], *pos[0].a)
                if path == 'builtins.list' and pos[0].op == 'range':
                    its = self.items(pos[0])
                    if its is not None:
                        return mk('list', *its)
                if path in ('builtins.list', 'builtins.tuple'):
                    its = self.items(pos[0])
                    if its is not None and pos[0].op != 'dict':
                        return mk('list', *its)
                if path in ('builtins.list', 'builtins.tuple') and pos[0].op == 'attr' and pos[0].a[1] == 'values' and pos[0].a[0].op == 'idx' \
                        and pos[0].a[0].a[1].op == 'const' and isinstance(pos[0].a[0].a[1].a[0], str):
                    return pos[0].a[0]          # one column of a frame
                if dt is None or dt in (mk('lib', 'builtins.float'),):
                    return pos[0]
                return mk('call', mk('attr', pos[0], 'astype'), (dt,), ())
            if path == 'builtins.list':
                return mk('list')
            if path == 'builtins.tuple':
                return mk('tuple')
            if path == 'collections.OrderedDict':
                return mk('dict')
        if path == 'builtins.dict':
            if not pos:
                return mk('dict', *[(const(k), v) for k, v in kw])
            its = self.items(pos[0])
            if its is not None and all(x.op == 'tuple' and len(x.a) == 2 for x in its):
                return mk('dict', *([(x.a[0], x.a[1]) for x in its] + [(const(k), v) for k, v in kw]))
            if not kw and len(pos) == 1 and pos[0].op in ('zip', 'enum'):
                dom, el = self.iterate(pos[0])
                L = Loop('for', self.loops[-1] if self.loops else None, dom, n.lineno)
                return mk('dictof', self.simp_map(L, el(mk('pos', L)), TRUE))
            if not kw and len(pos) == 1 and pos[0].op == 'map' and pos[0].a[1].op in ('tuple', 'list') and len(pos[0].a[1].a) == 2:
                return mk('dictof', pos[0])
            if not kw and len(pos) == 1 and (pos[0].op == 'sorted' or pos[0].op == 'idx' and pos[0].a[1].op == 'slice' and pos[0].a[0].op == 'dictitems'):
                return mk('dictof', pos[0])
        if path == 'builtins.set':
            if not pos:
                return mk('set')
            if pos[0].op == 'ite' and any(x.op in ('list', 'tuple', 'set') for x in pos[0].a[1:]):
                c, x, y = pos[0].a
                return ite(c, self.lib_call(path, [x], kw, st, n, stmt), self.lib_call(path, [y], kw, st, n, stmt))
            its = self.items(pos[0])
            if its is not None and (allconst(pos[0]) or pos[0].op in ('list', 'tuple')):
                return mk('set', *dict.fromkeys(its))
            return pos[0] if pos[0].op in ('setof', 'set', 'comm') else mk('setof', pos[0])
        if path == 'builtins.frozenset' and pos:
            return mk('setof', pos[0])
        if path == 'builtins.len' and one:
            return self.length(unset(pos[0]) if pos[0].op == 'setof' and False else pos[0])
        if path == 'numpy.size' and one:
            return self.length(pos[0])
        if path == 'builtins.range':
            a, b, c = const(0), None, const(1)
            if len(pos) == 1:
                b = pos[0]
            elif len(pos) >= 2:
                a, b = pos[0], pos[1]
                if len(pos) == 3:
                    c = pos[2]
            if b is not None:
                return mk('range', a, b, c)
        if path == 'numpy.arange' and not kw and len(pos) in (1, 2):
            return mk('range', const(0) if len(pos) == 1 else pos[0], pos[-1], const(1))
        if path == 'builtins.enumerate' and pos:
            return mk('enum', pos[0], kwd.get('start', pos[1] if len(pos) > 1 else const(0)))
        if path == 'builtins.zip':
            its = [self.items(p) for p in pos]
            if pos and all(p.op in ('list', 'tuple') and i is not None for p, i in zip(pos, its)) and all(allconst(p) for p in pos):
                return mk('list', *[mk('tuple', *r) for r in zip(*its)])
            if any(p.op == 'map' for p in pos) and all(p.op != 'map' or p.a[2] is TRUE for p in pos):
                dom, el = self.iterate(mk('zip', *pos))
                L = Loop('for', self.loops[-1] if self.loops else None, dom, n.lineno if n is not None else 0)
                return self.simp_map(L, el(mk('pos', L)), TRUE)
            return mk('zip', *pos)
        if path == 'builtins.map' and len(pos) == 2:
            dom, el = self.iterate(pos[1])
            L = Loop('for', self.loops[-1] if self.loops else None, dom, n.lineno)
            self.loops.append(L)
            v = self.apply(pos[0], [el(mk('pos', L))], [], st, n)
            self.loops.pop()
            return self.simp_map(L, v, TRUE)
        if path == 'builtins.filter' and len(pos) == 2:
            dom, el = self.iterate(pos[1])
            L = Loop('for', self.loops[-1] if self.loops else None, dom, n.lineno)
            self.loops.append(L)
            e = el(mk('pos', L))
            c = self.truthy(self.apply(pos[0], [e], [], st, n)) if pos[0] is not NONE else self.truthy(e)
            self.loops.pop()
            return self.simp_map(L, e, c)
        if path == 'builtins.reversed' and one:
            its = self.items(pos[0])
            if its is not None:
                return mk('list', *its[::-1])
            return mk('reversed', pos[0])
        if path == 'builtins.sorted':
            if one and allconst(pos[0]):
                try:
                    return lift(sorted(pyval(pos[0])))
                except TypeError:
                    pass
            if one:
                return mk('sorted', unset(pos[0]))
        if path == 'numpy.sort' and one:
            return mk('sorted', pos[0])
        if path == 'builtins.repr' and one:
            return self.method_apply(n, None, pos[0], '__repr__', [], [], st, stmt)
        if path == 'builtins.next' and n is not None and n.args and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name) and n.args[0].func.id == 'iter':
            if len(pos) == 1:
                return self.index(pos[0], const(0))
            if len(pos) == 2:
                return ite(self.truthy(pos[0]), self.index(pos[0], const(0)), pos[1])
        if path == 'builtins.str' and one:
            if isconst(pos[0]):
                return const(str(pos[0].a[0]))
            return self.cat([self.fv(pos[0], '')])
        if path == 'builtins.format' and pos:
            sp = pos[1] if len(pos) > 1 else const('')
            return self.cat([self.fv(pos[0], sp.a[0] if isconst(sp) else sp)])
        if path == 'builtins.int' and one:
            if isconst(pos[0]):
                try:
                    return const(int(pos[0].a[0]))
                except (ValueError, TypeError):
                    pass
            if self.probes:
                self.probes[-1][mk('fn', 'int', pos[0])] = 1
            return mk('fn', 'int', pos[0])
        if path == 'builtins.float' and one:
            if isconst(pos[0]):
                try:
                    return const(float(pos[0].a[0]))
                except (ValueError, TypeError):
                    pass
            if self.probes:
                self.probes[-1][mk('float', pos[0])] = 1
            return mk('float', pos[0])
        if path == 'builtins.bool' and one:
            return self.truthy(pos[0])
        if path == 'builtins.isinstance' and len(pos) == 2:
            for c in pos[1].a if pos[1].op == 'tuple' else (pos[1],):
                if c.op == 'cls':
                    self.family(c.a[0].obj)
            return mk('isinst', pos[0], clskey(pos[1]))
        if path == 'builtins.issubclass' and len(pos) == 2:
            return mk('issub', pos[0], clskey(pos[1]))
        if path == 'builtins.getattr' and len(pos) == 2 and isconst(pos[1]):
            return self.attr(pos[0], pos[1].a[0], st)
        if path == 'builtins.setattr' and len(pos) == 3 and isconst(pos[1]):
            st.env[('h', pos[0], pos[1].a[0])] = pos[2]
            self.effect(st, 'setattr', (pos[0], pos[1], pos[2]), n)
            return NONE
        if path == 'builtins.sum' and pos:
            if len(pos) == 1:
                return self.total(pos[0])
            if pos[1].op == 'list' and not pos[1].a:
                return mk('flatten', pos[0])
            return self.binop('+', pos[1], mk('sum', pos[0]))
        if path == 'numpy.sum' and pos:
            ax = kwd.get('axis', pos[1] if len(pos) > 1 else None)
            if ax is const(0):
                return mk('sum', pos[0])
            if ax is None:
                return self.total(pos[0]) if line(pos[0]) else mk('sumall', pos[0])
        if path in ('numpy.max', 'numpy.min'):
            nm = path.split('.')[1]
            if not kw and pos:
                if len(pos) == 1 and pos[0].op in ('list', 'tuple'):
                    return mk('fn', nm, *pos[0].a)
                if len(pos) == 1 and allconst(pos[0]):
                    return lift(max(pyval(pos[0])) if nm == 'max' else min(pyval(pos[0])))
                if nm == 'max' and len(pos) == 2:
                    for x, y in (pos, pos[::-1]):
                        if x.op == 'len' and y is const(1):
                            return ite(self.truthy(x.a[0]), x, y)
                return mk('fn', nm, *pos)
        if path in ('numpy.maximum', 'numpy.minimum') and len(pos) == 2:
            return mk('fn', 'max' if 'max' in path else 'min', *pos)
        if path in ('numpy.abs', 'numpy.sqrt', 'numpy.log', 'numpy.exp') and one:
            return mk('fn', path.split('.')[1], pos[0])
        if path == 'numpy.square' and one:
            return self.binop('**', pos[0], const(2))
        if path == 'os.path.split' and one:
            return mk('tuple', self.lib_call('os.path.dirname', pos, kw, st, n, stmt), self.lib_call('os.path.basename', pos, kw, st, n, stmt))
        if path in ('numpy.expm1', 'math.expm1') and one:
            return self.binop('-', mk('fn', 'exp', pos[0]), const(1))
        if path in ('numpy.log1p', 'math.log1p') and one:
            return mk('fn', 'log', self.binop('+', pos[0], const(1)))
        if path == 'numpy.exp2' and one:
            return self.binop('**', const(2), pos[0])
        if path == 'numpy.reciprocal' and one:
            return self.binop('/', const(1), pos[0])
        if path in ('math.erfc', 'scipy.special.erfc') and one:
            return self.binop('-', const(1), self.lib_call('math.erf', pos, kw, st, n, stmt))
        if path == 'numpy.negative' and one:
            return mk('un', '-', pos[0])
        if path in BIN_FUNCS and len(pos) == 2 and not kw:
            return self.binop(BIN_FUNCS[path], pos[0], pos[1])
        if path in CMP_FUNCS and len(pos) == 2:
            return self.compare(CMP_FUNCS[path], pos[0], pos[1])
        if path in ('numpy.logical_and', 'numpy.bitwise_and') and len(pos) == 2:
            return mk('and', pos[0], pos[1])
        if path in ('numpy.logical_or', 'numpy.bitwise_or') and len(pos) == 2:
            return mk('or', pos[0], pos[1])
        if path in ('numpy.logical_not', 'numpy.invert', 'numpy.bitwise_not') and one:
            return gnot(pos[0]) if pos[0].op in BOOLISH else mk('not', pos[0])
        if path == 'numpy.where':
            if len(pos) == 1:
                return pos[0]
            if len(pos) == 3:
                return ite(pos[0], pos[1], pos[2])
        if path in ('numpy.nonzero', 'numpy.flatnonzero') and one and pos[0].op in BOOLISH:
            return pos[0]
        if path == 'numpy.clip' and len(pos) == 3:
            return mk('fn', 'min', mk('fn', 'max', pos[0], pos[1]), pos[2])
        if path == 'numpy.isnan' and one:
            return mk('isna', pos[0])
        if path == 'numpy.transpose' and one:
            return self.attr(pos[0], 'T', st)
        if path == 'numpy.reshape' and len(pos) == 2:
            return mk('call', mk('attr', pos[0], 'reshape'), (mk('tuple', *pos[1].a) if pos[1].op in ('list', 'tuple') else pos[1],), ())
        if path == 'numpy.diag' and one and pos[0].op == 'call' and pos[0].a[0].op == 'lib' and pos[0].a[0].a[0] == 'numpy.ones':
            return mk('call', mk('lib', 'numpy.eye'), (pos[0].a[1][0],), ())
        if path == 'numpy.diagonal' and one:
            path = 'numpy.diag'
        if path == 'builtins.divmod' and len(pos) == 2 and not kw:
            return mk('tuple', self.binop('//', pos[0], pos[1]), self.binop('%', pos[0], pos[1]))
        if path == 'builtins.slice' and 1 <= len(pos) <= 3 and not kw:
            lo, hi, sp = (NONE, pos[0], NONE) if len(pos) == 1 else (list(pos) + [NONE])[:3]
            return self.slice(lo, hi, sp)
        if path == 'numpy.eye' and pos:
            return mk('call', mk('lib', 'numpy.eye'), (pos[0],), ())
        if path == 'numpy.insert' and len(pos) == 3 and pos[1] is const(0):
            return mk('concat', mk('list', pos[2]), pos[0])
        if path in ('numpy.concatenate', 'numpy.hstack') and one and pos[0].op in ('list', 'tuple'):
            return mk('concat', *[mk('list', *x.a) if x.op == 'tuple' else x for x in pos[0].a])
        if path == 'numpy.append' and len(pos) == 2:
            return mk('concat', pos[0], mk('list', pos[1]) if pos[1].op == 'const' else pos[1])
        if path == 'numpy.vstack' and one and pos[0].op in ('list', 'tuple'):
            return mk('list', *pos[0].a)
        if path == 'numpy.stack' and one and pos[0].op in ('list', 'tuple'):
            return mk('list', *pos[0].a)
        if path == 'numpy.full' and len(pos) == 2 and not kw:
            return self.binop('*', pos[1], self.lib_call('numpy.ones', [pos[0]], [], st, n, False))
        if path in ('numpy.zeros', 'numpy.ones', 'numpy.empty') and pos:
            shp = pos[0]
            if shp.op == 'list':
                shp = mk('tuple', *shp.a)
            if shp.op == 'attr' and shp.a[1] == 'shape' and path != 'numpy.empty':
                pass
            if shp.op == 'tuple' and len(shp.a) == 2 and shp.a[0].op == 'len' and shp.a[1] is mk('idx', mk('attr', shp.a[0].a[0], 'shape'), const(1)):
                shp = mk('attr', shp.a[0].a[0], 'shape')
            dt = [(k, v) for k, v in kw if not (k == 'dtype' and v in (mk('lib', 'builtins.float'),))]
            return mk('call', mk('lib', path), (shp,) + tuple(pos[1:]), tuple(sorted(dt, key=lambda x: x[0])))
        if path in ('builtins.any', 'builtins.all') and one and pos[0].op == 'map':
            L, g, c = pos[0].a
            if path == 'builtins.any':
                return some(L, gand([c, self.truthy(g)]))
            return gnot(some(L, gand([c, gnot(self.truthy(g))])))
        if path in ('builtins.any', 'builtins.all') and one and pos[0].op in ('list', 'tuple') and pos[0].a:
            return mk('or' if path == 'builtins.any' else 'and', *[self.truthy(x) for x in pos[0].a])
        if path == 'builtins.next' and len(pos) == 2 and pos[0].op == 'map':
            L, g, c = pos[0].a
            return ite(some(L, c), first(L, c, g), pos[1])
        if path in ('builtins.any', 'builtins.all') and one:
            return mk('call', mk('lib', path), (pos[0],), ())
        if path == 'functools.reduce' and len(pos) >= 2:
            return mk('call', mk('lib', path), tuple(pos), ())
        if path == 'builtins.open' and pos:
            p0 = pos[0]
            if p0.op == 'cat' and len(p0.a) == 1 and p0.a[0].op == 'fv' and p0.a[0].a[1] == '':
                p0 = p0.a[0].a[0]
            pos = [p0] + list(pos[1:])
            if len(pos) == 1:
                pos.append(const('r'))
        if path == 'builtins.round' and len(pos) == 2 and pos[1] is const(0):
            pos = pos[:1]
        t = mk('call', mk('lib', path), tuple(pos), tuple(sorted(kw, key=lambda x: x[0])))
        return self.stateful(t, pos + [v for k, v in kw], st, n, stmt)


def isconst_node(n):
    return isinstance(n, ast.Constant)


def has_continue(body):
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Continue):
            return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            continue
        todo += [y for y in ast.iter_child_nodes(x) if isinstance(y, (ast.stmt, ast.ExceptHandler))]
    return False


def line(t):
    """certainly an array of one dimension"""
    return t.op == 'map' and t.a[1].op in ('len', 'const') or t.op == 'attr' and t.a[1] in ('p', 'x', 'y', 'c', 'energy')


def leaves(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x.op == 'ite':
            todo += x.a[1:]
        else:
            out.append(x)
    return out


def row_of(i):
    """the row an index names, when it is a number"""
    if i.op == 'tuple' and i.a:
        i = i.a[0]
    return i.a[0] if i.op == 'const' and type(i.a[0]) is int and i.a[0] >= 0 else None


def difference(hi, lo):
    """hi - lo where that is a plain number"""
    try:
        out = {}
        for t, sgn in ((hi, 1), (lo, -1)):
            for x, c in linear(t).items():
                out[x] = out.get(x, 0) + sgn * c
    except TypeError:
        return None
    n = out.pop(None, 0)
    return n if not any(out.values()) else None


def linear(t):
    """a sum of multiples: {term: how many}, the plain number under None"""
    if isconst(t):
        return {None: t.a[0]}
    if t.op == 'bin' and t.a[0] in ('+', '-'):
        out = dict(linear(t.a[1]))
        for x, c in linear(t.a[2]).items():
            out[x] = out.get(x, 0) + (c if t.a[0] == '+' else -c)
        return out
    if t.op == 'bin' and t.a[0] == '*':
        for k, x in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if isconst(k) and type(k.a[0]) is int:
                return {y: c * k.a[0] for y, c in linear(x).items()}
    return {t: 1}


def addends(t):
    if t.op == 'bin' and t.a[0] == '+':
        return addends(t.a[1]) + addends(t.a[2])
    if t.op == 'bin' and t.a[0] == '-' and isconst(t.a[2]):
        return addends(t.a[1]) + [const(-t.a[2].a[0])]
    return [t]


def nonneg(t):
    if t.op == 'const':
        return isinstance(t.a[0], int) and not isinstance(t.a[0], bool) and t.a[0] >= 0
    if t.op in ('pos', 'len'):
        return True
    return t.op == 'bin' and t.a[0] in ('+', '*') and nonneg(t.a[1]) and nonneg(t.a[2])


def weigh(t):
    return [x.op for x in (t.a if t.op == 'tuple' else (t,))], sum(1 for _ in subterms([t]))


def axes(i):
    """an index without the last axes it takes whole"""
    if i.op == 'tuple' and len(i.a) > 1 and i.a[-1] is FULL:
        k = len(i.a)
        while k > 1 and i.a[k - 1] is FULL:
            k -= 1
        return i.a[0] if k == 1 else mk('tuple', *i.a[:k])
    return i


def scalar(t):
    """a single number"""
    return t.op == 'const' and isinstance(t.a[0], (int, float)) or t.op in ('len', 'pos', 'float') or t.op == 'fn' and t.a[0] in ('int', 'float') \
        or t.op == 'idx' and (t.a[1].op == 'pos' or t.a[1].op == 'bin' and t.a[1].a[0] in '+-' and t.a[1].a[1].op == 'pos' and isconst(t.a[1].a[2]))


def filled(x):
    """the shape with which an array was made"""
    if x.op == 'call' and x.a[0].op == 'lib' and x.a[0].a[0] in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full') and x.a[1]:
        return x.a[1][0]
    return None


def stops(L):
    """the condition under which a turn ends the loop"""
    cs = [gand(list(g)) for g in L.breaks]
    return cs[0] if len(cs) == 1 else mk('or', *cs)


def unset(t):
    while t.op in ('setof',):
        t = t.a[0]
    if t.op == 'set':
        return mk('list', *t.a) if False else t
    return t


def clskey(t):
    if t.op == 'tuple':
        return mk('set', *sorted(t.a, key=repr))
    return t


class NodeBox:
    """hashable carrier of a Func/Class inside a node"""
    _by = {}

    def __init__(self, obj):
        self.obj = obj

    @classmethod
    def of(cls, obj):
        k = id(obj)
        b = cls._by.get(k)
        if b is None:
            b = cls._by[k] = cls(obj)
        return b

    def __repr__(self):
        return self.obj.qual


class _Chain:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __contains__(self, k):
        return k in self.a or (self.b is not None and k in self.b)

    def __getitem__(self, k):
        if k in self.a:
            return self.a[k]
        return self.b[k]


def _CompState(st):
    s = State(dict(st.env), list(st.guards))
    return s


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _target_names(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def _exc_names(t):
    if t is None:
        return ('*',)
    if isinstance(t, ast.Tuple):
        return tuple(sorted(n for e in t.elts for n in _exc_names(e)))
    if isinstance(t, ast.Attribute):
        return (t.attr,)
    if isinstance(t, ast.Name):
        return (t.id,)
    return ('?',)


def _split_field(f):
    import re
    m = re.match(r'([^.\[]*)(.*)$', f)
    head, rest = m.group(1), m.group(2)
    out = []
    for a, b in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
        out.append(('.', a) if a else ('[', b))
    return head, out


def opaque(u, L):
    """a value that cannot be shifted to another turn by renaming the position"""
    return any(t.op in ('rd', 'unk', 'new', 'after', 'mut', 'undef', 'raise') or any(isinstance(x, Loop) for x in t.a) and t is not mk('pos', L) for t in subterms([u], L))


def here(t):
    """subterms without what the loops named in them carry"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and id(x) not in seen:
            seen.add(id(x))
            yield x
            todo.extend(x.a)


def subst_pos(g, L, p):
    """replace pos(L) by p in g (outside other binders of L)"""
    return subst_term(g, mk('pos', L), p)


def subst_term(g, target, p):
    memo = {}

    def go(t):
        if t is target:
            return p
        if isinstance(t, tuple):
            return tuple(go(x) for x in t)
        if not isinstance(t, T):
            return t
        r = memo.get(id(t))
        if r is None:
            na = tuple(go(x) for x in t.a)
            r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
            memo[id(t)] = r
        return r
    return go(g)


class Summary:
    def __init__(self, func, params, ret, effects, st, builder):
        self.func = func
        self.params = params
        self.ret = ret
        self.effects = effects
        self.state = st
        self.inlined = builder.inlined
        self.unknown = builder.unknown
        self.made = builder.made

    def final(self, base, attr):
        return self.state.env.get(('h', base, attr))


FOLD_OPS = {'const', 'list', 'tuple', 'set', 'dict', 'cat', 'fv', 'lib', 'func', 'cls', 'mod', 'bin', 'un', 'attr', 'idx', 'fn', 'slice', 'kw'}
FOLD_CALLS = {'re.compile', 'numpy.finfo', 'collections.namedtuple', 'os.path.join', 'os.path.dirname', 'os.path.abspath'}


def foldable(v):
    """a module-level value that is the same at every use"""
    for t in subterms([v]):
        if t.op in FOLD_OPS:
            continue
        if t.op == 'call' and t.a[0].op == 'lib' and t.a[0].a[0] in FOLD_CALLS:
            continue
        return False
    return True


def module_env(repo, m, known=None):
    """constant folding of a module's top level"""
    if m.genv is not None:
        return m.genv
    m.genv = {}
    b = Builder(repo, known)
    b.folding = True
    fr = Frame(None, m, None)
    b.frames.append(fr)
    st = State()
    st.env = m.genv
    for s in m.tree.body:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.For)):
            try:
                b.stmt(s, st)
            except RecursionError:
                raise
            if st.env is not m.genv:
                m.genv.update(st.env)
                st.env = m.genv
    b.frames.pop()
    return m.genv
