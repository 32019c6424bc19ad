"""Congruence of a function with its reference definition.

Both sides become gated value graphs; each observable (returned value, stores,
calls with effects, text written, swallowed exceptions, parameter defaults) is
compared by value numbering.  Verdicts: holds / violation / undecided.
"""
import ast
import os
import time
from fractions import Fraction

from .terms import T, Loop, mk, const, subterms, show, NONE, isconst
from .interp import Trial, Poison, canon, same, H
from .graph import Builder, Summary, State, Frame, module_env, SITES, gnot, ite as gite
from .repo import SpecModule, AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(HERE, 'specs')

SKIP_METHODS = {'close', 'flush'}
DEFAULT_CHANNELS = ('ret', 'stores', 'calls', 'out', 'yields', 'swallow', 'defaults')


class Verdict:
    def __init__(self, status, what='', line=0, file='', func='', detail=''):
        self.status, self.what, self.line, self.file, self.func, self.detail = status, what, line, file, func, detail


def load_specs(repo):
    out = {}
    for d, ds, fs in os.walk(SPECDIR):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SPECDIR)[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            if rel not in repo.modules:
                continue
            out[rel] = SpecModule(repo, repo.modules[rel], p)
    return out


def split_write(payload_t, guards, loops, stream):
    """one text written -> pieces; ''.join over a comprehension becomes a loop of pieces"""
    if payload_t.op == 'cat':
        parts = payload_t.a
    else:
        parts = (payload_t,)
    cur = []
    for p in parts:
        if p.op == 'join' and p.a[0] is const('') and p.a[1].op == 'map':
            if cur:
                yield mk('eff', guards, loops, ('write', stream, mk('cat', *cur)))
                cur = []
            L, g, c = p.a[1].a
            yield from split_write(g, guards + (c,), loops + (L,), stream)
        else:
            cur.append(p)
    if cur:
        yield mk('eff', guards, loops, ('write', stream, cur[0] if len(cur) == 1 and cur[0].op != 'fv' else mk('cat', *cur)))


def raised(t, memo=None):
    """the condition under which a gated result is an error"""
    memo = {} if memo is None else memo
    r = memo.get(id(t))
    if r is None:
        if t.op == 'raise':
            r = const(True)
        elif t.op == 'ite':
            r = gite(t.a[0], raised(t.a[1], memo), raised(t.a[2], memo))
        elif t.op == 'first':
            r = raised(t.a[2], memo)
            r = r if isconst(r) else mk('first', t.a[0], t.a[1], r)
        else:
            r = const(False)
        memo[id(t)] = r
    return r


def observables(s, drop_attrs=()):
    """Summary -> {channel: (T, [(term, Effect)])}"""
    stores, calls, out, yields, swallow = [], [], [], [], []
    fine = ()
    if s.func is not None and s.func.node.name == '__init__':
        # nobody sees an object whose construction failed
        try:
            fine = gnot(raised(s.ret))
            fine = () if isconst(fine) else (fine,)
        except RecursionError:
            fine = ()
    for e in s.effects:
        g, l = tuple(e.guards), tuple(e.loops)
        if fine and (e.kind in ('setattr', 'setitem', 'mutate', 'del')):
            g = g + fine
        if e.kind in ('setattr', 'setitem'):
            stores.append((mk('eff', g, l, (e.kind,) + tuple(e.payload)), e))
        elif e.kind == 'call':
            t = e.payload[0]
            f = t.a[0] if t.op == 'call' else None
            if f is not None and f.op == 'attr' and f.a[1] in SKIP_METHODS:
                continue
            if f is not None and f.op == 'attr' and f.a[1] == 'write' and len(t.a[1]) == 1 and not t.a[2]:
                for x in split_write(t.a[1][0], g, l, f.a[0]):
                    out.append((x, e))
            elif f is not None and f.op == 'attr' and f.a[1] == 'writelines' and len(t.a[1]) == 1:
                for x in split_write(mk('join', const(''), t.a[1][0]), g, l, f.a[0]):
                    out.append((x, e))
            else:
                calls.append((mk('eff', g, l, ('call', t)), e))
        elif e.kind in ('mutate', 'del'):
            calls.append((mk('eff', g, l, (e.kind,) + tuple(e.payload)), e))
        elif e.kind == 'yield':
            yields.append((mk('eff', g, l, (e.kind,) + tuple(e.payload)), e))
        elif e.kind == 'swallow':
            swallow.append((mk('eff', (), (), ('swallow', e.payload[0])), e))
    return {'ret': (s.ret, []),
            'stores': (mk('heapfx', *[x for x, e in stores]), stores),
            'calls': (mk('bag', *[x for x, e in calls]), calls),
            'out': (mk('outfx', *[x for x, e in out]), out),
            'yields': (mk('trace', *[x for x, e in yields]), yields),
            'swallow': (mk('bag', *[x for x, e in swallow]), swallow)}


def const_pool(roots):
    vals, seen = [], set()
    for t in subterms(roots):
        if t.op == 'const':
            v = t.a[0]
            if v is None or isinstance(v, (str, int, float)) and not isinstance(v, bool):
                if isinstance(v, str) and len(v) > 40:
                    continue
                k = (type(v).__name__, v)
                if k not in seen:
                    seen.add(k)
                    vals.append(v)
    vals.sort(key=lambda v: (type(v).__name__, repr(v)))
    return [Fraction(repr(v)) if isinstance(v, float) and v == v and abs(v) not in (float('inf'),) else v for v in vals]


def cmp_pool(roots):
    """constants a comparison may single out"""
    vals, seen = [], set()

    def add(v):
        k = (type(v).__name__, v)
        if k not in seen and (v is None or isinstance(v, (str, int, float)) and not isinstance(v, bool)):
            seen.add(k)
            vals.append(v)

    def deep(x):
        if x.op == 'const':
            add(x.a[0])
        elif x.op in ('list', 'tuple', 'set'):
            for y in x.a:
                deep(y)
        elif x.op == 'dict':
            for k, v in x.a:
                deep(k)
    for t in subterms(roots):
        if t.op == 'cmp':
            deep(t.a[1])
            deep(t.a[2])
        elif t.op == 'dict':
            deep(t)
        elif t.op == 'truth':
            add(None)
    vals.sort(key=lambda v: (type(v).__name__, repr(v)))
    return [Fraction(repr(v)) if isinstance(v, float) and v == v and abs(v) not in (float('inf'),) else v for v in vals]


def isomorphic(a, b):
    """structural identity of two value graphs up to loop identity"""
    lmap, rmap = {}, {}
    seen = set()
    stack = [(a, b)]
    while stack:
        x, y = stack.pop()
        if x is y:
            if not isinstance(x, T):
                continue
            # shared node: may still mention loops; identical objects are equal
            continue
        if isinstance(x, T):
            if not isinstance(y, T) or x.op != y.op or len(x.a) != len(y.a):
                return False
            k = (id(x), id(y))
            if k in seen:
                continue
            seen.add(k)
            stack.extend(zip(x.a, y.a))
        elif isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y):
                return False
            stack.extend(zip(x, y))
        elif isinstance(x, Loop):
            if not isinstance(y, Loop) or x.kind != y.kind:
                return False
            if x in lmap or y in rmap:
                if lmap.get(x) is not y or rmap.get(y) is not x:
                    return False
                continue
            lmap[x], rmap[y] = y, x
            if (x.parent is None) != (y.parent is None) or len(x.recs) != len(y.recs) or len(x.breaks) != len(y.breaks):
                return False
            if x.parent is not None:
                stack.append((x.parent, y.parent))
            stack.append((x.domain, y.domain))
            # loop-carried names are positional evidence only when equal
            for k, (i, u) in x.recs.items():
                if isinstance(k, tuple):
                    continue
                if k not in y.recs:
                    return False
                stack.append((i, y.recs[k][0]))
                stack.append((u, y.recs[k][1]))
            xt = [v for k, v in x.recs.items() if isinstance(k, tuple)]
            yt = [v for k, v in y.recs.items() if isinstance(k, tuple)]
            if len(xt) != len(yt):
                return False
            stack.extend(zip(xt, yt))
            stack.extend(zip(x.breaks, y.breaks))
        else:
            if type(x) is not type(y) or x != y:
                return False
    return True


def sites(a, b, limit=60, budget=60000):
    """lockstep descent: minimal differing pairs with the path conditions that lead to them"""
    lmap, rmap = {}, {}
    seen = {}
    out = []
    count = [0]

    def leaf(x, y, path):
        out.append((x, y, path))

    def go(x, y, path):
        """-> True when identical up to loop names"""
        stack_ok = True
        count[0] += 1
        if count[0] > budget or len(out) > limit:
            return False
        if x is y:
            return True
        if isinstance(x, T):
            if not isinstance(y, T) or x.op != y.op or len(x.a) != len(y.a):
                leaf(x, y, path)
                return False
            k = (id(x), id(y))
            if k in seen:
                # met before on another path: what differs within it is reached from here too
                if seen[k] is not None:
                    i, j, n = seen[k]
                    out.extend((u, v, path + p[n:]) for u, v, p in out[i:min(j, i + 2)])
                return True
            seen[k] = None
            i = len(out)
            ok = inner(x, y, path)
            if len(out) > i:
                seen[k] = (i, len(out), len(path))
            return ok
        return inner(x, y, path)

    def inner(x, y, path):
        if isinstance(x, T):
            o = x.op
            if o == 'ite':
                ok = go(x.a[0], y.a[0], path)
                c = x.a[0]
                ok = go(x.a[1], y.a[1], path + ((c, True),)) and ok
                ok = go(x.a[2], y.a[2], path + ((c, False),)) and ok
                return ok
            if o == 'map':
                go(x.a[0], y.a[0], path)
                ok = go(x.a[2], y.a[2], path)
                return go(x.a[1], y.a[1], path + ((x.a[2], True),)) and ok
            if o == 'eff':
                g1, g2 = x.a[0], y.a[0]
                ok = True
                if len(g1) == len(g2):
                    for i, (p, q) in enumerate(zip(g1, g2)):
                        ok = go(p, q, path + tuple((z, True) for j, z in enumerate(g1) if j < i)) and ok
                else:
                    leaf(mk('and', *g1), mk('and', *g2), path)
                    ok = False
                p2 = path + tuple((z, True) for z in g1)
                ok = go(x.a[1], y.a[1], p2) and ok
                return go(x.a[2], y.a[2], p2) and ok
            if o == 'cmp' and any(p is not q and (p.op == 'const' or q.op == 'const') for p, q in zip(x.a[1:], y.a[1:])) or o == 'cmp' and x.a[0] != y.a[0]:
                leaf(x, y, path)
                return False
            if o in ('and', 'or'):
                ok = True
                for i, (p, q) in enumerate(zip(x.a, y.a)):
                    ok = go(p, q, path + tuple((z, o == 'and') for j, z in enumerate(x.a) if j != i)) and ok
                return ok
            ok = True
            for p, q in zip(x.a, y.a):
                ok = go(p, q, path) and ok
            return ok
        if isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y):
                leaf(x, y, path)
                return False
            ok = True
            for p, q in zip(x, y):
                ok = go(p, q, path) and ok
            return ok
        if isinstance(x, Loop):
            if not isinstance(y, Loop) or x.kind != y.kind:
                leaf(x, y, path)
                return False
            if x in lmap or y in rmap:
                if lmap.get(x) is not y or rmap.get(y) is not x:
                    leaf(x, y, path)
                    return False
                return True
            lmap[x], rmap[y] = y, x
            ok = True
            if x.parent is not None and y.parent is not None:
                ok = go(x.parent, y.parent, path)
            ok = go(x.domain, y.domain, path) and ok
            for k, (i, u) in x.recs.items():
                if isinstance(k, tuple) or k not in y.recs:
                    continue
                ok = go(i, y.recs[k][0], path) and ok
                if u is not None and y.recs[k][1] is not None:
                    ok = go(u, y.recs[k][1], path) and ok
            xt = [v for k, v in x.recs.items() if isinstance(k, tuple)]
            yt = [v for k, v in y.recs.items() if isinstance(k, tuple)]
            for p, q in zip(xt, yt):
                ok = go(p[0], q[0], path) and ok
                if p[1] is not None and q[1] is not None:
                    ok = go(p[1], q[1], path) and ok
            for p, q in zip(x.breaks, y.breaks):
                ok = go(tuple(p), tuple(q), path) and ok
            return ok
        if type(x) is not type(y) or x != y:
            leaf(x, y, path)
            return False
        return True
    try:
        go(a, b, ())
    except RecursionError:
        pass
    return out


def zips_of(roots):
    """sequences walked side by side, outer loops first"""
    zs = {}
    for L in loops_of(roots):
        if L.domain.op == 'zipdom':
            d, p = 0, L.parent
            while p is not None:
                d, p = d + 1, p.parent
            zs[L.domain] = min(d, zs.get(L.domain, 99))
    return sorted(zs, key=lambda z: zs[z])


def counts_of(roots):
    """values that serve as the extent of a section or as a number of turns: never negative"""
    out = set()

    def add(t):
        while t.op == 'bin' and t.a[0] == '*' and isconst(t.a[1]) or t.op == 'bin' and t.a[0] == '*' and isconst(t.a[2]):
            t = t.a[2] if isconst(t.a[1]) else t.a[1]
        if t.op in ('fn', 'idx', 'attr', 'call', 'param', 'rcall', 'rd') and not any(x.op in ('pos', 'rec', 'out', 'last', 'map') for x in subterms([t])):
            out.add(t)
    for t in subterms(roots):
        if t.op == 'slice' and t.a[1].op == 'bin' and t.a[1].a[0] == '+':
            lo, hi = t.a[0], t.a[1]
            n = None
            for i in (1, 2):
                if hi.a[i] is lo:
                    n = hi.a[3 - i]
            if n is None and lo.op == 'bin' and lo.a[0] == '+':
                parts = []
                for x in (hi, lo):
                    fl, todo = [], [x]
                    while todo:
                        y = todo.pop()
                        if y.op == 'bin' and y.a[0] == '+':
                            todo += [y.a[1], y.a[2]]
                        else:
                            fl.append(y)
                    parts.append(fl)
                rest = list(parts[0])
                for y in parts[1]:
                    if y in rest:
                        rest.remove(y)
                    else:
                        break
                else:
                    if len(rest) == 1:
                        n = rest[0]
            if n is not None:
                add(n)
    for L in loops_of(roots):
        if L.kind == 'for':
            add(L.domain)
            if L.domain.op == 'len' and L.domain.a[0].op in ('param', 'attr'):
                out.add(L.domain)
    return frozenset(out)


def kinds_of(roots):
    """classes of the repository that some value is asked about"""
    return sorted({c.a[0].obj.qual for t in subterms(roots) if t.op == 'isinst' for c in (t.a[1].a if t.a[1].op == 'set' else (t.a[1],)) if c.op == 'cls'})


def heeds_nan(roots):
    """results of divisions by nought are looked at"""
    return any(t.op == 'isna' or t.op == 'lib' and t.a[0].split('.')[-1] in ('nan', 'inf', 'isinf', 'isfinite', 'nan_to_num', 'errstate', 'seterr')
               or t.op == 'attr' and t.a[1] in ('isna', 'isnull', 'fillna', 'dropna', 'notna', 'notnull') for t in subterms(roots))


def between(tr, x, y):
    """two comparisons with different bounds: a value between them"""
    if x.op != 'cmp' or y.op != 'cmp' or x.a[0] not in ('<', '>', '<=', '>=') or len(x.a) != len(y.a):
        return False
    for i in (1, 2):
        p, q = x.a[i], y.a[i]
        if p.op == q.op == 'const' and isinstance(p.a[0], (int, float)) and isinstance(q.a[0], (int, float)) and p.a[0] != q.a[0]:
            return tr.solve(y.a[3 - i], (Fraction(p.a[0]) + Fraction(q.a[0])) / 2, True)
    return False


def guided(a, b, salt, pool, tries=24, zips=(), counts=frozenset(), kinds=()):
    """random algebras steered towards the paths on which the two graphs are written differently"""
    n = 0
    nan = heeds_nan([a, b])
    found = sites(a, b)
    if len(found) > 8:          # first, last and some between
        found = found[:3] + [found[-1]] + found[3:-1:max(1, (len(found) - 4) // 3)][:3] + [found[-2]]
    for x, y, path in found:
        cond = isinstance(x, T) and x.op in ('cmp', 'and', 'or', 'not', 'truth') or isinstance(y, T) and y.op in ('cmp', 'and', 'or', 'not', 'truth')
        t0 = time.time()
        for k in range(tries):
            if time.time() - t0 > 9 / len(found):
                break
            seed = 500000 + k + 1000 * salt
            tr = Trial(seed, pool, zips, counts, kinds)
            try:
                for _ in range(2):
                    for c, want in path:
                        tr.steer(c, want)
                if cond and isinstance(x, T) and isinstance(y, T) and k % 3 == 2 and between(tr, x, y):
                    pass
                elif cond and isinstance(x, T) and isinstance(y, T) and k % 2:
                    # a condition: look for an algebra in which the two versions disagree
                    if bool(tr.truth(tr.ev(x))) == bool(tr.truth(tr.ev(y))):
                        tr.steer(x if k % 4 == 1 else y, not tr.truth(tr.ev(x)))
                        for c, want in path:
                            tr.steer(c, want)
                n += 1
                if tr.zero:         # met on the way here: see whether the reference meets it too
                    tr.zero, tr.memo, tr.alts = False, {}, {}
                vb = tr.ev(b)
                if tr.zero and not nan:
                    continue
                va = tr.ev(a)
            except (Poison, RecursionError):
                continue
            if not same(va, vb):
                return (seed, va, vb, tr), n
    return None, n


def differs(a, b, trials, salt=0, valid=None, limit=6):
    """-> None when congruent, else (trial seed, value a, value b)"""
    if a is b:
        return None
    pool = cmp_pool([a, b])
    zips = zips_of([a, b])
    counts = counts_of([a, b])
    kinds = kinds_of([a, b])
    ok = 0
    nan = heeds_nan([a, b])
    t0 = time.time()
    for k in range(trials):
        if k >= 200 and time.time() - t0 > limit or time.time() - t0 > 40:
            break
        if k == 60:
            d, n = guided(a, b, salt, pool, zips=zips, counts=counts, kinds=kinds)
            ok += n
            if d is not None:
                return d
            t0 = time.time()
        seed = k + 1000 * salt
        tr = Trial(seed, pool, zips, counts, kinds)
        try:
            vb = tr.ev(b)
            if tr.zero and not nan:
                continue        # the reference itself has no number to give
            va = tr.ev(a)
        except Poison:
            continue
        except RecursionError:
            continue
        ok += 1
        if not same(va, vb):
            return seed, va, vb, tr
    if valid is not None:
        valid.append(ok)
    return None


# ---- vocabulary of a graph -----------------------------------------------
def symbols(roots):
    out = set()
    for t in subterms(roots):
        if t.op == 'lib':
            out.add('lib:' + t.a[0])
        elif t.op == 'call' and t.a[0].op == 'attr':
            out.add('m:' + t.a[0].a[1])
        elif t.op == 'attr':
            out.add('attr:' + t.a[1])
        elif t.op == 'rcall' or t.op == 'new':
            out.add('fn:' + t.a[0])
        elif t.op in ('unk', 'mut', 'flatmap', 'last', 'broke', 'exc', 'excval', 'lfunc', 'star', 'dictof'):
            out.add('op:' + t.op)
        elif t.op == 'fn':
            out.add('lib:numpy.' + t.a[0])
    return out


def loops_of(roots):
    seen = {}
    for t in subterms(roots):
        for x in t.a:
            if isinstance(x, Loop):
                seen[x] = 1
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Loop):
                        seen[y] = 1
    return list(seen)


def skeleton(roots):
    from collections import Counter
    c = Counter()
    for L in loops_of(roots):
        d = 0
        p = L.parent
        while p is not None:
            d += 1
            p = p.parent
        c[(L.kind, d)] += 1
    return c


def carried(roots):
    """what the loops of a graph hand from turn to turn"""
    def flat(t):
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                yield x
                todo.extend(x.a)
    n, dep = 0, 0
    for L in loops_of(roots):
        n += len(L.recs)
        dep += any(x.op == 'rec' for x in flat(L.domain)) and L.kind == 'for'
    return n, dep


def work(roots, more=()):
    """the computations of a graph, counted"""
    from collections import Counter
    c = Counter()
    for t in subterms(roots):
        if t.op in more:
            c[t.op] += 1
        if t.op in ('bin', 'un', 'cmp', 'fn', 'rcall', 'new'):
            c[(t.op, t.a[0])] += 1
        elif t.op in ('call', 'mul', 'add', 'sub', 'div', 'pow', 'neg', 'sum', 'poly'):
            c[(t.op, show(t.a[0], 2) if t.op == 'call' and t.a[0].op != 'attr' else t.a[0].a[1] if t.op == 'call' else '')] += 1
    return c


def ancestors(repo, c):
    out, todo = set(), [c]
    while todo:
        x = todo.pop()
        for b in x.node.bases:
            out.add(ast.unparse(b).split('.')[-1])
        todo += repo.bases(x)
    return out


def mro(repo, c):
    out, todo = [], [c]
    while todo:
        x = todo.pop(0)
        if x not in out:
            out.append(x)
            todo += repo.bases(x)
    return out


SPECIAL = {'__eq__', '__ne__', '__hash__', '__bool__', '__len__', '__getattr__', '__getattribute__', '__setattr__', '__delattr__', '__new__', '__copy__',
           '__deepcopy__', '__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__del__', '__array__', '__iter__', '__contains__'}
SETTERS = {'seterr', 'seterrcall', 'simplefilter', 'filterwarnings', 'seed', 'setrecursionlimit', 'chdir', 'set_option', 'set_printoptions', 'setlocale', 'setattr',
           'delattr', 'setprecision', 'putenv', 'umask', 'excepthook', 'setcontext'}
RESHAPING = {'vectorize', 'contextmanager', 'singledispatch', 'abstractmethod', 'abstractproperty'}


def plain_special(f):
    """a special method that does what python does without it"""
    b = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if len(b) != 1 or not isinstance(b[0], ast.Return) or b[0].value is None:
        return False
    v, n = b[0].value, f.node.name
    t = ast.unparse(v)
    if n == '__ne__':
        return t in ('not self == other', 'not self.__eq__(other)')
    if n == '__bool__':
        return t == 'True'
    return t.startswith('super().%s(' % n) or t.startswith('object.%s(' % n)


FILE_OPS = ('shutil.', 'os.remove', 'os.makedirs', 'os.mkdir', 'os.rename', 'os.replace', 'os.symlink', 'os.unlink', 'builtins.open')
PROCESS = ('subprocess.', 'os.system')
TALK = ('print', 'warn', 'debug', 'info', 'warning', 'error', 'log')


def role(repo, e):
    """what an effect is with respect to order: check / run / file / write / None"""
    if e.kind in ('setattr', 'setitem', 'mutate', 'del'):
        t = e.payload[0]
        while isinstance(t, T) and t.op in ('attr', 'idx', 'mut', 'after', 'upd'):
            t = t.a[1] if t.op == 'mut' else t.a[0]
        return 'write' if isinstance(t, T) and t.op in ('param', 'global', 'lib', 'gvar') else None
    if e.kind != 'call':
        return None
    t = e.payload[0]
    while isinstance(t, T) and t.op in ('after', 'rd'):
        t = t.a[0]
    if not isinstance(t, T):
        return None
    if t.op == 'rcall':
        f = repo.byqual(t.a[0])
        if f is None:
            return None
        check, run = repo.traits(f)
        return 'run' if run else 'check' if check else 'write'
    if t.op == 'call':
        f = t.a[0]
        if f.op == 'lib':
            n = f.a[0]
            if n.startswith(PROCESS):
                return 'run'
            if n.startswith(FILE_OPS):
                return 'file'
            return None
        if f.op == 'attr':
            if f.a[1] in ('write', 'writelines'):
                return 'file'
            if f.a[1] in ('communicate', 'wait'):
                return 'run'
            if f.a[1] in ('put', 'create_dataset', 'create_group', 'to_csv', 'create'):
                return 'write'
    return None


def apart(side, i, j):
    """effects of two branches of which only one is taken"""
    g = {k: e.guards for k_, k, t, e in side}
    neg = [gnot(c) for c in g[i]]
    return any(c in neg for c in g[j])


class Checker:
    def __init__(self, repo, known, vocab, trials=1200, seed=1):
        self.seed = seed
        self.deadline = None
        self.repo = repo
        self.known = known
        self.vocab = vocab
        self.trials = trials
        self.specs = load_specs(repo)
        repo.specs = self.specs
        self.cache = {}
        self.results = {}
        self._callers = None
        self.stats = {'functions': 0, 'observables': 0, 'trials': 0, 'nodes': 0, 'identical': 0, 'seen_through': 0, 'tables': 0}

    def spec(self, qual):
        mod, _, path = qual.partition(':')
        sm = self.specs.get(mod)
        f = sm.get(path) if sm is not None else None
        if f is None:
            raise AnalysisError('no reference definition for %s' % qual)
        return f

    def summaries(self, qual, inline=frozenset(), tags=(None, None)):
        key = (qual, inline)
        if key in self.cache and tags == (None, None):
            return self.cache[key]
        sf = self.spec(qual)
        try:
            cf = self.repo.func(qual)
        except AnalysisError:
            if qual.rsplit('.', 1)[-1].split(':')[-1].startswith('_') and '__' not in qual:
                self.cache[key] = None
                return None
            raise
        sb = Builder(self.repo, self.known, inline=inline)
        sb.tags = tags[1]
        ss = sb.analyse(sf)
        # bind code parameters by position to the reference's
        sa_, ca = sf.node.args, cf.node.args
        sn = [x.arg for x in sa_.posonlyargs + sa_.args]
        cn = [x.arg for x in ca.posonlyargs + ca.args]
        cb = Builder(self.repo, self.known, inline=inline)
        cb.tags = tags[0]
        args = {}
        off = 0
        for i, n in enumerate(cn):
            if i == 0 and cf.cls is not None and not cf.static:
                continue
            if n in sn:
                args[n] = mk('param', n)
        unb = [n for n in sn if n not in cn]
        extra = [n for n in cn if n not in sn]
        if sf.cls is not None and not sf.static and sn and cn and sn[0] != cn[0]:
            unb = [n for n in unb if n != sn[0]]
            extra = [n for n in extra if n != cn[0]]
        for a, b in zip(unb, extra):
            if sn.index(a) == cn.index(b):
                args[b] = mk('param', a)
        dfl = cb.defaults(cf)
        for n in cn:
            if n not in args and n in dfl and not (cn.index(n) == 0 and cf.cls is not None):
                args[n] = dfl[n]
        cs = cb.analyse(cf, args=args)
        # defaults channel
        sd, cd = sb.defaults(sf), dfl
        names = [n for n in sn if n in sd] + [x.arg for x in sa_.kwonlyargs if x.arg in sd]
        dref = mk('list', *[sd[n] for n in names])
        inv = {v.a[0]: k for k, v in args.items() if v.op == 'param'}
        dcode = mk('list', *[cd.get(inv.get(n, n), mk('missing', n)) for n in names])
        r = (cf, sf, cs, ss, dcode, dref)
        if tags == (None, None):
            self.cache[key] = r
        elif tags == (SITES, SITES):
            return cb.histories(), sb.histories()
        return r

    def identities(self, qual, r, inline, channels):
        """instances made by equal calls at several places and used differently: each use must concern the right one"""
        counts = []
        for s in r[2:4]:
            n = {}
            for t in subterms([x[0] for x in observables(s).values()]):
                if t.op == 'new':
                    n[t.a[0]] = n.get(t.a[0], 0) + 1
            counts.append(n)
        if not counts[0] or not counts[1]:
            return []
        hc, hs = self.summaries(qual, inline, (SITES, SITES))
        maps, kinds = [], []
        for h in (hc, hs):
            by = {}
            for t, k in h.values():
                by.setdefault(t, []).append(k)
            many = {t for t, ks in by.items() if len(set(ks)) > 1}
            maps.append({site: k for site, (t, k) in h.items() if t in many})
            kinds.append(sorted((t.a[0], tuple(sorted(set(by[t])))) for t in many))
        if not maps[1] or kinds[0] != kinds[1]:
            return []
        self.stats['identities'] = self.stats.get('identities', 0) + len(maps[1])
        return self.compare(qual, self.summaries(qual, inline, tuple(maps)), channels)

    def order(self, qual, r):
        """effects whose order matters: a check before what it protects, a program run and the files around it"""
        cf, sf, cs, ss = r[:4]
        init = qual.endswith('.__init__')
        sides = []
        for s in (cs, ss):
            x = []
            for i, e in enumerate(s.effects):
                k = role(self.repo, e)
                if k == 'write' and init and e.kind == 'setattr':
                    k = None
                if k is not None:
                    x.append((k, i, mk('eff', (), tuple(e.loops), (e.kind,) + tuple(e.payload)), e))
            sides.append(x)
        kinds = {k for k, i, t, e in sides[1]}
        if not ('check' in kinds and kinds & {'write', 'file', 'run'} or 'run' in kinds and 'file' in kinds):
            return []
        found = []
        for k, i, t, e in sides[1]:
            n = [y for y in sides[1] if isomorphic(t, y[2])]
            m = [y for y in sides[0] if y[0] == k and isomorphic(y[2], t)]
            if len(n) == 1 and len(m) == 1:
                found.append((k, i, m[0][1], m[0][3]))
        out = []
        for x in found:
            for y in found:
                if x[1] < y[1] and (x[0] == 'check' and y[0] in ('write', 'file', 'run') or {x[0], y[0]} == {'run', 'file'}):
                    self.stats['orders'] = self.stats.get('orders', 0) + 1
                    if x[2] > y[2] and not out and not apart(sides[0], x[2], y[2]):
                        out.append(Verdict('violation', '%s happens before %s' % (show(mk('tuple', *y[3].payload), 4), show(mk('tuple', *x[3].payload), 4)),
                                           y[3].line, y[3].file, qual.split(':')[1], 'order of effects'))
        return out

    def check(self, qual, channels=DEFAULT_CHANNELS):
        """-> list of Verdict (one per channel that does not hold), counts in self.stats"""
        if qual in self.results:
            return self.results[qual]
        r = self.summaries(qual)
        if r is None:
            self.results[qual] = []
            return []
        self.stats['functions'] += 1
        out = self.compare(qual, r, channels)
        # calls present on one side only: look through the functions called and compare again
        inline = frozenset()
        for _ in range(3):
            if not out:
                break
            cf, sf, cs, ss = r[:4]
            ca = symbols([x[0] for x in observables(cs).values()])
            sa_ = symbols([x[0] for x in observables(ss).values()])
            more = {x[3:] for x in ca ^ sa_ if x.startswith('fn:')} & self.known
            if not more - inline:
                break
            inline = inline | frozenset(more)
            r = self.summaries(qual, inline)
            o2 = self.compare(qual, r, channels)
            if not o2:
                self.stats['seen_through'] += 1
                out = []
        if not out:
            out = self.identities(qual, r, inline, channels)
        if not out:
            out = self.order(qual, r)
        self.results[qual] = out
        return out

    def compare(self, qual, r, channels):
        cf, sf, cs, ss, dcode, dref = r
        co, so = observables(cs), observables(ss)
        co['defaults'], so['defaults'] = (dcode, []), (dref, [])
        out = []
        for ch in channels:
            a, b = co[ch][0], so[ch][0]
            self.stats['observables'] += 1
            if a is b or isomorphic(a, b):
                self.stats['identical'] += 1
                continue
            self.stats['nodes'] += sum(1 for _ in subterms([a, b]))
            n = []
            late = self.deadline is not None and time.time() > self.deadline
            d = differs(a, b, 50 if late else self.trials, salt=(H(qual, ch) + self.seed - 1) % 1000, valid=n, limit=6 if self.trials <= 1200 else 60)
            self.stats['trials'] += n[0] if n else 1
            if d is None:
                continue
            out.append(self.classify(qual, ch, cf, cs, ss, co, so, d))
        # an effect that is not recognised may be the missing one
        if any(v.status == 'undecided' for v in out):
            for v in out:
                if v.what.startswith('missing'):
                    v.status, v.detail = 'undecided', v.detail + '; effects elsewhere in the function were not recognised'
        return out

    def callers(self, qual):
        """contracts whose reference definition looks through this private function"""
        m = self._callers
        if m is None:
            m = self._callers = {}
            for mod, sm in self.specs.items():
                for p in sm.paths():
                    q = mod + ':' + p
                    f = sm.get(p)
                    if f is None:
                        continue
                    s = Builder(self.repo, self.known).analyse(f)
                    for x in s.inlined:
                        m.setdefault(x, set()).add(q)
        return sorted(m.get(qual.replace(':', '.'), set()) - {qual})

    def replaced(self, qual):
        """the definition is gone but the name is still provided in a form outside the analysed subset"""
        mod, _, path = qual.partition(':')
        m = self.repo.modules.get(mod)
        if m is None:
            return False
        parts = path.split('.')
        c = m.classes.get(parts[0])
        if len(parts) == 1:
            return self.repo.resolve(m, parts[0]) is not None
        while c is not None:
            if parts[1] in c.attrs:
                return True
            b = self.repo.bases(c)
            c = b[0] if b else None
        return False

    def callees(self, quals):
        """contracts of the functions these reference definitions call"""
        have = {m + '.' + p: m + ':' + p for m, s in self.specs.items() for p in s.paths()}
        out = []
        for q in quals:
            s = Builder(self.repo, self.known).analyse(self.spec(q))
            for x in symbols([v[0] for v in observables(s).values()]):
                if x.startswith('fn:'):
                    for k in (x[3:], x[3:] + '.__init__'):
                        if k in have and have[k] not in out:
                            out.append(have[k])
        return sorted(out)

    def forms(self, qual):
        """what the contract's graphs do not show: how the function is reached, the order of its parameters,
        the ancestors of its class and the special methods python itself calls"""
        mod, path = qual.split(':')
        m, sm = self.repo.modules.get(mod), self.specs.get(mod)
        parts = path.split('.')
        out = []
        if m is None or sm is None:
            return out
        sc = sm.spec_classes.get(parts[0])
        c = m.classes.get(parts[0])
        if len(parts) == 1:
            cf, sf = m.funcs.get(path), sm.funcs.get(path)
        elif sc is None or c is None:
            return out
        elif len(parts) == 3:
            cf, sf = c.setters.get(parts[1]), sc.setters.get(parts[1])
        else:
            cf, sf = c.methods.get(parts[1]), sc.methods.get(parts[1])
        if cf is not None and sf is not None:
            kind = lambda f: [n for n, v in (('property', f.isprop), ('classmethod', f.classm), ('staticmethod', f.static)) if v]
            if kind(cf) != kind(sf) and not (set(kind(cf)) ^ set(kind(sf))) <= {'classmethod', 'staticmethod'}:
                out.append(Verdict('violation', '%s is a %s where a %s is required' % (path, (kind(cf) or ['plain function'])[0], (kind(sf) or ['plain function'])[0]),
                                   cf.node.lineno, m.rel, path, 'form'))
            for d in cf.decos:
                if d in RESHAPING and d not in sf.decos:
                    out.append(Verdict('violation', 'decorator %s changes how %s is called' % (d, path), cf.node.lineno, m.rel, path, 'form'))
            name = parts[-1]
            if not name.startswith('_') or name.startswith('__'):
                sn, cn = ([x.arg for x in f.node.args.posonlyargs + f.node.args.args] for f in (sf, cf))
                if sn != cn[:len(sn)] and set(sn) <= set(cn):
                    out.append(Verdict('violation', 'positional parameters (%s) where (%s) are required' % (', '.join(cn), ', '.join(sn)),
                                       cf.node.lineno, m.rel, path, 'form'))
        if sc is not None and c is not None:
            k = parts[0]
            anc = ancestors(self.repo, c)
            for b in [ast.unparse(b).split('.')[-1] for b in sc.node.bases]:
                if b != 'object' and b not in anc:
                    out.append(Verdict('violation', 'class %s no longer derives from %s' % (k, b), c.node.lineno, m.rel, k, 'form'))
            for n in sorted(SPECIAL):
                f = c.methods.get(n)
                if f is None or n in sc.methods or n in sc.attrs or plain_special(f):
                    continue
                up = [x.methods[n] for x in mro(self.repo, c)[1:] if n in x.methods]
                if up and ast.dump(ast.Module(up[0].node.body, [])) == ast.dump(ast.Module(f.node.body, [])):
                    continue
                subs = [s for s in sm.spec_classes.values() if n in s.methods and k in ancestors(self.repo, s)]
                if subs:
                    continue            # moved up from the classes below
                out.append(Verdict('violation', 'class %s gains %s, which changes what python does with its instances' % (k, n), f.node.lineno, m.rel, k, 'form'))
        return out

    def verdicts(self, qual):
        """check(), with a private function judged by what its public callers do with it"""
        return self.judged(qual) + self.forms(qual)

    def judged(self, qual):
        out = self.check(qual)
        name = qual.split(':')[1].split('.')[-1]
        if out and name.startswith('_') and not name.startswith('__'):
            seen, todo, pub = {qual}, [qual], []
            while todo:
                for c in self.callers(todo.pop()):
                    if c in seen:
                        continue
                    seen.add(c)
                    n = c.split(':')[1].split('.')[-1]
                    if n.startswith('_') and not n.startswith('__'):
                        todo.append(c)
                    else:
                        pub.append(c)
            if pub:
                st = [v.status for c in pub for v in self.check(c)]
                if 'violation' in st:
                    return out
                if not st:
                    return []
                for v in out:
                    v.status = 'undecided'
        return out

    def check_globals(self, mod):
        """module-level tables and constants against the reference's"""
        m, sm = self.repo.modules.get(mod), self.specs.get(mod)
        if m is None or sm is None:
            raise AnalysisError('module %s vanished' % mod)
        ce, se = module_env(self.repo, m, self.known), module_env(self.repo, sm, self.known)
        out = []
        for name in sorted(k for k in se if isinstance(k, str)):
            self.stats['tables'] += 1
            b = se[name]
            a = ce.get(name)
            if a is None:
                if not name.startswith('_') and self.repo.resolve(m, name) is None:
                    out.append(Verdict('violation', 'module-level name %s is gone' % name, 1, m.rel, name, 'globals'))
                continue
            if a is b or isomorphic(a, b):
                continue
            d = differs(a, b, 60, salt=7)
            if d is None:
                continue
            line = 1
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    line = n.lineno
            what = 'table %s: ' % name
            if a.op == b.op == 'dict':
                ka, kb = dict(a.a), dict(b.a)
                diff = [k for k in list(kb) + [k for k in ka if k not in kb] if ka.get(k) is not kb.get(k)]
                what += 'entries differ for keys %s' % [show(k, 2) for k in diff[:5]]
            elif a.op == b.op == 'list':
                diff = [i for i, (x, y) in enumerate(zip(a.a, b.a)) if x is not y]
                what += '%d elements, %d required; first difference at %s' % (len(a.a), len(b.a), diff[:3])
            else:
                what += '%s where %s is required' % (show(a, 5), show(b, 5))
            bad = any(t.op in ('unk', 'unbound') for t in subterms([a]))
            out.append(Verdict('undecided' if bad else 'violation', what[:500], line, m.rel, name, 'globals'))
        # statements at import that set the state of libraries or replace what a class defines
        given = {ast.unparse(n) for n in ast.walk(sm.tree) if isinstance(n, (ast.Expr, ast.Assign))}
        todo = list(m.tree.body)
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) or ast.unparse(n) in given:
                continue
            if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test):
                continue
            if isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.ClassDef)):
                todo += n.body + getattr(n, 'orelse', []) + getattr(n, 'finalbody', [])
                continue
            what = None
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                f = ast.unparse(n.value.func)
                if f.split('.')[-1] in SETTERS and (f.split('.')[0] in m.imports or f == 'setattr'):
                    what = f + '() at import'
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    b = t
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    if b is t or not isinstance(b, ast.Name):
                        continue
                    if b.id in m.imports:
                        what = 'assignment to %s at import' % ast.unparse(t)
                    c = m.classes.get(b.id)
                    if isinstance(t, ast.Attribute) and t.value is b and c is not None and (t.attr in SPECIAL or t.attr in c.methods or t.attr in c.setters):
                        what = '%s replaced at import' % ast.unparse(t)
            if what:
                out.append(Verdict('violation', what, n.lineno, m.rel, '<module>', 'globals'))
        # class-level constants
        for k, sc in sm.spec_classes.items():
            c = m.classes.get(k)
            if c is None:
                out.append(Verdict('violation', 'class %s is gone' % k, 1, m.rel, k, 'globals'))
                continue
            for n, v in sc.attrs.items():
                self.stats['tables'] += 1
                if n not in c.attrs or ast.dump(c.attrs[n]) != ast.dump(v):
                    out.append(Verdict('violation', 'class attribute %s.%s differs' % (k, n), c.node.lineno, m.rel, k, 'globals'))
            sb = [b.qual for b in self.repo.bases(sc)] if False else [ast.unparse(b).split('.')[-1] for b in sc.node.bases]
            for b in sb:
                if b != 'object' and b not in ancestors(self.repo, c):
                    out.append(Verdict('violation', 'class %s no longer derives from %s' % (k, b), c.node.lineno, m.rel, k, 'globals'))
        return out

    def classify(self, qual, ch, cf, cs, ss, co, so, d):
        a, b = co[ch][0], so[ch][0]
        file, line = cf.module.rel, cf.node.lineno
        seed, va, vb, tr = d
        what = ''
        if ch in ('stores', 'calls', 'yields', 'swallow', 'out'):
            try:
                sv = [canon(tr.ev(x)) for x, e in so[ch][1] if tr.ev(x) is not None]
                for x, e in co[ch][1]:
                    v = tr.ev(x)
                    if v is not None and canon(v) not in sv:
                        line, file = e.line, e.file
                        what = 'unexpected %s: %s' % (e.kind, show(mk('tuple', *e.payload), 6))
                        break
                else:
                    cv = [canon(tr.ev(x)) for x, e in co[ch][1] if tr.ev(x) is not None]
                    for x, e in so[ch][1]:
                        v = tr.ev(x)
                        if v is not None and canon(v) not in cv:
                            what = 'missing %s: %s' % (e.kind, show(mk('tuple', *e.payload), 6))
                            break
            except (Poison, RecursionError):
                pass
        if ch == 'ret':
            x, y = self.descend(a, b, tr)
            what = 'value %s where %s is required' % (show(x, 6), show(y, 6))
        if ch == 'defaults':
            what = 'parameter defaults %s where %s are required' % (show(a, 4), show(b, 4))
        und = self.undecidable(a, b, cs, ss, ch)
        return Verdict('undecided' if und else 'violation', what[:600], line, file, qual.split(':')[1], und or ch)

    def descend(self, a, b, tr):
        """follow gates taken by the trial to the differing leaves"""
        def leaf(t):
            n = 0
            while t.op == 'ite' and n < 200:
                t = t.a[1] if tr.truth(tr.ev(t.a[0])) else t.a[2]
                n += 1
            return t
        x, y = leaf(a), leaf(b)
        for _ in range(12):
            if isinstance(x, T) and isinstance(y, T) and x.op == y.op and len(x.a) == len(y.a) and x.op not in ('const', 'map', 'out', 'rec'):
                diff = []
                for p, q in zip(x.a, y.a):
                    if isinstance(p, T) and isinstance(q, T):
                        try:
                            if not same(tr.ev(p), tr.ev(q)):
                                diff.append((leaf(p), leaf(q)))
                        except Poison:
                            pass
                if len(diff) == 1:
                    x, y = diff[0]
                    continue
            break
        return x, y

    def undecidable(self, a, b, cs, ss, ch=None):
        if cs.unknown:
            return 'constructs outside the analysed subset: %s' % sorted(set(cs.unknown))
        sa_, sb_ = symbols([a]), symbols([b])
        new = sa_ - sb_
        bad = [x for x in new if x.startswith('op:')]
        if bad:
            return 'opaque construct %s' % bad
        unk = [x for x in new if not x.startswith('op:') and x not in self.vocab]
        if unk:
            return 'vocabulary outside the inventory: %s' % sorted(unk)
        ka, kb = skeleton([a]), skeleton([b])
        if ka != kb:
            if ka - kb:
                return 'loop structure differs: %r vs %r' % (dict(ka), dict(kb))
            # loops vanished: a violation only when they carried effects
            if not (b.op in ('heapfx', 'bag', 'outfx', 'trace') and len(b.a) != len(a.a)) and len(cs.made) < len(ss.made):
                ca, cb = work([a]), work([b])
                # what was done to each element is done once to their sum: nothing but sums of values can be restated so
                summed = ch == 'calls' and ca - cb and {k[0] for k in ca - cb} <= {'sum'}
                if (ca - cb or not cb - ca) and not summed:
                    return 'loop replaced'
        if not any(t.op == 'rec' for t in subterms([b])) and any(t.op in ('ex', 'first') and any(x.op == 'rec' and x.a[0] is t.a[0] for x in subterms([t.a[1]])) for t in subterms([a])):
            return 'a turn found by what earlier turns left'
        na, nb = carried([a]), carried([b])
        if na[0] < nb[0] or na[1] > nb[1]:
            ca, cb = work([a], ('len', 'idx')), work([b], ('len', 'idx'))
            if ca - cb and cb - ca:
                return 'values handed from turn to turn differ: %r vs %r' % (na, nb)
        return None
