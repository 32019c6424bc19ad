"""Random interpretation of value graphs (Gulwani & Necula style).

Two nodes are judged congruent when they take the same value in every one of K
random algebras.  Arithmetic, comparisons, boolean gates, constant containers and
text formatting keep their meaning; every other function symbol (library calls,
attribute reads, subscripts of unknown objects, ...) is an uninterpreted function,
i.e. a random but consistent map.  Loops are never iterated: the loop position is a
random atom and loop-carried values are identified by the colour refinement of
their (initial value, update) pair.
"""
import hashlib
import math
import struct
from fractions import Fraction

from .terms import T, Loop, mk, show


class Poison(Exception):
    pass


class Atom(Fraction):
    __slots__ = ('key',)

    def __new__(cls, val, key):
        self = Fraction.__new__(cls, val)
        self.key = key
        return self


class Text(str):
    """an uninterpreted value that happens to be this text"""
    __slots__ = ('key',)

    def __new__(cls, val, key):
        self = str.__new__(cls, val)
        self.key = key
        return self


# class of the repository -> its qualified name and those of its ancestors
FAMILY = {}

# how the functions of the repository are declared: qualified name -> (defaults by position, number of values returned)
SIGNATURES = {}


def H(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'little')


def canon(v):
    """hashable canonical form of a value"""
    if isinstance(v, str):
        return ('str', str(v))
    if v is None or isinstance(v, (bool, bytes)):
        return (type(v).__name__, v)
    if v is Ellipsis:
        return ('...',)
    if isinstance(v, (int, Fraction)):
        return ('n', str(Fraction(v)))
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return ('f', repr(v))
        if v == int(v) and abs(v) < 1e15:
            return ('n', str(int(v)))
        return ('f', '%.7g' % v)
    if isinstance(v, tuple):
        return tuple(canon(x) if not isinstance(x, str) or i else x for i, x in enumerate(v))
    if isinstance(v, complex):
        return ('c', '%.7g' % v.real, '%.7g' % v.imag)
    return ('?', repr(v))


def same(a, b):
    num = (int, float, Fraction)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, num) and isinstance(b, num):
        fa, fb = float(a), float(b)
        if fa == fb:
            return True
        if math.isinf(fa) or math.isinf(fb) or math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        return abs(fa - fb) <= 1e-6 * max(abs(fa), abs(fb), 1e-300)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return canon(a) == canon(b)


NUM = (int, float, Fraction)


class Hole:
    """an uninterpreted value that happens to be None"""
    def __init__(self, key):
        self.key = key


def plain(c, want):
    """a condition and its sense without negations"""
    while True:
        if c.op == 'not':
            c, want = c.a[0], not want
        elif c.op == 'cmp' and c.a[0] in ('!=', 'is not', 'not in', '<=', '>='):
            op, a, b = c.a
            c, want = mk('cmp', {'!=': '==', 'is not': 'is', 'not in': 'in', '<=': '>', '>=': '<'}[op], a, b), not want
        elif c.op == 'cmp' and c.a[0] == '>':
            c = mk('cmp', '<', c.a[2], c.a[1])
        else:
            return c, want


class Trial:
    def __init__(self, seed, pool, zips=(), counts=frozenset(), kinds=()):
        self.seed = seed
        self.kinds = kinds          # classes of the repository that values are asked about
        self.held = {}
        self.force = False
        self.nil = None
        self.fixkind = {}
        self.counts = counts
        self.zips = zips
        self.zclass = None
        st = seed % 3
        self.style = st
        # style 0: tiny integers (equalities happen), 1: small integers, 2: rationals
        act = []
        if pool:
            n = len(pool)
            k = min(4, n)
            for j in range(k):
                act.append(pool[H(seed, 'act', j) % n])
        self.active = act
        # how often a symbol is one of the constants compared with: seldom enough, in some trials, for long products not to vanish
        self.rate = (6, 6, 3, 1)[H(seed, 'rate') % 4]
        self.memo = {}
        self.recval = {}
        self.loopk = {}
        self.steps = 0
        self.cols = {}
        # interpretation of chosen symbols, fixed by steering
        self.fix = {}
        self.fixtruth = {}
        self.fixin = {}
        self.fixlt = {}
        # turns other than the generic one
        self.alt = {}
        self.alts = {}
        self.zero = False           # something was divided by nought

    # ---- atoms -------------------------------------------------------
    def atom(self, *key, integer=False):
        h = H(self.seed, key)
        if h in self.fix:
            c = self.fix[h]
            if isinstance(c, NUM) and not isinstance(c, (bool, float)):
                return Atom(c, h)
            if not integer:
                return Text(c, h) if isinstance(c, str) else c
        elif self.active:
            g = H(self.seed, 'ch', h)
            if g % 10 < self.rate:
                c = self.active[(g // 16) % len(self.active)]
                if isinstance(c, (int, Fraction)) and not (integer and c < 0):
                    return Atom(c, h)
                if c is None and not integer:
                    self.nil = h
                    return None
                if isinstance(c, str) and not integer:
                    return Text(c, h)
        if self.style == 0:
            v = Fraction(h % 4)
        elif self.style == 1 or integer:
            v = Fraction(1 + h % 12)
        else:
            v = Fraction(1 + h % 997, 331)
        if not integer and (h >> 40) % 10 < 3:
            v = -v
        return Atom(v, h)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Atom):
            if v.key in self.fixtruth:
                return self.fixtruth[v.key]
            return bool((H(self.seed, 'truth', v.key) >> 3) & 1)
        if v is None:
            return False
        if isinstance(v, NUM) or isinstance(v, (str, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            if v and v[0] in ('L', 'S', 'D'):
                return len(v) > 1
            if v and v[0] == 'CAT':
                return True
            if v and v[0] == 'CC' and any(isinstance(x, tuple) and x[:1] == ('L',) for x in v[1:]):
                return True
            return bool((H(self.seed, 'truth', canon(v)) >> 3) & 1)
        return True

    # ---- steering ----------------------------------------------------
    def reset(self):
        self.memo = {}
        self.recval = {}
        self.loopk = {}
        self.cols = {}
        self.zclass = None
        self.alts = {}

    def steer(self, c, want, depth=0):
        """try to make the condition c evaluate to want by choosing the meaning of uninterpreted symbols"""
        if depth > 12:
            return False
        ok = bool(self.truth(self.ev(c))) == want or self.bend(c, want, depth)
        if not ok and not self.force and depth < 3 and c.op in ('cmp', 'not', 'truth'):
            # give a symbol another meaning, as long as what was reached so far stays
            kept, truths = dict(self.fix), dict(self.fixtruth)
            self.force = True
            ok = self.bend(c, want, depth) and bool(self.truth(self.ev(c))) == want and all(bool(self.truth(self.ev(y))) == w for y, w in self.held.items())
            self.force = False
            if not ok:
                self.fix, self.fixtruth = kept, truths
                self.reset()
        if ok:
            self.hold(c, want)
        return ok

    def may(self, key):
        return self.force or key not in self.fix

    def hold(self, c, want):
        """remember what was reached; the last open part of a conjunction that fails has to fail"""
        if c.op in ('cmp', 'not', 'truth', 'isinst'):
            y, w = plain(c, want)
            self.held[y] = w
        elif c.op in ('and', 'or'):
            w = c.op == 'and'
            if want == w:
                for x in c.a:
                    self.hold(x, w)
                return
            left = []
            for x in c.a:
                y, v = plain(x, w)
                if self.held.get(y) != v:
                    left.append(x)
            if len(left) == 1 and bool(self.truth(self.ev(left[0]))) != w:
                self.hold(left[0], not w)

    def bend(self, c, want, depth):
        o = c.op
        if o == 'not':
            return self.steer(c.a[0], not want, depth + 1)
        if o == 'truth':
            v = self.grip(c.a[0])
            if isinstance(v, (Text, Hole)) and self.may(v.key):
                self.fix[v.key] = Fraction(1 + H(self.seed, 'tv', v.key) % 9)
                self.fixtruth[v.key] = want
                self.reset()
                return True
            if isinstance(v, Atom):
                self.fixtruth[v.key] = want
                if want and v.key in self.fix and not self.fix[v.key]:
                    return False
                self.reset()
                return True
            if isinstance(c.a[0], T) and c.a[0].op in ('and', 'or', 'not', 'cmp', 'ite', 'booland', 'boolor'):
                return self.steer(c.a[0], want, depth + 1)
            return False
        if o in ('and', 'or', 'booland', 'boolor'):
            if (o in ('and', 'booland')) == want:
                for _ in range(2):
                    ok = all([self.steer(x, want, depth + 1) for x in c.a])
                    if ok and bool(self.truth(self.ev(c))) == want:
                        return True
                return False
            if not c.a:
                return False
            k = H(self.seed, 'pick', depth) % len(c.a)
            alts = [c.a[(j + k) % len(c.a)] for j in range(len(c.a))]
            free = []
            for x in alts:
                y, w = plain(x, want)
                if self.held.get(y, w) == w:
                    free.append(x)
            for x in free or alts:
                if self.steer(x, want, depth + 1):
                    return True
            return False
        if o == 'ex':
            return self.steer(c.a[1], want, depth + 1) and bool(self.truth(self.ev(c))) == want
        if o == 'isinst' and self.kinds:
            cs = [x.a[0].obj.qual for x in (c.a[1].a if c.a[1].op == 'set' else (c.a[1],)) if x.op == 'cls']
            v = self.ev(c.a[0])
            if cs and v is not None:
                r = repr(canon(v))
                if r in self.fixkind:
                    return False
                ks = [k for k in self.kinds if bool(FAMILY[k] & set(cs)) == want] + ([] if want else [None])
                if not ks:
                    return False
                self.fixkind[r] = ks[H(self.seed, 'fk', r) % len(ks)]
                self.reset()
                return True
        if o == 'isinst':
            v = self.ev(c.a[0])
            if v is None:
                return False
            self.fixtruth[H(self.seed, ('isinst', canon(v), self.key(c.a[1])))] = want
            self.reset()
            return True
        if o == 'ite':
            return self.steer(c.a[1] if self.truth(self.ev(c.a[0])) else c.a[2], want, depth + 1)
        if o == 'cmp':
            op, a, b = c.a
            if op in ('!=', 'is not', 'not in', '<=', '>='):
                op, want = {'!=': '==', 'is not': 'is', 'not in': 'in', '<=': '>', '>=': '<'}[op], not want
            if op == '>':
                op, a, b = '<', b, a
            x, y = self.grip(a), self.grip(b)
            if op in ('==', 'is'):
                if want:
                    return self.seteq(x, y) or self.solve(a, y) or self.solve(b, x)
                for v, w in ((x, y), (y, x)):
                    if isinstance(v, (Atom, Text, Hole)) and self.may(v.key):
                        self.fix[v.key] = Fraction(13 + H(self.seed, 'ne', v.key) % 50)
                        self.reset()
                        return True
                for t, w in ((a, y), (b, x)):
                    if t.op in ('bin', 'fn', 'un') and isinstance(w, (int, Fraction)) and not isinstance(w, bool) and self.solve(t, Fraction(w) + 1 + H(self.seed, 'ne') % 3, self.force):
                        return True
                return False
            if op == 'in':
                y = None if isinstance(y, Hole) else y
                if isinstance(y, tuple) and y[:1] in (('L',), ('S',), ('D',)):
                    if want:
                        el = [e[0] if y[0] == 'D' else e for e in y[1:]]
                        if not el:
                            return False
                        return self.seteq(x, el[H(self.seed, 'el', x.key if isinstance(x, Hole) else repr(canon(x))) % len(el)])
                    if isinstance(x, (Atom, Text, Hole)) and self.may(x.key):
                        self.fix[x.key] = Fraction(1013 + H(self.seed, 'ni', x.key) % 50)
                        self.reset()
                        return True
                    return False
                if isinstance(y, str) and isinstance(x, str):
                    return False
                self.fixin[repr((canon(None if isinstance(x, Hole) else x), canon(y)))] = want
                self.reset()
                return True
            if op == '<':
                if any(isinstance(w, float) and not math.isfinite(w) for w in (x, y)):
                    return False
                for v, w, sgn in ((x, y, -1), (y, x, 1)):
                    if isinstance(v, (Atom, Text, Hole)) and self.may(v.key) and isinstance(w, NUM):
                        d = 1 + H(self.seed, 'd', v.key) % 3
                        if not want and H(self.seed, 'tie', v.key) % 3 == 0:
                            d = 0
                        self.fix[v.key] = Fraction(w) + (sgn * d if want else -sgn * d)
                        self.reset()
                        return True
                for t, v, w, sgn in ((a, x, y, -1), (b, y, x, 1)):
                    if isinstance(w, NUM) and not isinstance(w, (bool, float)) and isinstance(v, NUM):
                        d = 1 + H(self.seed, 'd', repr(t)) % 3
                        if not want and H(self.seed, 'tie', repr(t)) % 3 == 0:
                            d = 0
                        if self.solve(t, Fraction(w) + (sgn * d if want else -sgn * d)):
                            return True
                return False
            return False
        v = self.ev(c)
        if isinstance(v, Atom):
            self.fixtruth[v.key] = want
            self.reset()
            return True
        return False

    def solve(self, t, want, over=False, depth=0):
        """choose the uninterpreted part of an arithmetic term so that it takes this value"""
        if isinstance(want, bool) or not isinstance(want, (int, Fraction)) or depth > 6:
            return False
        v = self.ev(t)
        if isinstance(v, Atom) and t.op not in ('bin', 'un'):
            if not self.may(v.key) and not over:
                return False
            self.fix[v.key] = Fraction(want)
            self.reset()
            return True
        if t.op == 'un' and t.a[0] == '-':
            return self.solve(t.a[1], -want, over, depth + 1)
        if t.op == 'fn' and len(t.a) == 2 and t.a[0] == 'sqrt' and want >= 0:
            return self.solve(t.a[1], want * want, over, depth + 1)
        if t.op != 'bin':
            return False
        op, a, b = t.a
        x, y = self.num(self.ev(a)), self.num(self.ev(b))
        if x is None or y is None or any(isinstance(v, float) and not math.isfinite(v) for v in (x, y)):
            return False
        x, y = Fraction(x), Fraction(y)
        w = Fraction(want)
        if op in ('//', '%') and b.op == 'const' and y > 0:
            q, r = x // y, x % y
            if op == '%':
                return 0 <= w < y and self.solve(a, q * y + w, True, depth + 1)
            return self.solve(a, w * y + r, True, depth + 1)
        if op == '+':
            return self.solve(a, w - y, over, depth + 1) or self.solve(b, w - x, over, depth + 1)
        if op == '-':
            return self.solve(a, w + y, over, depth + 1) or self.solve(b, x - w, over, depth + 1)
        if op == '*':
            return y != 0 and self.solve(a, w / y, over, depth + 1) or x != 0 and self.solve(b, w / x, over, depth + 1)
        if op == '/':
            return y != 0 and self.solve(a, w * y, over, depth + 1)
        return False

    def grip(self, t):
        """the value of a term, None included, in a form that can be given another meaning"""
        while t.op == 'ite':
            t = t.a[1] if self.truth(self.ev(t.a[0])) else t.a[2]
        v = self.ev(t)
        if v is None and t.op != 'const':
            self.memo.pop(id(t), None)
            self.nil = None
            if self.ev(t) is None and self.nil is not None:
                return Hole(self.nil)
        return v

    def seteq(self, x, y):
        for v, w in ((x, y), (y, x)):
            if isinstance(v, (Atom, Text, Hole)) and self.may(v.key):
                if isinstance(w, Hole):
                    self.fix[v.key] = None
                elif isinstance(w, Atom):
                    self.fix[v.key] = Fraction(w)
                elif w is None or isinstance(w, (str, bytes, bool) + NUM):
                    self.fix[v.key] = w
                else:
                    return False
                self.reset()
                return True
        return False

    def eq(self, a, b):
        if isinstance(a, NUM) and isinstance(b, NUM) and not isinstance(a, bool) and not isinstance(b, bool):
            return same(a, b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if same(a, b):
                return True
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and a[:1] in (('L',), ('D',), ('S',)) and len(a) != len(b):
                return False
            if a is None or b is None:
                return False
            return H(self.seed, 'eqt', sorted([repr(canon(a)), repr(canon(b))])) % 100 < 30
        return canon(a) == canon(b)

    def lt(self, a, b):
        if (isinstance(a, Text) or a is None) and type(b) is not str or (isinstance(b, Text) or b is None) and type(a) is not str:
            p, q = self.num(a), self.num(b)
            if p is not None and q is not None:
                return p < q
        if isinstance(a, NUM) and isinstance(b, NUM):
            return a < b
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        if canon(a) == canon(b):
            return False
        ka, kb = repr(canon(a)), repr(canon(b))
        lo = H(self.seed, 'lt', sorted([ka, kb])) & 2
        return bool(lo) == (ka < kb)

    def contains(self, x, c):
        if isinstance(c, tuple) and c and c[0] in ('L', 'S'):
            return any(self.eq(x, y) for y in c[1:])
        if isinstance(c, tuple) and c and c[0] == 'D':
            return any(self.eq(x, kv[0]) for kv in c[1:])
        if isinstance(c, tuple) and c and c[0] == 'CC':
            return any([self.contains(x, y) for y in c[1:]])
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if self.fixin:
            k = repr((canon(x), canon(c)))
            if k in self.fixin:
                return self.fixin[k]
        return bool(H(self.seed, 'in', canon(x), canon(c)) & 4)

    # ---- loops -------------------------------------------------------
    def dom(self, t):
        """number of turns of a loop; sequences walked side by side have equal lengths"""
        if self.zclass is None:
            self.settle()
        if t.op == 'zipdom':
            t = t.a[0]
        return self.zrep(repr(canon(self.ev(t))))

    def settle(self):
        """classes of equally long sequences: evaluated afresh until they no longer change"""
        kept = self.memo, self.recval, self.loopk, self.cols, self.alts, self.alt
        cls = {}
        for _ in range(6):
            self.memo, self.recval, self.loopk, self.cols, self.alts, self.alt = {}, {}, {}, {}, {}, {}
            self.zclass = cls
            new = {}

            def rep(v):
                while v in new:
                    v = new[v]
                return v
            for z in self.zips:
                vs = sorted({rep(repr(canon(self.ev(x)))) for x in z.a})
                for v in vs[1:]:
                    new[v] = vs[0]
            # every member points to the least of its class
            least = {}
            for v in set(new) | set(new.values()):
                least.setdefault(rep(v), []).append(v)
            new = {v: min(m) for m in least.values() for v in m if v != min(m)}
            if new == cls:
                break
            cls = new
        self.zclass = cls
        self.memo, self.recval, self.loopk, self.cols, self.alts, self.alt = kept

    def zrep(self, v):
        while v in self.zclass:
            v = self.zclass[v]
        return v

    def e_zipdom(self, t):
        return self.ev(t.a[0])

    def loopkey(self, L):
        k = self.loopk.get(L)
        if k is not None:
            return k
        if L.parent is not None and L.parent not in self.loopk:
            self.loopkey(L.parent)
            if L in self.loopk:
                return self.loopk[L]
        if L.kind == 'for':
            d = ('for', self.dom(L.domain))
            n = 0
            p = L.parent
            while p is not None:
                if p.kind == 'for' and self.loopkey(p)[0] == d:
                    n += 1
                p = p.parent
            k = (d, n)
            self.loopk[L] = k
            self.colour(L)
        else:
            self.loopk[L] = (('while',), 0)
            self.colour(L)
            k = (('while', canon(self.ev(L.domain))), 0)
            self.loopk[L] = k
        return k

    def colour(self, L):
        """identify loop-carried variables by (init, update) colour refinement"""
        if not L.recs:
            return
        base = self.loopk.get(L)
        col = {}
        for v, (i, u) in L.recs.items():
            col[v] = canon(self.ev(i))
        saved = self.memo
        savedk = self.loopk
        saveda = self.alts
        for r in range(2):
            for v in L.recs:
                self.recval[(L, v)] = self.atom('rec', base, col[v])
            self.memo = {}
            self.alts = {}
            self.loopk = dict(savedk)
            new = {}
            for v, (i, u) in L.recs.items():
                if u is None:
                    new[v] = col[v]
                else:
                    new[v] = H(col[v], canon(self.ev(u)))
            col = new
        self.memo = saved
        self.loopk = savedk
        self.alts = saveda
        for v in L.recs:
            self.recval[(L, v)] = self.atom('rec', base, col[v])
        for v in L.recs:
            self.cols[(L, v)] = col[v]

    # ---- evaluation --------------------------------------------------
    def ev(self, t):
        m = self.memo.get(id(t))
        if m is not None:
            return m[0]
        self.steps += 1
        if self.steps > 400000:
            raise Poison('budget')
        v = self._ev(t)
        if t in self.counts and isinstance(v, NUM) and v < 0:
            v = Atom(-v, v.key) if isinstance(v, Atom) else -v
        if t.op == 'bin' and t.a[0] == '+' and t.a[1].op == 'list' and not t.a[1].a and not self.truth(v):
            v = ('L',)          # a list that is not true has no elements
        self.memo[id(t)] = (v, t)
        return v

    def _ev(self, t):
        o = t.op
        f = getattr(self, 'e_' + o, None)
        if f is not None:
            return f(t)
        # uninterpreted
        return self.atom(o, tuple(self.key(x) for x in t.a))

    def key(self, x):
        if isinstance(x, T):
            return canon(self.ev(x))
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        if isinstance(x, Loop):
            return self.loopkey(x)
        return ('$', repr(x))

    def e_rcall(self, t, op='rcall'):
        sig = SIGNATURES.get(t.a[0])
        if sig is None:
            return self.atom(t.op, tuple(self.key(x) for x in t.a))
        args = []
        for k, v in t.a[2]:
            v = self.key(v)
            d = sig[0].get(k)
            if d is not None and v == self.key(d):
                continue
            args.append((('$', repr(k)), v))
        key = (('$', repr(t.a[0])), tuple(self.key(x) for x in t.a[1]), tuple(args))
        if sig[1]:
            return ('L',) + tuple(self.atom('part', i, key) for i in range(sig[1]))
        return self.atom(t.op, key)

    def e_new(self, t):
        return self.e_rcall(t)

    def e_const(self, t):
        v = t.a[0]
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                return v
            return Fraction(repr(v)) if abs(v) < 1e30 and (v == 0 or abs(v) > 1e-40) else Fraction(v)
        return v

    def e_list(self, t):
        return ('L',) + tuple(self.ev(x) for x in t.a)

    e_tuple = e_list

    def e_set(self, t):
        vs = [self.ev(x) for x in t.a]
        u = {repr(canon(v)): v for v in vs}
        return ('S',) + tuple(u[k] for k in sorted(u))

    def e_dict(self, t):
        d = {}
        for k, v in t.a:
            kv = self.ev(k)
            d[repr(canon(kv))] = (kv, self.ev(v))
        return ('D',) + tuple(d[k] for k in sorted(d))

    def e_pos(self, t):
        j = self.alt.get(t.a[0])
        if j:
            return self.atom('pos', self.loopkey(t.a[0]), j, integer=True)
        return self.atom('pos', self.loopkey(t.a[0]), integer=True)

    def turns(self, L):
        """how many representative turns of the loop there are: none, one or two"""
        self.loopkey(L)
        if L.kind != 'for':
            return 2
        k = self.loopk[L][0][1]
        if not k.startswith("('n', '"):
            return 2
        d = Fraction(k[7:-2])
        return 0 if d <= 0 else 1 if d == 1 else 2

    def turn(self, L, j, *ts):
        """values at turn j"""
        if not j:
            return [self.ev(t) for t in ts]
        self.loopkey(L)
        kept = self.memo, self.recval, self.loopk, self.cols, self.alt
        self.alt = dict(self.alt)
        self.alt[L] = j
        cfg = frozenset(self.alt.items())
        if cfg not in self.alts:
            up = set()
            p = L
            while p is not None:
                up.add(p)
                p = p.parent
            rv = {k: v for k, v in self.recval.items() if k[0] in up}
            for k in rv:
                if k[0] is L:
                    rv[k] = self.atom('turn', j, canon(rv[k]))
            self.alts[cfg] = ({}, rv, {k: v for k, v in self.loopk.items() if k in up}, {k: v for k, v in self.cols.items() if k[0] in up})
        self.memo, self.recval, self.loopk, self.cols = self.alts[cfg]
        try:
            return [self.ev(t) for t in ts]
        finally:
            self.memo, self.recval, self.loopk, self.cols, self.alt = kept

    def e_ex(self, t):
        L, c = t.a
        return any(self.truth(self.turn(L, j, c)[0]) for j in range(self.turns(L)))

    def e_first(self, t):
        L, c, v = t.a
        for j in range(self.turns(L)):
            if self.truth(self.turn(L, j, c)[0]):
                return self.turn(L, j, v)[0]
        return self.atom('nofirst')

    def e_rec(self, t):
        L, v = t.a
        if L not in self.loopk:
            self.loopkey(L)
        if (L, v) not in self.recval:
            return self.atom('rec?', v)
        return self.recval[(L, v)]

    def e_out(self, t):
        L, v = t.a
        k = self.loopkey(L)
        if not self.turns(L):
            return self.ev(L.recs[v][0])
        br = tuple(sorted(repr(all(self.truth(self.ev(g)) for g in gs)) for gs in L.breaks))
        return self.atom('out', k, self.cols.get((L, v)), br)

    def e_len(self, t):
        v = self.ev(t.a[0])
        if isinstance(v, tuple) and v[:1] in (('L',), ('S',), ('D',)):
            return len(v) - 1
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, tuple) and v[:1] == ('CC',):
            return sum((len(x) - 1 if isinstance(x, tuple) and x[:1] == ('L',) else Fraction(self.atom('len', canon(x), integer=True))) for x in v[1:])
        n = self.atom('len', canon(v), integer=True)
        if isinstance(v, Atom) and v.key in self.fixtruth and t in self.counts and bool(n) != self.fixtruth[v.key]:
            return Atom(1, n.key) if self.fixtruth[v.key] else 0
        return n

    def e_range(self, t):
        vs = [self.ev(x) for x in t.a]
        if all(isinstance(v, int) and not isinstance(v, bool) for v in vs) and vs[2] != 0:
            r = range(*vs)
            if len(r) <= 5000:
                return ('L',) + tuple(r)
        return self.atom('range', tuple(canon(v) for v in vs))

    def e_rangelen(self, t):
        return self.atom('rangelen', tuple(canon(self.ev(x)) for x in t.a), integer=True)

    def e_last(self, t):
        L = t.a[0]
        k = self.loopkey(L)
        if not self.turns(L):
            return self.ev(t.a[2]) if len(t.a) > 2 else ('raise', 'LookupError')
        br = tuple(sorted(repr(all(self.truth(self.ev(g)) for g in gs)) for gs in L.breaks))
        return self.atom('last', k, br, tuple(canon(self.ev(x)) for x in t.a[1:]))

    def e_lastinv(self, t):
        L, i, u = t.a
        if not self.turns(L):
            return self.ev(i)
        if L.kind == 'for' and not L.breaks:
            return self.ev(u)
        return self.atom('lastinv', self.loopkey(L), canon(self.ev(i)), canon(self.ev(u)))

    def e_sum(self, t):
        v = self.ev(t.a[0])
        if v == ('L',):
            return 0
        return self.atom(t.op, canon(v))

    e_sumall = e_sum

    def e_join(self, t):
        s, v = self.ev(t.a[0]), self.ev(t.a[1])
        if isinstance(v, tuple) and v[:1] == ('L',) and isinstance(s, str) and all(isinstance(x, str) for x in v[1:]):
            return s.join(v[1:])
        return self.atom('join', canon(s), canon(v))

    def e_map(self, t):
        L, g, c = t.a
        k = self.loopkey(L)
        if isinstance(L.domain, T) and L.domain.op == 'len' and self.ev(L.domain.a[0]) is None:
            self.zero = True        # nothing to walk over: no result either
        if not self.turns(L):
            return ('L',)
        if not self.truth(self.ev(c)):
            return self.atom('map', k, False)
        return self.atom('map', k, canon(self.ev(g)))

    def e_ite(self, t):
        c, a, b = t.a
        if self.truth(self.ev(c)):
            return self.ev(a)
        if b.op == 'undef' and c.op == 'cmp' and c.a[0] == '==' and a.op in ('list', 'const', 'func', 'cls') \
                and any(x.op == 'const' and isinstance(x.a[0], str) for x in c.a[1:]):
            self.zero = True        # none of the cases that were provided for
        return self.ev(b)

    def e_not(self, t):
        return not self.truth(self.ev(t.a[0]))

    def e_and(self, t):
        return all(self.truth(self.ev(x)) for x in t.a)

    def e_or(self, t):
        return any(self.truth(self.ev(x)) for x in t.a)

    def e_boolor(self, t):       # value-returning or
        for x in t.a[:-1]:
            v = self.ev(x)
            if self.truth(v):
                return v
        return self.ev(t.a[-1])

    def e_booland(self, t):
        for x in t.a[:-1]:
            v = self.ev(x)
            if not self.truth(v):
                return v
        return self.ev(t.a[-1])

    def e_truth(self, t):
        v = self.ev(t.a[0])
        if isinstance(v, Atom) and v.key not in self.fixtruth:
            n = mk('len', t.a[0])
            if n in self.counts:        # a sequence that is walked over is true unless it is empty
                return bool(self.ev(n))
        return self.truth(v)

    def e_cmp(self, t):
        op, a, b = t.a
        x, y = self.ev(a), self.ev(b)
        if op in ('==', 'is'):
            return self.eq(x, y)
        if op in ('!=', 'is not'):
            return not self.eq(x, y)
        if op == '<':
            return self.lt(x, y)
        if op == '>':
            return self.lt(y, x)
        if op == '<=':
            return not self.lt(y, x)
        if op == '>=':
            return not self.lt(x, y)
        if op == 'in':
            return self.contains(x, y)
        if op == 'not in':
            return not self.contains(x, y)
        raise Poison(op)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Atom):
            return Fraction(v)
        if isinstance(v, NUM):
            return v
        if v is None or isinstance(v, Text):
            # a value that this algebra made a text or None, where a number is expected
            h = H(self.seed, 'shadow', v)
            return Fraction(h % 4 if self.style == 0 else 1 + h % 12 if self.style == 1 else 1 + h % 997) * (-1 if (h >> 40) % 10 < 3 else 1)
        return None

    def whole(self, v, h):
        n = v if isinstance(v, Atom) else self.num(v)
        if n is None:
            return v
        if n != int(n):
            n = (1 + h % 997) * (1 if n > 0 else -1)
        return Atom(n, h)

    def e_un(self, t):
        op, a = t.a
        v = self.ev(a)
        n = self.num(v)
        if n is None:
            return self.atom('un', op, canon(v))
        return -n if op == '-' else n

    def e_bin(self, t):
        op, a, b = t.a
        x, y = self.ev(a), self.ev(b)
        if op in ('&', '|') and isinstance(x, bool) and isinstance(y, bool):
            return (x and y) if op == '&' else (x or y)
        if op == '+' and (isinstance(x, tuple) or isinstance(y, tuple) or type(x) is str or type(y) is str):
            if isinstance(x, str) and isinstance(y, str):
                return x + y
            if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == ('L',) and y[:1] == ('L',):
                return x + y[1:]
            if type(x) is not str and type(y) is not str:
                return self.joined((x, y))
            return self.atom('concat', canon(x), canon(y))
        p, q = self.num(x), self.num(y)
        if p is None or q is None or op in ('@', '&', '|', '^', '<<', '>>'):
            if op in ('&', '|', '^'):
                return self.atom('bin', op, tuple(sorted([repr(canon(x)), repr(canon(y))])))
            if op == '*' and isinstance(x, tuple) and x[:1] == ('L',) and isinstance(q, int):
                return ('L',) + x[1:] * q
            if op == '%' and isinstance(x, str):
                return self.atom('strmod', x, canon(y))
            if op == '*':
                return self.atom('bin', op, tuple(sorted([repr(canon(x)), repr(canon(y))])))
            return self.atom('bin', op, canon(x), canon(y))
        try:
            if op == '+':
                return p + q
            if op == '-':
                return p - q
            if op == '*':
                return p * q
            if op == '/':
                if isinstance(p, int):
                    p = Fraction(p)
                if q == 0:
                    self.zero = True
                    return math.nan if p == 0 or p != p else math.copysign(math.inf, p)
                return p / q
            if op == '//':
                return p // q
            if op == '%':
                return p % q
            if op == '**':
                return self.power(p, q)
        except (ZeroDivisionError, OverflowError):
            raise Poison('arith')
        raise Poison(op)

    def joined(self, vs):
        """concatenation of sequences, known stretches merged"""
        out = []
        for v in vs:
            for x in (v[1:] if isinstance(v, tuple) and v[:1] == ('CC',) else (v,)):
                if isinstance(x, tuple) and x[:1] == ('L',):
                    if len(x) == 1:
                        continue
                    if out and isinstance(out[-1], tuple) and out[-1][:1] == ('L',):
                        out[-1] = out[-1] + x[1:]
                        continue
                out.append(x)
        if not out:
            return ('L',)
        return out[0] if len(out) == 1 else ('CC',) + tuple(out)

    def e_upd(self, t):
        b, i, v = [self.ev(x) for x in t.a]
        if same(self.at(b, i), v):
            return b
        return self.atom('upd', canon(b), canon(i), canon(v))

    def e_append(self, t):
        return self.joined((self.ev(t.a[0]), ('L', self.ev(t.a[1]))))

    def e_concat(self, t):
        return self.joined([self.ev(x) for x in t.a])

    def power(self, p, q):
        if not isinstance(q, float) and Fraction(q).denominator == 1 and abs(q) <= 12:
            q = int(q)
            if q < 0:
                if p == 0:
                    raise Poison('div')
                return (Fraction(p) if not isinstance(p, float) else p) ** q
            return p ** q
        if p == 0:
            if q > 0:
                return 0
            raise Poison('pow0')
        try:
            if p < 0 and q == Fraction(1, 2):
                return -3 * abs(float(p)) ** 0.5        # stands for not-a-number, odd so that dropped absolute values show
            return abs(float(p)) ** float(q)
        except (OverflowError, ZeroDivisionError):
            raise Poison('pow')

    def e_fn(self, t):
        """interpreted scalar functions"""
        name = t.a[0]
        vs = [self.ev(x) for x in t.a[1:]]
        ns = [self.num(v) for v in vs]
        if name in ('min', 'max') and len(vs) >= 2 and all(n is not None for n in ns):
            return (min if name == 'min' else max)(ns)
        if name in ('min', 'max') and len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][:1] == ('L',):
            ns = [self.num(v) for v in vs[0][1:]]
            if ns and all(n is not None for n in ns):
                return (min if name == 'min' else max)(ns)
        if any(n is None for n in ns) or len(ns) != 1:
            if name in ('min', 'max'):
                return self.atom(name, tuple(sorted(repr(canon(v)) for v in vs)))
            if name == 'int':
                return self.whole(self.atom('int', canon(vs[0])), H(self.seed, ('int', canon(vs[0]))))
            return self.atom('fn', name, tuple(canon(v) for v in vs))
        n = ns[0]
        if name in ('min', 'max'):
            return self.atom(name, (repr(canon(vs[0])),))
        try:
            if name == 'abs':
                return abs(n)
            if name == 'sqrt':
                return self.power(n, Fraction(1, 2))
            if name == 'log':
                if n == 0:
                    raise Poison('log0')
                return math.log(abs(float(n)))
            if name == 'exp':
                return math.exp(float(n))
            if name == 'int':
                if isinstance(vs[0], (Atom, Text)) or vs[0] is None:
                    return self.whole(self.atom('int', canon(vs[0])), H(self.seed, ('int', canon(vs[0]))))
                return int(n)
        except (OverflowError, ValueError):
            raise Poison(name)
        return self.atom('fn', name, canon(vs[0]))

    def e_idx(self, t):
        b, i = self.ev(t.a[0]), self.ev(t.a[1])
        if isinstance(b, tuple) and b[:1] == ('D',) and len(b) > 1 and t.a[1].op != 'const' and not any(self.eq(k, i) for k, v in b[1:]):
            # a key the table lacks ends the call: one of its entries stands for every value that does not
            return b[1 + H(self.seed, 'entry', canon(b), canon(i)) % (len(b) - 1)][1]
        return self.at(b, i)

    def at(self, b, i):
        if isinstance(b, tuple) and b[:1] == ('L',) and isinstance(i, (int, Fraction)) and not isinstance(i, Atom) and not isinstance(i, bool):
            try:
                return b[1:][int(i)]
            except IndexError:
                return self.atom('indexerror')
        if isinstance(b, tuple) and b[:1] == ('CC',) and isinstance(i, (int, Fraction)) and not isinstance(i, (Atom, bool)):
            x = b[-1] if i < 0 else b[1]
            if isinstance(x, tuple) and x[:1] == ('L',) and (-(len(x) - 1) <= i < 0 or 0 <= i < len(x) - 1):
                return x[1:][int(i)]
        if isinstance(b, tuple) and b[:1] == ('D',):
            for kv in b[1:]:
                if self.eq(kv[0], i):
                    return kv[1]
            return ('raise', 'LookupError')
        if isinstance(i, tuple) and i[:1] == ('L',) and len(i) > 2 and isinstance(i[1], (int, Fraction)) and not isinstance(i[1], bool):
            # x[i, j] is x[i][j]
            return self.at(self.at(b, i[1]), i[2] if len(i) == 3 else ('L',) + i[2:])
        return self.atom('idx', canon(b), canon(i))

    def e_slice(self, t):
        return ('slice',) + tuple(self.ev(x) for x in t.a)

    def e_undef(self, t):
        return ('raise', 'LookupError')

    def e_isinst(self, t):
        v = self.ev(t.a[0])
        if v is None and 'NoneType' not in repr(t.a[1]) and 'object' not in repr(t.a[1]):
            return False
        cs = t.a[1].a if t.a[1].op == 'set' else (t.a[1],)
        if self.kinds and all(c.op == 'cls' for c in cs):
            # an object has one class; those not related by inheritance exclude each other
            k = self.kind(canon(v))
            return k is not None and any(c.a[0].obj.qual in FAMILY[k] for c in cs)
        return self.truth(Atom(1, H(self.seed, ('isinst', canon(v), self.key(t.a[1])))))

    def kind(self, v):
        r = repr(v)
        if r in self.fixkind:
            return self.fixkind[r]
        k = H(self.seed, 'kind', v) % (len(self.kinds) + 1)
        return self.kinds[k] if k < len(self.kinds) else None

    def e_raise(self, t):
        return ('raise', t.a[0])

    def e_cat(self, t):
        out = []
        for x in t.a:
            if x.op == 'fv':
                v = self.ev(x.a[0])
                spec = x.a[1]
                sv = self.ev(spec) if isinstance(spec, T) else spec
                if isinstance(v, str) and sv == '':
                    out.append(v)
                    continue
                if isinstance(v, int) and not isinstance(v, Atom) and not isinstance(v, bool) and sv == '':
                    out.append(str(v))
                    continue
                if isinstance(v, tuple) and v[:1] == ('CAT',) and sv == '':
                    out.extend(v[1:])
                    continue
                out.append(('FV', canon(v), canon(sv)))
            else:
                v = self.ev(x)
                if isinstance(v, tuple) and v[:1] == ('CAT',):
                    out.extend(v[1:])
                elif isinstance(v, str):
                    out.append(v)
                else:
                    out.append(('FV', canon(v), ('str', '')))
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            elif p != '':
                res.append(p)
        if all(isinstance(p, str) for p in res):
            return ''.join(res)
        if len(res) == 1 and not isinstance(res[0], str):
            pass
        return ('CAT',) + tuple(res)

    def e_comm(self, t):
        """commutative uninterpreted function"""
        return self.atom('comm', t.a[0], tuple(sorted(repr(canon(self.ev(x))) for x in t.a[1:])))

    def e_trace(self, t):
        out = []
        for e in t.a:
            v = self.ev(e)
            if v is not None:
                out.append(v)
        return ('T',) + tuple(out)

    def e_bag(self, t):
        v = self.e_trace(t)
        return ('T',) + tuple(sorted(v[1:], key=lambda x: repr(canon(x))))

    def e_eff(self, t):
        # eff(guards, loops, payload...)
        guards, loops, payload = t.a
        if not all(self.turns(L) for L in loops):
            return None
        for g in guards:
            if not self.truth(self.ev(g)):
                return None
        return ('E', tuple(repr(self.loopkey(L)) for L in loops), tuple(canon(self.ev(p)) if isinstance(p, T) else ('$', repr(p)) for p in payload))

    def e_after(self, t):
        """value read after writes that may affect it; only writes whose path condition holds count"""
        base = self.ev(t.a[0])
        deps = []
        for e in t.a[1]:
            v = self.ev(e)
            if v is not None:
                deps.append(repr(canon(v)))
        if not deps:
            return base
        if isinstance(base, tuple) and base[:1] == ('L',) and t.a[0].op in ('rcall', 'rd'):
            return ('L',) + tuple(self.atom('after', canon(x), tuple(sorted(set(deps)))) for x in base[1:])
        return self.atom('after', canon(base), tuple(sorted(set(deps))))

    def e_heapfx(self, t):
        """attribute and item stores: last write per location wins"""
        d = {}
        for e in t.a:
            guards, loops, payload = e.a
            if not all(self.turns(L) for L in loops) or not all(self.truth(self.ev(g)) for g in guards):
                continue
            lk = tuple(repr(self.loopkey(L)) for L in loops)
            kind = payload[0]
            base, at, val = [canon(self.ev(x)) for x in payload[1:4]]
            d[repr((kind, lk, base, at))] = (kind, base, at, val, lk)
        return ('T',) + tuple(d[k] for k in sorted(d))

    def e_outfx(self, t):
        """output on streams: per stream the ordered text pieces, adjacent pieces of one loop context merged"""
        d = {}
        for e in t.a:
            guards, loops, payload = e.a
            if not all(self.turns(L) for L in loops) or not all(self.truth(self.ev(g)) for g in guards):
                continue
            lk = tuple(repr(self.loopkey(L)) for L in loops)
            st = repr(canon(self.ev(payload[1])))
            v = self.ev(payload[2]) if payload[0] == 'write' else (payload[0], canon(self.ev(payload[2])))
            seq = d.setdefault(st, [])
            if payload[0] == 'write':
                parts = list(v[1:]) if isinstance(v, tuple) and v[:1] == ('CAT',) else ([v] if isinstance(v, str) else [('FV', canon(v), ('str', ''))])
                if seq and seq[-1][0] == lk and seq[-1][1] == 'w':
                    tail = seq[-1][2]
                else:
                    tail = []
                    seq.append((lk, 'w', tail))
                for p in parts:
                    if isinstance(p, str) and tail and isinstance(tail[-1], str):
                        tail[-1] += p
                    elif p != '':
                        tail.append(p)
            else:
                seq.append((lk, 'c', [v]))
        return ('T',) + tuple((k, tuple((lk, kd, tuple(x)) for lk, kd, x in d[k])) for k in sorted(d))
