"""Value-graph nodes (hash-consed) for the static analyser.

A node ``T(op, args)`` denotes the value an expression of the analysed source
has at one program point.  Nodes are built from the syntax tree only; nothing of
the analysed program is imported or run.
"""
from fractions import Fraction

_TABLE = {}


class T:
    __slots__ = ('op', 'a', 'line', '__weakref__')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, (T, tuple)) else x for x in args)
    t = _TABLE.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = args
        _TABLE[key] = t
    return t


def const(v):
    return mk('const', v)


NONE = const(None)
FULL = mk('slice', NONE, NONE, NONE)
TRUE = const(True)
FALSE = const(False)


class Loop:
    """One loop (or comprehension generator) of the analysed source."""
    _n = 0

    def __init__(self, kind, parent, domain, line):
        Loop._n += 1
        self.n = Loop._n
        self.kind = kind          # 'for' | 'while'
        self.parent = parent      # enclosing Loop or None
        self.domain = domain      # T: number of elements / while condition
        self.line = line
        self.recs = {}            # var -> (init T, update T)
        self.breaks = []          # guards under which the loop is left early
        self.samelen = {}         # var -> value before the loop, which has as many elements

    def __repr__(self):
        return 'L%d' % self.n


def isconst(t):
    return t.op == 'const'


def pyval(t):
    """Python value of a fully constant node, else raise ValueError."""
    if t.op == 'const':
        return t.a[0]
    if t.op in ('list', 'tuple'):
        v = [pyval(x) for x in t.a]
        return v if t.op == 'list' else tuple(v)
    if t.op == 'set':
        return set(pyval(x) for x in t.a)
    if t.op == 'dict':
        d = {}
        for kv in t.a:
            d[pyval(kv[0])] = pyval(kv[1])
        return d
    raise ValueError('not constant')


def allconst(t):
    try:
        pyval(t)
        return True
    except (ValueError, TypeError):
        return False


def lift(v):
    if isinstance(v, bool) or v is None or isinstance(v, (int, float, str, bytes, complex)) or v is Ellipsis:
        return const(v)
    if isinstance(v, list):
        return mk('list', *[lift(x) for x in v])
    if isinstance(v, tuple):
        return mk('tuple', *[lift(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return mk('set', *[lift(x) for x in sorted(v, key=repr)])
    if isinstance(v, dict):
        return mk('dict', *[(lift(k), lift(x)) for k, x in v.items()])
    raise ValueError('cannot lift %r' % (type(v),))


def subterms(roots, skip=None):
    seen = set()
    stack = list(roots)
    loops = set()
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            stack.extend(t)
            continue
        if isinstance(t, Loop):
            if t in loops or t is skip:
                continue
            loops.add(t)
            stack.append(t.domain)
            for i, u in t.recs.values():
                stack.append(i)
                stack.append(u)
            for b in t.breaks:
                stack.extend(b)
            continue
        if not isinstance(t, T) or id(t) in seen:
            continue
        seen.add(id(t))
        yield t
        stack.extend(t.a)


def mentions_rec(t, loop, var=None):
    for s in subterms([t], loop):
        if s.op == 'rec' and s.a[0] is loop and (var is None or s.a[1] == var):
            return True
    return False


def mentions_pos(t, loop):
    for s in subterms([t]):
        if s.op in ('pos', 'rec', 'out', 'map') and s.a[0] is loop:
            return True
    return False


_BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'MatMult': '@',
        'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>'}


def show(t, depth=12):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '...'
    d = depth - 1
    o = t.op
    if o == 'const':
        return repr(t.a[0])
    if o in ('param', 'glob', 'lib', 'cls', 'func', 'mod'):
        return str(t.a[0])
    if o == 'attr':
        return show(t.a[0], d) + '.' + t.a[1]
    if o == 'idx':
        return show(t.a[0], d) + '[' + show(t.a[1], d) + ']'
    if o == 'slice':
        return ':'.join('' if (x.op == 'const' and x.a[0] is None) else show(x, d) for x in t.a)
    if o in ('list', 'tuple', 'set'):
        if len(t.a) > 12:
            return '%s<%d items>' % (o, len(t.a))
        return {'list': '[', 'tuple': '(', 'set': '{'}[o] + ', '.join(show(x, d) for x in t.a) + {'list': ']', 'tuple': ')', 'set': '}'}[o]
    if o == 'dict':
        if len(t.a) > 8:
            return 'dict<%d items>' % len(t.a)
        return '{' + ', '.join(show(k, d) + ': ' + show(v, d) for k, v in t.a) + '}'
    if o == 'bin':
        return '(' + show(t.a[1], d) + ' ' + t.a[0] + ' ' + show(t.a[2], d) + ')'
    if o == 'cmp':
        return show(t.a[1], d) + ' ' + t.a[0] + ' ' + show(t.a[2], d)
    if o == 'not':
        return 'not(' + show(t.a[0], d) + ')'
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(show(x, d) for x in t.a) + ')'
    if o == 'ite':
        return '(%s if %s else %s)' % (show(t.a[1], d), show(t.a[0], d), show(t.a[2], d))
    if o in ('call', 'rcall', 'new'):
        fn = t.a[0] if isinstance(t.a[0], str) else show(t.a[0], d)
        args = [show(x, d) for x in t.a[1]] + ['%s=%s' % (k, show(v, d)) for k, v in t.a[2]]
        return fn + '(' + ', '.join(args) + ')'
    if o == 'pos':
        return 'i_%r' % (t.a[0],)
    if o == 'rec':
        return '%s@%r' % (t.a[1], t.a[0])
    if o == 'cat':
        return 'cat(' + ' ~ '.join(show(x, d) for x in t.a) + ')'
    return o + '(' + ', '.join(show(x, d) for x in t.a) + ')'
