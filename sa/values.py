"""Abstract values and program states of the analyser.

Values are plain hashable tuples:
  ('K', typename, python value)      a constant
  ('S', key)                         an unknown value; what is known about it is a Fact in the state
        key = ('p', name)            operand / parameter of the analysed function
            | ('n', number, hint)    some value produced on the way
            | ('d', op, args...)     value-numbered result of a pure operation
  ('R', addr)                        heap object created on the way (or by module initialisation)
  ('T', (values...))                 tuple
  ('Sl', lo, hi, step)               slice
  ('Fn', id) ('BM', fnvalue, self) ('Cls', qualname) ('Ext', dotted) ('M', receiver, name) ('Mod', name)
  ('Rx', pattern, flags)             compiled regular expression with constant text
  ('X', clsname, args, origin, weak) exception
"""
from collections import namedtuple

Fact = namedtuple('Fact', 'types nt lo los hi his ne truth')
F0 = Fact(None, frozenset(), None, False, None, False, frozenset(), None)
INF = float('inf')


def K(v):
    return ('K', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def isK(v):
    return v[0] == 'K'


def S(key):
    return ('S', key)


class Obj:
    """Heap object record; treated as immutable (replaced on write)."""
    __slots__ = ('kind', 'cls', 'fields', 'elems', 'summ', 'minlen', 'static', 'site', 'src')

    def __init__(self, kind, cls=None, fields=None, elems=None, summ=None, minlen=0, static=False,
                 site=None, src=None):
        self.kind = kind      # inst | list | dict | set | iter
        self.cls = cls
        self.fields = fields  # inst
        self.elems = elems    # exact: tuple of values (list/set/iter) or tuple of (k, v) (dict); None if summary
        self.summ = summ      # summary: frozenset of values
        self.minlen = minlen
        self.static = static
        self.site = site
        self.src = src        # for iterators/lists: the value they were made from

    def rep(self, **kw):
        o = Obj(self.kind, self.cls, self.fields, self.elems, self.summ, self.minlen, self.static,
                self.site, self.src)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def content(self):
        if self.kind == 'inst':
            return ('inst', self.cls, tuple(sorted(self.fields.items())))
        return (self.kind, self.elems,
                None if self.summ is None else tuple(sorted(self.summ, key=repr)), self.minlen)


class State:
    __slots__ = ('env', 'stack', 'facts', 'rels', 'heap', 'mon', 'trace', 'n', 'ver', 'fresh', 'sets')

    def __init__(self):
        self.env = {}
        self.stack = ()
        self.facts = {}
        self.rels = {}
        self.heap = {}
        self.mon = {}
        self.trace = None
        self.n = 0
        self.ver = {}
        self.fresh = frozenset()
        self.sets = {}    # (key, field) -> value written to a field / item of an unknown object

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.stack = self.stack
        s.facts = dict(self.facts)
        s.rels = dict(self.rels)
        s.heap = dict(self.heap)
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.n = self.n
        s.ver = dict(self.ver)
        s.fresh = self.fresh
        s.sets = dict(self.sets)
        return s


_roots = {}


def roots(v):
    """Leaf symbol keys and heap addresses a value mentions."""
    r = _roots.get(v)
    if r is not None:
        return r
    t = v[0]
    if t == 'S':
        r = kroots(v[1])
    elif t == 'R':
        r = frozenset([v])
    elif t == 'T':
        r = frozenset().union(*[roots(x) for x in v[1]]) if v[1] else frozenset()
    elif t == 'Sl':
        r = frozenset().union(*[roots(x) for x in v[1:]])
    elif t == 'M':
        r = roots(v[1])
    elif t == 'BM':
        r = roots(v[2])
    elif t == 'X':
        r = frozenset().union(*[roots(x) for x in v[2]]) if v[2] else frozenset()
    elif t == 'Star':
        r = roots(v[1])
    else:
        r = frozenset()
    if len(_roots) > 200000:
        _roots.clear()
    _roots[v] = r
    return r


def kroots(key):
    if key[0] in ('p', 'n'):
        return frozenset([key])
    r = frozenset()
    for a in key[2:]:
        if isinstance(a, tuple) and a and isinstance(a[0], str):
            r |= roots(a)
    return r


def rename(v, m):
    """Rename leaf symbols / refs of a value through mapping m."""
    t = v[0]
    if t == 'S':
        if not (roots(v) & m.keys()):
            return v
        return ('S', krename(v[1], m))
    if t == 'R':
        return m.get(v, v)
    if t == 'T':
        return ('T', tuple(rename(x, m) for x in v[1]))
    if t == 'Sl':
        return ('Sl',) + tuple(rename(x, m) for x in v[1:])
    if t == 'M':
        return ('M', rename(v[1], m), v[2])
    if t == 'BM':
        return ('BM', v[1], rename(v[2], m))
    if t == 'Star':
        return ('Star', rename(v[1], m))
    if t == 'X':
        return ('X', v[1], tuple(rename(x, m) for x in v[2])) + v[3:]
    return v


def krename(key, m):
    if key in m:
        return m[key]
    if key[0] in ('p', 'n'):
        return key
    return key[:2] + tuple(rename(a, m) if isinstance(a, tuple) and a and isinstance(a[0], str) else a
                           for a in key[2:])


def depth(v):
    if v[0] == 'S':
        k = v[1]
        if k[0] == 'd':
            return 1 + max([depth(a) for a in k[2:] if isinstance(a, tuple) and a and isinstance(a[0], str)],
                           default=0)
        return 0
    if v[0] == 'T':
        return 1 + max([depth(a) for a in v[1]], default=0)
    return 0
