"""Path-sensitive abstract interpreter over the Python syntax trees of /repo.

Nothing of /repo is imported or executed: modules are parsed, their top levels are evaluated abstractly
(constant propagation gives the operator tables and regular expressions), and functions are interpreted over
the domain of values.py (types, intervals, value-numbered results of pure operations, freshness).  Calls to
functions of the repository are followed into their bodies unless a check supplies a summary.
"""
import ast
import builtins
import os
import re
import sys

from engine_consts import *
from liveness import Liveness
from values import (Fact, F0, INF, K, NONE, TRUE, FALSE, isK, S, Obj, State, roots, kroots, rename, krename,
                    depth)

sys.setrecursionlimit(20000)

MODULES = ['version', 'errors', 'tokens', 'operators', 'parsing', 'scanning', 'ptypes', 'execution', 'pip']


class Broken(Exception):
    """The source could not be analysed at all (missing file, syntax error, vanished anchor)."""


class FnInfo:
    __slots__ = ('id', 'node', 'mod', 'cls', 'closure', 'defaults', 'kwdefaults', 'kind', 'name', 'qual',
                 'isgen', 'locals', 'live')


class ClassInfo:
    __slots__ = ('qual', 'name', 'node', 'mod', 'bases', 'attrs', 'fields')


class Mod:
    __slots__ = ('name', 'tree', 'globals', 'path', 'src')


def walk_own(node):
    """Walk a function body without entering nested functions / classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


_assigned_cache = {}


def assigned_names(nodes):
    key = tuple(id(n) for n in nodes)
    r = _assigned_cache.get(key)
    if r is None:
        r = set()
        for n0 in nodes:
            for n in [n0] + list(walk_own(n0)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    r.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    r.add(n.name)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    r.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        r.add((a.asname or a.name).split('.')[0])
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    r.add(n.name)
        r = frozenset(r)
        _assigned_cache[key] = (r, nodes)
        return r
    return r[0]


class Engine:
    # fields of repository classes whose contents we can type: (class, field) -> (types, lo)
    FIELD_TYPES = {
        (SCALAR, '_value'): (STR, None), (PATTERN, '_raw'): (STR, None), (PATTERN, '_flags'): (INT, 0),
        (LIST, '_value'): (frozenset(['list']), None),
        (RANGE, '_lower'): (frozenset(['int', 'NoneType']), None),
        (RANGE, '_upper'): (frozenset(['int', 'NoneType']), None),
        (BLOCK, '_statements'): (frozenset(['list']), None),
        (LVAL, 'sliceList'): (frozenset(['list']), None),
        (LVAL, 'base'): (frozenset(['str', LIST]), None),
        (LVAL, 'evaluated'): (PIP | {'NoneType'}, None),
        ('operators.Operator', 'arity'): (INT, 1), ('operators.Operator', 'flags'): (INT, 0),
        ('operators.Operator', 'precedence'): (INT, 0),
        ('operators.Operator', 'function'): (STR, None),
        ('operators.Operator', 'associativity'): (frozenset(['str', 'NoneType']), None),
        ('operators.Operator', 'assign'): (BOOL, None), ('operators.Operator', 'map'): (BOOL, None),
        ('operators.Operator', 'fold'): (BOOL, None), ('operators.Operator', 'scan'): (BOOL, None),
        ('operators.Command', 'function'): (STR, None), ('operators.Command', 'argtypes'): (frozenset(['list']), None),
        ('tokens.Token', '_text'): (STR, None),
        ('execution.ProgramState', 'err'): (frozenset(['errors.ErrorReporter']), None),
        ('execution.ProgramState', 'vars'): (frozenset(['dict']), None),
        ('execution.ProgramState', 'args'): (frozenset(['list']), None),
        ('execution.ProgramState', 'scopes'): (frozenset(['list']), None),
        ('execution.ProgramState', 'specialVars'): (frozenset(['dict']), None),
        ('execution.ProgramState', 'localScope'): (frozenset(['execution.LocalScope']), None),
        ('execution.ProgramState', 'callDepth'): (INT, None),
        ('execution.LocalScope', 'vars'): (frozenset(['dict']), None),
        ('execution.LocalScope', 'function'): (frozenset([BLOCK, 'NoneType']), None),
    }

    def __init__(self, repo='/repo', modules=MODULES, overrides=None):
        self.repo = repo
        self.heavy, self.summaries = set(), {}
        self.recv, self.pinned = [], []
        self.mods = {}
        self.classes = {}
        self.fns = {}
        self.raises = []
        self.fstack = []        # list of FnInfo of the inlined calls
        self.callnodes = []     # call nodes leading here
        self.intrinsics = {}
        self.hooks = {}
        self.limit = 48         # merge states when a block has more than this many
        self.hard = 400         # drop precision (keep a bounded number of paths) beyond this
        self.unroll = 40
        self.dropped = 0
        self.base_heap = {}
        self.naddr = 0
        self.unknown = {}
        self.loading = True
        self.nsteps = 0
        self.budget = None
        self.inlined = set()
        self.depthlimit = 40
        self.order = modules
        for name in modules:
            path = os.path.join(repo, name + '.py')
            if not os.path.exists(path):
                raise Broken(f'{path} is missing')
        # extra modules a refactoring may have added
        for fn in sorted(os.listdir(repo)):
            if fn.endswith('.py') and fn[:-3] not in modules and not fn.startswith(('test', 'setup', 'conftest')):
                self.order = self.order + [fn[:-3]]
        for name in self.order:
            path = os.path.join(repo, name + '.py')
            src = open(path, encoding='utf-8').read()
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                raise Broken(f'{path} does not parse: {e}')
            m = Mod()
            m.name, m.tree, m.path, m.src, m.globals = name, tree, path, src, None
            self.mods[name] = m
        import models
        self.models = models
        for name in self.order:
            self.load(name)
        self.loading = False
        self.infer_fields()

    # ------------------------------------------------------------------ modules
    def load(self, name):
        m = self.mods[name]
        if m.globals is not None:
            return
        m.globals = {'__name__': K(name), '__file__': K(m.path)}
        st = State()
        st.n = 0
        st.env = m.globals
        saved = self.raises, self.fstack, self.hard, self.limit
        self.raises, self.fstack = [], []
        self.hard, self.limit = 10 ** 9, 10 ** 9
        fi = FnInfo()
        fi.id, fi.node, fi.mod, fi.cls, fi.closure, fi.name, fi.qual = -1, m.tree, name, None, None, '<module>', name
        fi.kind, fi.isgen, fi.locals, fi.live = 'module', False, None, None
        self.fstack.append(fi)
        st.heap = self.base_heap
        out = self.exec_block(m.tree.body, [st])
        self.raises, self.fstack, self.hard, self.limit = saved
        if out:
            s = out[0][0]
            for k, v in s.env.items():
                m.globals[k] = v
            for a, o in s.heap.items():
                o.static = True
                self.base_heap[a] = o
            for k, v in s.facts.items():
                self.base_facts = getattr(self, 'base_facts', {})
                self.base_facts[k] = v

    def infer_fields(self):
        """Names of fields each class assigns (any method), for definite AttributeErrors."""
        for c in self.classes.values():
            c.fields = set()
            if c.node is None:
                continue
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    c.fields.add(n.attr)

    # ------------------------------------------------------------------ classes
    def mro(self, qual):
        c = self.classes.get(qual)
        if c is None:
            return [qual]
        out = [qual]
        for b in c.bases:
            for q in self.mro(b):
                if q not in out:
                    out.append(q)
        return out

    def isa(self, t, target):
        if target == 'object':
            return True
        if t == target or (t == 'bool' and target == 'int'):
            return True
        if t in self.classes:
            return target in self.mro(t)
        if target in ('collections.abc.Iterable',):
            return t in ('list', 'str', 'tuple', 'dict', 'set', 'generator', 'range')
        return False

    def subclasses(self, qual):
        return [q for q in self.classes if qual in self.mro(q) and q not in self.abstract()]

    def abstract(self):
        """Classes with subclasses that no code ever mentions as a value that could be instantiated."""
        if self._abstract is None:
            bases = {b for q in self.classes for b in self.mro(q)[1:]}
            used = set()

            def scan(n, skip=False):
                if isinstance(n, (ast.Name, ast.Attribute)):
                    if not skip:
                        used.add(n.id if isinstance(n, ast.Name) else n.attr)
                    if isinstance(n, ast.Attribute):
                        scan(n.value, True)
                    return
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass'):
                    for x in n.args[:1]:
                        scan(x)
                    return
                for c in ast.iter_child_nodes(n):
                    scan(c, isinstance(n, ast.ClassDef) and c in n.bases)
            for m in self.mods.values():
                if getattr(m, 'tree', None) is not None:
                    scan(m.tree)
            self._abstract = {q for q in bases if q in self.classes and q.split('.')[-1] not in used}
        return self._abstract

    _abstract = None

    def clsattr(self, qual, name):
        for q in self.mro(qual):
            c = self.classes.get(q)
            if c and name in c.attrs:
                return c.attrs[name]
        return None

    def hasfield(self, qual, name):
        for q in self.mro(qual):
            c = self.classes.get(q)
            if c and c.fields and name in c.fields:
                return True
        return False

    def exc_isa(self, name, target):
        if name == target or target in ('BaseException', 'builtins.BaseException'):
            return True
        if name in self.classes:
            return any(self.exc_isa(b, target) for b in self.classes[name].bases)
        a = self.pyexc(name)
        b = self.pyexc(target)
        if a and b:
            return issubclass(a, b)
        return False

    @staticmethod
    def pyexc(name):
        if name.startswith('builtins.'):
            name = name[9:]
        if name in ('re.error', 're.PatternError'):
            return re.error
        if name in ('IOError', 'EnvironmentError'):
            return OSError
        e = getattr(builtins, name, None)
        return e if isinstance(e, type) and issubclass(e, BaseException) else None

    # ------------------------------------------------------------------ state helpers
    def fact(self, st, key):
        f = st.facts.get(key)
        if f is None:
            f = getattr(self, 'base_facts', {}).get(key, F0)
        return f

    def leaf(self, st, hint, types=None, lo=None, hi=None, fresh=False, **kw):
        st.n += 1
        key = ('n', st.n, hint)
        f = Fact(frozenset(types) if types is not None else None, frozenset(), lo, False, hi, False,
                 frozenset(), None)
        st.facts[key] = f._replace(**kw) if kw else f
        if fresh:
            st.fresh = st.fresh | {key}
        return ('S', key)

    def der(self, st, op, *args, types=None, lo=None, hi=None, **kw):
        key = ('d', op) + args
        if len(args) and max([depth(a) for a in args if isinstance(a, tuple)], default=0) > self.maxdepth:
            return self.leaf(st, 'deep', types, lo, hi, **kw)
        if key not in st.facts:
            f = Fact(frozenset(types) if types is not None else None, frozenset(), lo, False, hi, False,
                     frozenset(), None)
            st.facts[key] = f._replace(**kw) if kw else f
        elif lo is not None or hi is not None:
            # more may be known about the operands by now
            f = st.facts[key]
            los, his = kw.get('los', False), kw.get('his', False)
            if lo is not None and (f.lo is None or lo > f.lo or lo == f.lo and los):
                f = f._replace(lo=lo, los=los)
            if hi is not None and (f.hi is None or hi < f.hi or hi == f.hi and his):
                f = f._replace(hi=hi, his=his)
            st.facts[key] = f
        return ('S', key)

    def types(self, st, v):
        """Possible type tags of a value; None when unknown."""
        t = v[0]
        if t == 'K':
            return frozenset([v[1]])
        if t == 'S':
            return self.fact(st, v[1]).types
        if t == 'R':
            o = self.obj(st, v)
            if o.kind == 'inst':
                return frozenset([o.cls])
            return frozenset([{'iter': o.cls or 'generator'}.get(o.kind, o.kind)])
        if t == 'T':
            return frozenset(['tuple'])
        if t == 'Sl':
            return frozenset(['slice'])
        if t in ('Fn', 'BM'):
            return frozenset(['function'])
        if t == 'Cls':
            return frozenset(['type'])
        if t == 'Rx':
            return frozenset(['re.Pattern'])
        if t == 'X':
            return frozenset([v[1]])
        if t == 'Mod':
            return frozenset(['module'])
        return None

    def obj(self, st, v):
        o = st.heap.get(v[1])
        if o is None:
            o = self.base_heap[v[1]]
        return o

    def alloc(self, st, o):
        self.naddr += 1
        if self.loading:
            a = self.naddr
        else:
            st.n += 1
            a = 1000000 + st.n
        st.heap[a] = o
        return ('R', a)

    def newlist(self, st, elems=None, summ=None, minlen=0, kind='list', cls=None, src=None):
        return self.alloc(st, Obj(kind, cls, None, None if elems is None else tuple(elems),
                                  None if summ is None else frozenset(summ), minlen,
                                  site=self.where_fn(), src=src))

    def where_fn(self):
        return self.fstack[-1].qual if self.fstack else '?'

    def where(self, node):
        fi = self.fstack[-1] if self.fstack else None
        return (fi.mod if fi else '?', fi.qual if fi else '?', getattr(node, 'lineno', 0))

    def note(self, st, node, text):
        st.trace = (st.trace, (self.where(node), text))

    maxdepth = 7
    orders = False

    def emit(self, kind, node, st, **data):
        for h in self.hooks.get(kind, ()):
            h(self, node, st, data)

    def isfresh(self, st, v):
        if v[0] == 'R':
            return not self.obj(st, v).static
        if v[0] == 'S':
            return v[1] in st.fresh
        return True

    def raise_(self, st, cls, node, args=(), weak=False, info=''):
        weak = weak or self.weak_raise(st, cls)
        x = ('X', cls, tuple(args), self.where(node) + (info,), weak)
        self.raises.append((st, x))
        return []

    weak_at = {('ptypes.Range.__getitem__', 'IndexError')}

    def weak_raise(self, st, cls):
        if '~weak' in st.mon:
            return True
        if cls in ('ValueError', 'IndexError'):
            # a property of this element other than its type may have been checked by an earlier loop
            me = self.recv[-1] if self.recv else None
            if me is not None and me[0] == 'S' and me[1][0] == 'n' and me[1][2] == 'celem':
                return True
            if self.fstack and (self.fstack[-1].qual, cls) in self.weak_at:
                return True
        return False

    # facts -------------------------------------------------------------
    def set_types(self, st, key, types):
        f = self.fact(st, key)
        if f.types is not None:
            types = f.types & types
        types = types - f.nt
        if not types:
            return False
        st.facts[key] = f._replace(types=frozenset(types))
        return True

    def drop_types(self, st, key, types):
        f = self.fact(st, key)
        if f.types is not None:
            t = f.types - types
            if not t:
                return False
            st.facts[key] = f._replace(types=t)
        else:
            st.facts[key] = f._replace(nt=f.nt | types)
        return True

    def num_bounds(self, st, v):
        if v[0] == 'K' and isinstance(v[2], (int, float)):
            return (v[2], False, v[2], False)
        if v[0] == 'S':
            f = self.fact(st, v[1])
            return (f.lo if f.lo is not None else -INF, f.los, f.hi if f.hi is not None else INF, f.his)
        return (-INF, False, INF, False)

    def is_num(self, st, v):
        t = self.types(st, v)
        return bool(t) and t <= NUM

    def assume_lt(self, st, a, b, strict):
        """Assume a < b (strict) or a <= b; False if impossible."""
        alo, alos, ahi, ahis = self.num_bounds(st, a)
        blo, blos, bhi, bhis = self.num_bounds(st, b)
        if alo > bhi or (alo == bhi and (strict or alos or bhis)):
            return False
        bothint = (self.types(st, a) or frozenset(['?'])) <= {'int', 'bool'} and \
            (self.types(st, b) or frozenset(['?'])) <= {'int', 'bool'}
        if a[0] == 'S' and self.is_num(st, a):
            if bhi < ahi or (bhi == ahi and strict and not ahis):
                nh, ns = bhi, bhis or strict
                if ns and bothint and nh != INF:
                    nh, ns = nh - 1, False
                f = self.fact(st, a[1])
                st.facts[a[1]] = f._replace(hi=nh, his=ns)
        if b[0] == 'S' and self.is_num(st, b):
            if alo > blo or (alo == blo and strict and not blos):
                nl, ns = alo, alos or strict
                if ns and bothint and nl != -INF:
                    nl, ns = nl + 1, False
                f = self.fact(st, b[1])
                st.facts[b[1]] = f._replace(lo=nl, los=ns)
        for v in (a, b):
            if not self.feasible(st, v):
                return False
            if v[0] == 'S' and v[1][0] == 'd' and v[1][1] in ('-', 'max') and not self.backprop(st, v[1]):
                return False
        return True

    def backprop(self, st, key):
        """What the bounds of a difference or maximum say about its operands."""
        f = st.facts.get(key)
        if f is None:
            return True
        if key[1] == '-' and len(key) == 4:
            x, y = key[2], key[3]
            r = self.rel_get(st, x, y)
            n = r
            if f.lo is not None and f.lo >= 0:
                n = n & (frozenset('>') if f.lo > 0 or f.los else frozenset('>='))
            if f.hi is not None and f.hi <= 0:
                n = n & (frozenset('<') if f.hi < 0 or f.his else frozenset('<='))
            if not n:
                return False
            if n != r:
                self.rel_set(st, x, y, n)
        elif key[1] == 'max' and f.lo is not None:
            rest = [v for v in key[2:] if not self.below(st, v, f.lo, f.los)]
            if not rest:
                return False
            if len(rest) == 1 and rest[0][0] == 'S' and self.is_num(st, rest[0]):
                g = self.fact(st, rest[0][1])
                if g.lo is None or g.lo < f.lo:
                    st.facts[rest[0][1]] = g._replace(lo=f.lo, los=f.los)
                    if rest[0][1][0] == 'd' and rest[0][1][1] in ('-', 'max'):
                        return self.backprop(st, rest[0][1])
        return True

    def below(self, st, v, c, strict):
        hi, his = self.num_bounds(st, v)[2:]
        return hi < c or hi == c and (strict or his)

    def feasible(self, st, v):
        lo, los, hi, his = self.num_bounds(st, v)
        if lo > hi or (lo == hi and (los or his)):
            return False
        if lo == hi and v[0] == 'S' and lo in self.fact(st, v[1]).ne:
            return False
        return True

    def excludes(self, st, v, c):
        """Is the numeric value v known to differ from constant c?"""
        lo, los, hi, his = self.num_bounds(st, v)
        if c < lo or c > hi or (c == lo and los) or (c == hi and his):
            return True
        return v[0] == 'S' and c in self.fact(st, v[1]).ne

    def rel_get(self, st, a, b):
        if repr(a) <= repr(b):
            return st.rels.get((a, b), frozenset('<=>'))
        r = st.rels.get((b, a), frozenset('<=>'))
        return frozenset({'<': '>', '>': '<', '=': '='}[x] for x in r)

    def rel_set(self, st, a, b, r):
        if repr(a) <= repr(b):
            st.rels[(a, b)] = frozenset(r)
        else:
            st.rels[(b, a)] = frozenset({'<': '>', '>': '<', '=': '='}[x] for x in r)

    # ------------------------------------------------------------------ merging
    def state_key(self, st):
        m = {}
        order = []

        def vis(v):
            for r in sorted(roots(v), key=repr):
                if r in m:
                    continue
                if r[0] == 'n':
                    m[r] = ('n', -len(m) - 1, r[2])
                    order.append(r)
                elif r[0] == 'R':
                    if r[1] in st.heap and not self.loading:
                        m[r] = ('R', -len(m) - 1)
                        order.append(r)
                        o = self.obj(st, r)
                        if o.kind == 'inst':
                            for k in sorted(o.fields):
                                vis(o.fields[k])
                        elif o.elems is not None:
                            for e in o.elems:
                                if o.kind == 'dict':
                                    vis(e[0])
                                    vis(e[1])
                                else:
                                    vis(e)
                        elif o.summ:
                            for e in sorted(o.summ, key=repr):
                                if e and e[0] == 'KV':
                                    vis(e[1]); vis(e[2])
                                else:
                                    vis(e)
                else:
                    m[r] = r
        envs = [st.env] + list(st.stack)
        for e in envs:
            for k in sorted(e):
                vis(e[k])
        for k in sorted(st.sets, key=repr):
            vis(('S', k[0]) if k[0][0] in ('p', 'n', 'd') else k[0])
            vis(st.sets[k])
        for k in sorted(st.mon, key=repr):
            v = st.mon[k]
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ('S', 'R', 'T'):
                vis(v)
        if self.orders:
            # the conditions on the operands are part of the result of a path
            for k in sorted((r for q in st.facts for r in kroots(q) if r[0] != 'n'), key=repr):
                vis(('S', k) if k[0] == 'p' else k)

        def ren(v):
            return rename(v, m)

        def renobj(o):
            if o.kind == 'inst':
                return ('inst', o.cls, tuple((k, ren(o.fields[k])) for k in sorted(o.fields)))
            if o.elems is not None:
                if o.kind == 'dict':
                    return ('dict', tuple((ren(a), ren(b)) for a, b in o.elems), o.minlen)
                return (o.kind, tuple(ren(e) for e in o.elems))
            s = set()
            for e in o.summ or ():
                s.add(('KV', ren(e[1]), ren(e[2])) if e[0] == 'KV' else ren(e))
            return (o.kind, frozenset(s), o.minlen)
        self.live_roots = live = set(m)
        facts = frozenset((krename(k, m), f) for k, f in st.facts.items()
                          if kroots(k) <= live)
        rels = frozenset((rename(a, m) if isinstance(a, tuple) and a[0] != 'eq' else a,
                          rename(b, m) if isinstance(b, tuple) and b and b[0] in ('S', 'K', 'R', 'T') else b, r)
                         for (a, b), r in st.rels.items()
                         if (not isinstance(a, tuple) or a[0] == 'eq' or roots(a) <= live))
        try:
            mon = tuple((k, ren(v) if isinstance(v, tuple) and v and isinstance(v[0], str)
                         and v[0] in ('S', 'R', 'T') else v) for k, v in sorted(st.mon.items(), key=repr))
        except TypeError:
            mon = repr(sorted(st.mon.items(), key=repr))
        return (tuple(tuple((k, ren(e[k])) for k in sorted(e)) for e in envs),
                tuple(renobj(self.obj(st, r)) for r in order if r[0] == 'R'),
                facts, rels,
                tuple((krename(k[0], m) if k[0][0] in ('p', 'n', 'd') else ren(k[0]), k[1:], ren(v))
                      for k, v in sorted(st.sets.items(), key=repr)),
                frozenset(krename(k, m) for k in st.fresh if kroots(k) <= live),
                mon)

    def collect(self, st):
        """Drop facts about unreachable values (only at statement level: no temporaries are live); call right
        after state_key(st)."""
        live = self.live_roots.union(*self.pinned)
        st.facts = {q: f for q, f in st.facts.items()
                    if not any(r[0] == 'n' and r not in live for r in kroots(q))}

    def dedupe(self, states):
        seen = {}
        for st in states:
            k = self.state_key(st)
            if k not in seen:
                seen[k] = st
        return list(seen.values())

    def merge(self, states, limit=None):
        """Bound the number of states: drop duplicates, then join the rest when there are still too many."""
        if len(states) <= (limit or self.limit):
            return states
        out = self.dedupe(states)
        if len(out) > (limit * 2 if limit else self.hard):
            out = self.join_states(out)
        return out

    def join_states(self, states, extra=None):
        """Least upper bounds of the states that have the same shape."""
        groups = {}
        for st in states:
            groups.setdefault(self.shape(st), []).append(st)
        out = []
        for g in groups.values():
            out.append(g[0] if len(g) == 1 else self.join_group(g))
        self.joins += 1
        if len(out) > self.hard:
            self.dropped += len(out) - self.hard
            step = len(out) / self.hard
            out = [out[int(i * step)] for i in range(self.hard)]
        return out

    joins = 0

    def shape(self, st):
        seen = set()
        sig = []

        def vis(v):
            t = v[0]
            if t == 'R':
                if v[1] in seen:
                    return ('R', v[1])
                o = self.obj(st, v)
                if o.kind == 'inst' and o.cls in PIP and o.cls != LIST and v[1] in st.heap and not o.static:
                    return 'v'
                seen.add(v[1])
                if v[1] not in st.heap:
                    return ('R', v[1])
                sig.append((v[1], o.kind, o.cls))
                if o.kind == 'inst':
                    for k in sorted(o.fields):
                        sig.append((k, vis(o.fields[k])))
                return ('R', v[1])
            if t == 'K' and isinstance(v[2], bool):
                return v
            if t == 'T':
                return tuple(vis(x) for x in v[1])
            if t in ('S', 'K'):
                return 'v'
            if t in ('Fn', 'Cls', 'Ext', 'Mod'):
                return v
            return t
        envs = tuple(tuple((k, vis(e[k])) for k in sorted(e)) for e in [st.env] + list(st.stack))
        try:
            mon = tuple(sorted(st.mon.items(), key=repr))
            hash(mon)
        except TypeError:
            mon = repr(sorted(st.mon.items(), key=repr))
        return envs, tuple(sig), mon, frozenset(st.sets)

    def join_group(self, g):
        st = g[0].copy()
        st.env = dict(st.env)
        st.n = max(x.n for x in g)
        # facts: hull over the states (a fact missing somewhere is unknown)
        facts = {}
        common = set(g[0].facts)
        for x in g[1:]:
            common &= set(x.facts)
        for k in common:
            fs = [x.facts[k] for x in g]
            facts[k] = fs[0] if all(f == fs[0] for f in fs) else self.fact_hull(fs)
        st.facts = facts
        rels = {}
        for k, r in g[0].rels.items():
            if all(k in x.rels for x in g):
                rs = [x.rels[k] for x in g]
                if isinstance(r, frozenset):
                    u = frozenset().union(*rs)
                    if u != frozenset('<=>'):
                        rels[k] = u
                elif all(y == r for y in rs):
                    rels[k] = r
        st.rels = rels
        st.fresh = frozenset.intersection(*[x.fresh for x in g])
        for x in g:
            for k, v in x.ver.items():
                if st.ver.get(k, 0) < v:
                    st.ver[k] = v
        cache = {}

        def jv(vals):
            if all(v == vals[0] for v in vals):
                v = vals[0]
                if v[0] != 'S' or v[1] in facts or v[1][0] == 'p':
                    return v
            key = tuple(vals)
            if key in cache:
                return cache[key]
            if all(v[0] == 'T' for v in vals) and len({len(v[1]) for v in vals}) == 1:
                r = ('T', tuple(jv([v[1][i] for v in vals]) for i in range(len(vals[0][1]))))
            elif all(v[0] == 'Sl' for v in vals):
                r = ('Sl',) + tuple(jv([v[i] for v in vals]) for i in (1, 2, 3))
            else:
                ts = frozenset()
                for x, v in zip(g, vals):
                    t = self.types(x, v)
                    if t is None:
                        ts = None
                        break
                    ts |= t
                bs = [self.num_bounds(x, v) for x, v in zip(g, vals)]
                lo, hi = min(b[0] for b in bs), max(b[2] for b in bs)
                los = all(b[1] or b[0] > lo for b in bs)
                his = all(b[3] or b[2] < hi for b in bs)
                ne = None
                for x, v in zip(g, vals):
                    n_ = self.fact(x, v[1]).ne if v[0] == 'S' else frozenset()
                    ne = n_ if ne is None else ne & n_
                r = self.leaf(st, 'j', ts, None if lo == -INF else lo, None if hi == INF else hi,
                              fresh=all(self.isfresh(x, v) if v[0] in ('S', 'R') else True
                                        for x, v in zip(g, vals)))
                st.facts[r[1]] = st.facts[r[1]]._replace(los=los and lo != -INF, his=his and hi != INF, ne=ne)
                if ts and STR == ts:
                    ml = min(self.minlen(x, v) for x, v in zip(g, vals))
                    if ml:
                        st.facts[('d', 'len', r, 0)] = F0._replace(types=INT, lo=ml)
            cache[key] = r
            return r

        heap = dict(g[0].heap)
        for x in g[1:]:
            for a, o in x.heap.items():
                if a not in heap:
                    heap[a] = o
        st.heap = heap
        for a in list(heap):
            os_ = [x.heap.get(a) for x in g]
            have = [o for o in os_ if o is not None]
            if len(have) < len(g) or all(o is have[0] for o in have):
                continue
            if len({(o.kind, o.cls) for o in have}) > 1:
                continue            # unreachable (the shapes agree on everything reachable)
            if all(o.content() == have[0].content() for o in have):
                continue
            o = have[0]
            if o.kind == 'inst':
                ks = set(o.fields)
                for y in have[1:]:
                    ks &= set(y.fields)
                heap[a] = o.rep(fields={k: jv([y.fields[k] for y in have]) for k in ks})
            elif all(y.elems is not None and len(y.elems) == len(o.elems or ()) for y in have) and o.elems is not None:
                if o.kind == 'dict':
                    heap[a] = o.rep(elems=tuple((jv([y.elems[i][0] for y in have]), jv([y.elems[i][1] for y in have]))
                                                for i in range(len(o.elems))))
                else:
                    heap[a] = o.rep(elems=tuple(jv([y.elems[i] for y in have]) for i in range(len(o.elems))))
            else:
                summ = set()
                ml = INF
                for x, y in zip(g, have):
                    es = y.elems if y.elems is not None else (y.summ or ())
                    ml = min(ml, len(y.elems) if y.elems is not None else y.minlen)
                    for e in es:
                        if y.kind == 'dict' and y.elems is not None:
                            e = ('KV',) + tuple(e)
                        summ.add(self.import_val(st, x, e))
                heap[a] = o.rep(elems=None, summ=self.cap(frozenset(summ), st), minlen=ml)
        st.heap = heap
        sets = {}
        for k in st.sets:
            sets[k] = jv([x.sets[k] for x in g])
        st.sets = sets
        st.env = {k: jv([x.env[k] for x in g]) for k in st.env}
        st.stack = tuple({k: jv([x.stack[i][k] for x in g]) for k in e} for i, e in enumerate(st.stack))
        return st

    def import_val(self, st, x, v):
        """Bring an element value of state x into the joined state st."""
        if v[0] == 'KV':
            return ('KV', self.import_val(st, x, v[1]), self.import_val(st, x, v[2]))
        if v[0] == 'T':
            return ('T', tuple(self.import_val(st, x, e) for e in v[1]))
        if v[0] == 'S':
            f = x.facts.get(v[1], F0)
            if st.facts.get(v[1]) == f:
                return v
            lo, los, hi, his = self.num_bounds(x, v)
            r = self.leaf(st, 'elem', f.types, f.lo, f.hi, fresh=v[1] in x.fresh)
            return r
        if v[0] == 'R' and v[1] in x.heap:
            o = self.obj(x, v)
            if o.kind == 'inst' and o.cls in PIP and not o.static:
                return self.leaf(st, 'elem', {o.cls}, fresh=True)
        return v

    @staticmethod
    def fact_hull(fs):
        types = frozenset()
        for f in fs:
            if f.types is None:
                types = None
                break
            types |= f.types
        lo = min((f.lo if f.lo is not None else -INF) for f in fs)
        hi = max((f.hi if f.hi is not None else INF) for f in fs)
        los = all(f.los or (f.lo is not None and f.lo > lo) for f in fs)
        his = all(f.his or (f.hi is not None and f.hi < hi) for f in fs)
        nt = frozenset.intersection(*[f.nt for f in fs])
        ne = frozenset.intersection(*[f.ne for f in fs])
        truth = fs[0].truth if all(f.truth == fs[0].truth for f in fs) else None
        return Fact(types, nt, None if lo == -INF else lo, los and lo != -INF, None if hi == INF else hi,
                    his and hi != INF, ne, truth)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        cur = states
        out = []
        for s in stmts:
            nxt = []
            for st in cur:
                for st2, sig in self.exec_stmt(s, st):
                    if sig is None:
                        nxt.append(st2)
                    else:
                        out.append((st2, sig))
            if nxt and self.fstack:
                live = self.fstack[-1].live
                if live is not None:
                    keep = live.after.get(id(s))
                    if keep is not None:
                        for st in nxt:
                            for k in [k for k in st.env if k not in keep and not k.startswith('__')]:
                                del st.env[k]
            cur = self.merge(nxt)
            if not cur:
                break
        return [(st, None) for st in cur] + out

    def exec_stmt(self, s, st):
        self.nsteps += 1
        if self.budget is not None and self.nsteps > self.budget:
            self.dropped += 1
            return []
        fn = getattr(self, 'x_' + type(s).__name__, None)
        if fn is None:
            self.unknown[type(s).__name__] = self.unknown.get(type(s).__name__, 0) + 1
            return [(st, None)]
        return fn(s, st)

    def x_Expr(self, s, st):
        return [(a, None) for a, _ in self.ev(s.value, st)]

    def x_Pass(self, s, st):
        return [(st, None)]

    x_Global = x_Nonlocal = x_Pass

    def x_Return(self, s, st):
        if s.value is None:
            return [(st, ('ret', NONE))]
        return [(a, ('ret', v)) for a, v in self.ev(s.value, st)]

    def x_Break(self, s, st):
        return [(st, 'break')]

    def x_Continue(self, s, st):
        return [(st, 'cont')]

    def x_Assign(self, s, st):
        out = []
        for a, v in self.ev(s.value, st):
            cur = [a]
            for t in s.targets:
                cur = [b for c in cur for b in self.assign(t, v, c)]
            out += [(c, None) for c in cur]
        return out

    def x_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        return [(b, None) for a, v in self.ev(s.value, st) for b in self.assign(s.target, v, a)]

    def x_AugAssign(self, s, st):
        out = []
        t = s.target
        if isinstance(t, ast.Name):
            cur = [(b, v, None, None) for b, v in self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)]
        elif isinstance(t, ast.Attribute):
            cur = []
            for b, o in self.ev(t.value, st):
                for c, v in self.getattr_(o, t.attr, b, t):
                    cur.append((c, v, o, None))
        else:
            cur = []
            for b, o in self.ev(t.value, st):
                for c, i in self.ev(t.slice, b):
                    for d, v in self.getitem(o, i, c, t):
                        cur.append((d, v, o, i))
        for b, v, o, i in cur:
            for c, w in self.ev(s.value, b):
                ty = self.types(c, v)
                if ty is not None and ty <= {'list', 'set'} and isinstance(s.op, (ast.Add, ast.BitOr)) and ty:
                    # in-place extension of a mutable container
                    for d, _ in self.models.method(self, v, 'extend' if 'list' in ty else 'update', [w], {}, c, s):
                        out += [(e, None) for e in self.store(t, v, o, i, d)]
                    continue
                for d, r in self.binop(s.op, v, w, c, s):
                    out += [(e, None) for e in self.store(t, r, o, i, d)]
        return out

    def store(self, t, v, o, i, st):
        if isinstance(t, ast.Name):
            return self.assign(t, v, st)
        if isinstance(t, ast.Attribute):
            return self.setattr_(o, t.attr, v, st, t)
        return self.setitem(o, i, v, st, t)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            return [c for b, o in self.ev(t.value, st) for c in self.setattr_(o, t.attr, v, b, t)]
        if isinstance(t, ast.Subscript):
            return [d for b, o in self.ev(t.value, st) for c, i in self.ev(t.slice, b)
                    for d in self.setitem(o, i, v, c, t)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            out = []
            for b, spec in self.iterate(v, st, t):
                exact, summ, minlen = spec
                if exact is not None:
                    if not star and len(exact) != n or star and len(exact) < n - 1:
                        self.raise_(b, 'ValueError', t, info='unpacking a sequence of the wrong length')
                        continue
                    if star:
                        k = star[0]
                        tail = n - 1 - k
                        mid = exact[k:len(exact) - tail]
                        vals = list(exact[:k]) + [None] + list(exact[len(exact) - tail:])
                        vals[k] = self.newlist(b, mid)
                    else:
                        vals = list(exact)
                else:
                    vals = []
                    es = sorted(summ or (), key=repr)
                    for k, e in enumerate(t.elts):
                        if isinstance(e, ast.Starred):
                            vals.append(self.newlist(b, summ=es, src=None))
                        elif len(es) == 1:
                            vals.append(self.freshen(es[0], b))
                        elif es:
                            vals.append(self.join_vals(es, b))
                        else:
                            vals.append(self.leaf(b, 'unpack'))
                cur = [b]
                for e, x in zip(t.elts, vals):
                    cur = [c for s2 in cur for c in self.assign(e, x, s2)]
                out += cur
            return out
        return [st]

    def join_vals(self, vals, st):
        """One value standing for any of vals."""
        vals = list(vals)
        if len(vals) == 1:
            return self.freshen(vals[0], st)
        ts = frozenset()
        for v in vals:
            t = self.types(st, v)
            if t is None:
                ts = None
                break
            ts |= t
        lo = min([self.num_bounds(st, v)[0] for v in vals], default=-INF)
        hi = max([self.num_bounds(st, v)[2] for v in vals], default=INF)
        fresh = all(self.isfresh(st, v) for v in vals)
        return self.leaf(st, 'elem', ts, None if lo == -INF else lo, None if hi == INF else hi, fresh=fresh)

    def freshen(self, v, st):
        """A new instance of a summary element."""
        m = {}
        for r in roots(v):
            if r[0] == 'n':
                st.n += 1
                m[r] = ('n', st.n, r[2])
        if not m:
            return v
        for k, f in list(st.facts.items()):
            rs = kroots(k)
            if rs & m.keys() and all(x in m or x[0] != 'n' for x in rs):
                st.facts[krename(k, m)] = f
        st.fresh = st.fresh | {m[k] for k in m if k in st.fresh}
        return rename(v, m)

    def x_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Name):
                    c.env.pop(t.id, None)
                    nxt.append(c)
                elif isinstance(t, ast.Subscript):
                    for b, o in self.ev(t.value, c):
                        for d, i in self.ev(t.slice, b):
                            nxt += [e for e, _ in self.models.method(self, o, 'pop', [i], {}, d, s)]
                else:
                    nxt.append(c)
            cur = nxt
        return [(c, None) for c in cur]

    def x_If(self, s, st):
        out = []
        yes, no = [], []
        for b, c in self.cond(s.test, st):
            (yes if c else no).append(b)
        multi = bool(yes) and bool(no)
        if multi and self.trace_on:
            for b in yes:
                self.note(b, s, 'taken')
            for b in no:
                self.note(b, s, 'not taken')
        if yes:
            out += self.exec_block(s.body, yes)
        if no:
            out += self.exec_block(s.orelse, no) if s.orelse else [(b, None) for b in no]
        return out

    trace_on = True

    def x_Assert(self, s, st):
        out = []
        for b, c in self.cond(s.test, st):
            if c:
                out.append((b, None))
            else:
                self.raise_(b, 'AssertionError', s)
        return out

    def x_Raise(self, s, st):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur:
                self.raises.append((st, cur[-1]))
            else:
                self.raise_(st, 'RuntimeError', s)
            return []
        for b, v in self.ev(s.exc, st):
            if v[0] == 'X':
                self.raises.append((b, v[:3] + (self.where(s) + (v[3][3] if len(v[3]) > 3 else '',),
                                              self.weak_raise(b, v[1]))))
            elif v[0] == 'Cls':
                self.raise_(b, v[1], s)
            elif v[0] == 'Ext':
                self.raise_(b, v[1].replace('builtins.', ''), s)
            else:
                ty = self.types(b, v)
                if v[0] == 'R' and ty:
                    o = self.obj(b, v)
                    self.raises.append((b, ('X', o.cls, (), self.where(s) + ('',), False)))
                elif ty and len(ty) == 1:
                    self.raise_(b, next(iter(ty)), s)
                else:
                    self.raise_(b, 'Exception', s, weak=True)
        return []

    def x_Try(self, s, st):
        saved = self.raises
        self.raises = []
        res = self.exec_block(s.body, [st])
        caught = self.raises
        self.raises = saved
        out = []
        esc = []
        # else branch (exceptions in it are not caught here)
        if s.orelse:
            self.raises = []
            nres = []
            norm = [a for a, sig in res if sig is None]
            nres += [(a, sig) for a, sig in res if sig is not None]
            if norm:
                nres += self.exec_block(s.orelse, norm)
            res = nres
            esc += self.raises
            self.raises = saved
        for b, x in caught:
            b.env = dict(b.env)
            todo = [b]
            for h in s.handlers:
                if not todo:
                    break
                nxt = []
                for c in todo:
                    for d, m in self.exc_match(h.type, x, c):
                        if m:
                            self.raises = []
                            hs = getattr(self, 'handling', [])
                            self.handling = hs + [x]
                            if h.name:
                                d.env[h.name] = x
                            if self.trace_on:
                                self.note(d, h, f'except {x[1].split(".")[-1]}')
                            self.emit('caught', h, d, exc=x)
                            res += self.exec_block(h.body, [d])
                            self.handling = hs
                            esc += self.raises
                            self.raises = saved
                        else:
                            nxt.append(d)
                todo = nxt
            for c in todo:
                esc.append((c, x))
        if s.finalbody:
            nres = []
            for a, sig in res:
                for c, sig2 in self.exec_block(s.finalbody, [a]):
                    nres.append((c, sig if sig2 is None else sig2))
            res = nres
            self.raises = []
            for c, x in esc:
                for d, sig2 in self.exec_block(s.finalbody, [c]):
                    if sig2 is None:
                        saved.append((d, x))
                    else:
                        res.append((d, sig2))
            saved += self.raises
            self.raises = saved
        else:
            saved += esc
        return res

    x_TryStar = x_Try

    def exc_match(self, typ, x, st):
        if typ is None:
            return [(st, True)]
        out = []
        saved = self.raises
        self.raises = []
        for b, t in self.ev(typ, st):
            names = []

            def add(v):
                if v[0] == 'T':
                    for y in v[1]:
                        add(y)
                elif v[0] == 'Cls':
                    names.append(v[1])
                elif v[0] == 'Ext':
                    names.append(v[1].replace('builtins.', ''))
                else:
                    names.append('?')
            add(t)
            out.append((b, any(self.exc_isa(x[1], n) for n in names)))
        self.raises = saved
        return out

    def x_With(self, s, st):
        cur = [st]
        for it in s.items:
            nxt = []
            for c in cur:
                for b, v in self.ev(it.context_expr, c):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, b)
                    else:
                        nxt.append(b)
            cur = nxt
        return self.exec_block(s.body, cur) if cur else []

    def x_Import(self, s, st):
        for a in s.names:
            top = a.name.split('.')[0]
            nm = a.asname or top
            if a.name in self.mods:
                self.load(a.name)
                st.env[nm] = ('Mod', a.name)
            else:
                st.env[nm] = ('Ext', a.name if a.asname else top)
        return [(st, None)]

    def x_ImportFrom(self, s, st):
        for a in s.names:
            nm = a.asname or a.name
            if s.module in self.mods:
                self.load(s.module)
                g = self.mods[s.module].globals
                if a.name == '*':
                    for k, v in g.items():
                        if not k.startswith('_'):
                            st.env[k] = v
                elif a.name in g:
                    st.env[nm] = g[a.name]
                elif a.name in self.mods:
                    self.load(a.name)
                    st.env[nm] = ('Mod', a.name)
                else:
                    st.env[nm] = self.leaf(st, 'import ' + a.name)
            else:
                st.env[nm] = ('Ext', f'{s.module}.{a.name}')
        return [(st, None)]

    def x_FunctionDef(self, s, st):
        out = []
        for b, f in self.make_fn(s, st, s.name):
            b.env[s.name] = f
            out.append((b, None))
        return out

    x_AsyncFunctionDef = x_FunctionDef

    def make_fn(self, node, st, name, cls=None):
        a = node.args
        cur = [(st, [])]
        for d in a.defaults:
            cur = [(c, vs + [v]) for b, vs in cur for c, v in self.ev(d, b)]
        cur2 = []
        for b, vs in cur:
            kws = [(b, [])]
            for d in a.kw_defaults:
                if d is None:
                    kws = [(c, ks + [None]) for c, ks in kws]
                else:
                    kws = [(e, ks + [v]) for c, ks in kws for e, v in self.ev(d, c)]
            cur2 += [(c, vs, ks) for c, ks in kws]
        out = []
        for b, vs, ks in cur2:
            fi = FnInfo()
            fi.id = len(self.fns)
            fi.node, fi.mod, fi.cls, fi.name = node, self.fstack[-1].mod, cls, name
            fi.defaults, fi.kwdefaults = vs, ks
            nested = self.fstack[-1].kind != 'module'
            fi.closure = b.env if nested else None
            fi.qual = (f'{cls}.{name}' if cls else
                       (self.fstack[-1].qual + '.' + name))
            fi.kind, fi.locals, fi.live = 'fn', None, None
            for dec in getattr(node, 'decorator_list', []):
                t = ast.unparse(dec)
                if t in ('staticmethod', 'classmethod', 'property'):
                    fi.kind = t
                elif t.endswith('.setter'):
                    fi.kind = 'setter'
            fi.isgen = not isinstance(node, ast.Lambda) and any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
            self.fns[fi.id] = fi
            out.append((b, ('Fn', fi.id)))
        return out

    def x_ClassDef(self, s, st):
        ci = ClassInfo()
        ci.name, ci.node, ci.mod = s.name, s, self.fstack[-1].mod
        ci.qual = f'{ci.mod}.{s.name}'
        ci.bases = []
        for b in s.bases:
            r = self.ev(b, st)
            if r:
                st, v = r[0]
                if v[0] == 'Cls':
                    ci.bases.append(v[1])
                elif v[0] == 'Ext':
                    ci.bases.append(v[1].replace('builtins.', ''))
        ci.attrs = {}
        ci.fields = set()
        self.classes[ci.qual] = ci
        st.env[s.name] = ('Cls', ci.qual)
        saved = st.env
        st.env = {}
        outer = dict(saved)
        for stmt in s.body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                st.env, env = saved, st.env
                for b, f in self.make_fn(stmt, st, stmt.name, ci.qual):
                    st = b
                st.env = env
                if self.fns[f[1]].kind != 'setter':
                    st.env[stmt.name] = f
            else:
                env = st.env
                st.env = {**outer, **env}
                before = dict(st.env)
                r = self.exec_block([stmt], [st])
                if r:
                    st = r[0][0]
                    new = {k: v for k, v in st.env.items() if k not in before or before[k] != v}
                    st.env = {**env, **new}
                else:
                    st.env = env
        ci.attrs = dict(st.env)
        st.env = saved
        return [(st, None)]

    # ------------------------------------------------------------------ loops
    def x_For(self, s, st):
        out = []
        for b, it in self.ev(s.iter, st):
            for c, spec in self.iterate(it, b, s):
                out += self.for_loop(s, c, spec, it)
        return out

    def loop_source(self, st, it):
        """(container whose elements a loop over `it` visits, position of the element in the loop value)."""
        if it[0] == 'S':
            return it, None
        if it[0] == 'R':
            o = self.obj(st, it)
            if o.kind == 'list' and o.summ is not None and not o.static:
                return it, None
            if o.kind == 'iter' and o.cls == 'enumerate' and o.src is not None and o.src[0] == 'S':
                return o.src, 1
        return None, None

    def note_checked(self, st, src, types, early, entry):
        """A loop over all elements of src completed: what held for each element at the end of its
        iteration (its type) holds for every element."""
        if src[0] == 'S':
            if st.ver.get(src[1], 0) != entry.ver.get(src[1], 0):
                return
            if types and types <= PIP:
                st.mon[('elems', src)] = types & st.mon.get(('elems', src), PIP)
            if early:
                st.mon[('checked', src)] = True
        else:
            o, eo = st.heap.get(src[1]), entry.heap.get(src[1])
            if o is None or o is not eo or not types or not all(v[0] == 'S' for v in o.summ):
                return
            if early or any(not (self.types(st, v) or PIP) <= types for v in o.summ):
                fr = all(self.isfresh(st, v) for v in o.summ)
                st.heap[src[1]] = o.rep(summ=frozenset([self.leaf(st, 'celem' if early else 'elem', types, fresh=fr)]))

    x_AsyncFor = x_For

    def for_loop(self, s, st, spec, it=None):
        exact, summ, minlen = spec
        out, exits = [], []
        src, pos = self.loop_source(st, it) if it is not None and not self.loading else (None, None)
        etypes = frozenset()
        limit = 10 ** 9 if self.loading else self.unroll
        if exact is not None and len(exact) <= limit:
            cur = [st]
            for v in exact:
                nxt = []
                for c in cur:
                    for b in self.assign(s.target, v, c):
                        for d, sig in self.exec_block(s.body, [b]):
                            if sig is None or sig == 'cont':
                                nxt.append(d)
                            elif sig == 'break':
                                out.append((d, None))
                            else:
                                out.append((d, sig))
                cur = self.merge(nxt)
                if not cur:
                    break
            exits = cur
        else:
            if exact is not None:
                summ, minlen = frozenset(exact), len(exact)
            mod = assigned_names(s.body) | assigned_names([s.target])
            entry = st
            self.pinned.append({r for e in summ for r in roots(e)} | (roots(it) if it is not None else set()))
            if minlen == 0:
                exits.append(st.copy())
            seen = set()
            frontier = [st]
            for rnd in range(5):
                new = []
                for c in frontier:
                    vals = sorted(summ, key=repr)
                    if len(vals) > 6:
                        vals = [self.join_vals(vals, c)]
                    for e in vals:
                        d = c.copy()
                        fe = self.freshen(e, d)
                        ev = fe if pos is None else fe[1][pos] if fe[0] == 'T' and len(fe[1]) > pos else None
                        for b in self.assign(s.target, fe, d):
                            for f, sig in self.exec_block(s.body, [b]):
                                if sig is None or sig == 'cont':
                                    if etypes is not None and src is not None:
                                        et = self.types(f, ev) if ev is not None else None
                                        etypes = None if et is None else etypes | et
                                    g = self.widen(entry, f, mod, rnd)
                                    k = self.state_key(g)
                                    if k not in seen:
                                        seen.add(k)
                                        if len(self.fstack) == 1 and len(g.facts) > 40:
                                            self.collect(g)
                                        exits.append(g.copy())
                                        new.append(g)
                                elif sig == 'break':
                                    out.append((f, None))
                                else:
                                    out.append((f, sig))
                frontier = self.merge(new, 5)
                if not frontier:
                    break
            exits = self.merge(exits, 12)
            self.pinned.pop()
            if src is not None:
                early = any(sig not in (None, 'break') for _, sig in out)
                for x in exits:
                    self.note_checked(x, src, etypes, early, entry)
        if s.orelse and exits:
            out += self.exec_block(s.orelse, exits)
        else:
            out += [(e, None) for e in exits]
        return out

    def x_While(self, s, st):
        out, exits = [], []
        mod = assigned_names(s.body) | assigned_names([s.test])
        entry = st.copy()
        seen = set()
        frontier = [st]
        concrete = getattr(self, 'concrete_while', 0)
        unclear = wid = 0           # rounds whose outcome was not determined; rounds of widening
        for rnd in range(6 + concrete):
            exact = rnd < concrete and unclear <= 12
            if not exact:
                wid += 1
                if wid > 6:
                    break
            new = []
            n_exits, n_out = len(exits), len(out)
            for c in frontier:
                for b, t in self.cond(s.test, c):
                    if not t:
                        exits.append(b)
                        continue
                    self.emit('loop_body', s, b)
                    for f, sig in self.exec_block(s.body, [b]):
                        if sig is None or sig == 'cont':
                            self.emit('loop_back', s, f, entry=b)
                            g = f if exact else self.widen(entry, f, mod, wid - 1)
                            k = self.state_key(g)
                            if k not in seen:
                                seen.add(k)
                                new.append(g)
                        elif sig == 'break':
                            out.append((f, None))
                        else:
                            out.append((f, sig))
            if new and (len(exits) > n_exits or len(out) > n_out or len(new) > len(frontier)):
                unclear += 1
            frontier = self.merge(new, 16 if exact else 5)
            if not frontier:
                break
        exits = self.merge(exits, 12)
        if s.orelse and exits:
            out += self.exec_block(s.orelse, exits)
        else:
            out += [(e, None) for e in exits]
        return out

    def widen(self, entry, st, mod, rnd):
        """Forget exact values of variables (and lists) a loop iteration changed."""
        for name in mod:
            if name not in st.env:
                continue
            v = st.env[name]
            e = entry.env.get(name)
            if e is None or v == e:
                continue
            st.env[name] = self.widen_val(entry, st, e, v, rnd)
        for a, o in list(st.heap.items()):
            if o.kind in ('list', 'set', 'dict', 'iter') and o.elems is not None and not self.loading:
                eo = entry.heap.get(a)
                if eo is None or eo is o:
                    continue
                if eo.content() != o.content():
                    es = o.elems
                    if o.kind == 'dict':
                        es = [('KV', k, v) for k, v in es]
                    prev = eo.elems if eo.elems is not None else (eo.summ or ())
                    if o.kind == 'dict' and eo.elems is not None:
                        prev = [('KV', k, v) for k, v in prev]
                    st.heap[a] = o.rep(elems=None, summ=self.cap(frozenset(es) | frozenset(prev), st),
                                       minlen=min(len(o.elems),
                                                  len(eo.elems) if eo.elems is not None else eo.minlen))
            elif o.summ is not None and len(o.summ) > 4:
                st.heap[a] = o.rep(summ=self.cap(o.summ, st))
            if o.kind == 'inst' and a in entry.heap and entry.heap[a] is not o:
                eo = entry.heap[a]
                fl = dict(o.fields)
                for k, v in fl.items():
                    ev = eo.fields.get(k)
                    if ev is not None and ev != v:
                        fl[k] = self.widen_val(entry, st, ev, v, rnd)
                st.heap[a] = o.rep(fields=fl)
        for k, v in list(st.sets.items()):
            ev = entry.sets.get(k)
            if ev is not None and ev != v:
                st.sets[k] = self.widen_val(entry, st, ev, v, rnd)
        return st

    def note_elems(self, st, w, o):
        """Record the element types of a List that is being abstracted to an unknown one."""
        x = o.fields['_value']
        if x[0] != 'R':
            return
        l = self.obj(st, x)
        ts = frozenset()
        for e in (l.elems if l.elems is not None else (l.summ or ())):
            t = self.types(st, e)
            if t is None:
                return
            ts |= t
        if not ts <= PIP:
            st.mon[('elems', w)] = ts | PIP

    def cap(self, summ, st):
        """Collapse summary elements that differ only in identity."""
        summ = frozenset(self.leaf(st, 'elem', {self.obj(st, v).cls}, fresh=True)
                         if v[0] == 'R' and self.obj(st, v).kind == 'inst' and self.obj(st, v).cls in PIP - {NIL}
                         and not self.obj(st, v).static else v for v in summ)
        if len(summ) <= 1:
            return summ
        groups = {}
        for v in summ:
            if v[0] == 'S' and v[1][0] != 'p':
                groups.setdefault(('S', self.fact(st, v[1]), v[1] in st.fresh), []).append(v)
            else:
                groups.setdefault(v, []).append(v)
        out = [min(g, key=repr) for g in groups.values()]
        if len(out) > 8:
            out = [self.join_vals([x for x in out if x[0] != 'KV'] or out[:1], st)]
        return frozenset(out)

    def widen_val(self, entry, st, e, v, rnd):
        if v[0] == 'R':
            o = self.obj(st, v)
            if o.kind == 'inst' and o.cls in PIP and not o.static and v[1] not in entry.heap:
                w = self.leaf(st, 'w', {o.cls}, fresh=True)
                if o.cls == LIST and '_value' in o.fields:
                    self.note_elems(st, w, o)
                return w
            return v
        te = self.types(entry, e)
        tv = self.types(st, v)
        if e[0] == 'T' and v[0] == 'T' and len(e[1]) == len(v[1]):
            return ('T', tuple(x if x == y else self.widen_val(entry, st, x, y, rnd)
                               for x, y in zip(e[1], v[1])))
        if tv is not None and tv <= NUM and te is not None and te <= NUM:
            el, els, eh, ehs = self.num_bounds(entry, e)
            vl, vls, vh, vhs = self.num_bounds(st, v)
            lo = el if vl >= el else None
            hi = eh if vh <= eh else None
            los = els and vls if lo is not None and vl == el else (els if lo is not None else False)
            w = self.leaf(st, 'w', te | tv, None if lo in (None, -INF) else lo, None if hi in (None, INF) else hi)
            if los:
                st.facts[w[1]] = st.facts[w[1]]._replace(los=True)
            return w
        if v[0] == 'K' and (isinstance(v[2], bool) or v[2] is None):
            return v
        if v[0] == 'S' and v[1][0] in ('p', 'n') and rnd < 3:
            return v
        if rnd < 1 and v[0] in ('Rx', 'Fn', 'BM', 'Cls', 'K', 'X'):
            return v
        if tv is None:
            return self.leaf(st, 'w')
        if tv == {'str'} or tv == {'int'}:
            return self.leaf(st, 'w', tv)
        if rnd < 2:
            return v
        return self.leaf(st, 'w', tv, fresh=self.isfresh(st, v))

    # ------------------------------------------------------------------ iteration protocol
    def iterate(self, v, st, node):
        """[(state, (exact values | None, summary values, min length))]; pushes TypeError when not iterable."""
        t = v[0]
        if t == 'T':
            return [(st, (list(v[1]), None, len(v[1])))]
        if t == 'K':
            if isinstance(v[2], str):
                if len(v[2]) <= 40 or self.loading:
                    return [(st, ([K(c) for c in v[2]], None, len(v[2])))]
                return [(st, (None, frozenset([self.leaf(st, 'elem', STR)]), 1))]
            if isinstance(v[2], (bytes,)):
                return [(st, (None, frozenset([self.leaf(st, 'elem', INT)]), 0))]
            self.raise_(st, 'TypeError', node, info=f'{v[1]} is not iterable')
            return []
        if t == 'R':
            o = self.obj(st, v)
            if o.kind == 'inst':
                return self.iter_inst(v, o.cls, st, node)
            if o.elems is not None:
                if o.kind == 'dict':
                    return [(st, ([k for k, _ in o.elems], None, len(o.elems)))]
                ex = list(o.elems)
                if o.kind == 'set' and len(ex) > 1:
                    self.emit('setiter', node, st, obj=v, elems=frozenset(ex))
                if o.kind == 'iter' and not o.static and o.cls != 'range' and not (o.cls or '').startswith('dict_'):
                    # one-shot iterators are consumed
                    st.heap[v[1]] = o.rep(elems=())
                return [(st, (ex, None, len(ex)))]
            summ = o.summ or frozenset()
            if o.kind == 'set':
                self.emit('setiter', node, st, obj=v, elems=summ)
            if o.kind == 'dict':
                summ = frozenset(e[1] if e[0] == 'KV' else e for e in summ)
            if not summ and o.minlen == 0:
                return [(st, ([], None, 0))]
            return [(st, (None, summ, o.minlen))]
        if t == 'S':
            return self.iter_sym(v, st, node)
        if t in ('Mod', 'Fn', 'BM', 'Rx', 'Sl', 'Cls'):
            self.raise_(st, 'TypeError', node, info=f'{t} is not iterable')
            return []
        return [(st, (None, frozenset([self.leaf(st, 'elem')]), 0))]

    def has_iter(self, cls):
        return self.clsattr(cls, '__iter__') is not None or self.clsattr(cls, '__getitem__') is not None

    elem_hint = 'elem'

    def elem_of(self, v, types, st):
        """Element template for iterating over an unknown container with the given types."""
        ets = frozenset()
        for t in types:
            if t == LIST:
                ets |= self.list_elem_types(st, v)
            elif t in (SCALAR, RANGE, PATTERN):
                ets |= {SCALAR}
            elif t == NIL:
                pass
            elif t == 'str':
                ets |= STR
            elif t in ('range', 'bytes'):
                ets |= INT
            else:
                return self.leaf(st, self.elem_hint)
        if ets <= {SCALAR}:
            return self.leaf(st, self.elem_hint, ets or {SCALAR}, fresh=bool(ets) and LIST not in types)
        return self.leaf(st, self.elem_hint, ets)

    def list_elem_types(self, st, v):
        return st.mon.get(('elems', v), PIP) if isinstance(st.mon, dict) else PIP

    inf_prefix = 0      # items shown of an infinite Range (only used where a shorter sequence bounds the iteration)

    def iter_inst(self, v, cls, st, node):
        o = self.obj(st, v)
        if cls == LIST and '_value' in o.fields:
            return self.iterate(o.fields['_value'], st, node)
        if cls == SCALAR and '_value' in o.fields:
            x = o.fields['_value']
            if isK(x) and isinstance(x[2], str) and len(x[2]) <= 40:
                return [(st, ([self.mk_scalar(st, K(c)) for c in x[2]], None, len(x[2])))]
            return [(st, (None, frozenset([self.leaf(st, 'elem', {SCALAR}, fresh=True)]),
                          self.minlen(st, x)))]
        if cls == NIL:
            return [(st, ([], None, 0))]
        if cls == RANGE:
            lo, hi = o.fields.get('_lower'), o.fields.get('_upper')
            if hi == K(None) and self.inf_prefix and lo is not None and isK(lo):
                hi = K((lo[2] or 0) + self.inf_prefix)
            if lo is not None and hi is not None and isK(lo) and isK(hi) and isinstance(hi[2], int) and \
                    hi[2] - (lo[2] or 0) <= 12:
                xs = [self.mk_scalar(st, K(str(i))) for i in range(lo[2] or 0, hi[2])]
                return [(st, (xs, None, len(xs)))]
        if cls in (RANGE, PATTERN):
            return [(st, (None, frozenset([self.leaf(st, 'elem', {SCALAR}, fresh=True)]), 0))]
        if self.has_iter(cls):
            it = self.clsattr(cls, '__iter__')
            if it and it[0] == 'Fn':
                out = []
                for b, r in self.call(('BM', it, v), [], {}, st, node):
                    out += self.iterate(r, b, node)
                return out
            return [(st, (None, frozenset([self.leaf(st, 'elem')]), 0))]
        self.raise_(st, 'TypeError', node, info=f'{cls} is not iterable')
        return []

    def mk_scalar(self, st, strval):
        return self.alloc(st, Obj('inst', SCALAR, {'_value': strval}, site=self.where_fn()))

    def len_fact(self, st, v):
        """Key of the fact about len(v) of a symbolic string / list, or None."""
        if v[0] == 'S':
            ty = self.types(st, v)
            if ty and len(ty) == 1 and ty <= {SCALAR, LIST}:
                v = ('S', ('d', 'f', v, '_value'))
            elif not ty or not ty <= {'str', 'list'}:
                return None
            return ('d', 'len', v, st.ver.get(v[1], 0))
        return None

    def isempty(self, st, v):
        k = self.len_fact(st, v)
        f = st.facts.get(k) if k else None
        return f is not None and f.hi == 0

    def minlen(self, st, v):
        """Lower bound on len(v) for str / list values."""
        if v[0] == 'K' and isinstance(v[2], str):
            return len(v[2])
        if v[0] == 'T':
            return len(v[1])
        if v[0] == 'R':
            o = self.obj(st, v)
            if o.kind == 'inst':
                x = o.fields.get('_value')
                return self.minlen(st, x) if x is not None else 0
            return len(o.elems) if o.elems is not None else o.minlen
        if v[0] == 'S':
            f = st.facts.get(('d', 'len', v, st.ver.get(v[1], 0)))
            if f is not None and f.lo is not None:
                return f.lo
            ty = self.types(st, v)
            if ty and len(ty) == 1 and ty <= {SCALAR, LIST}:
                f = ('S', ('d', 'f', v, '_value'))
                return self.minlen(st, f) if f[1] in st.facts else 0
        return 0

    def iter_sym(self, v, st, node):
        ty = self.types(st, v)
        if ty is None:
            return [(st, (None, frozenset([self.leaf(st, 'elem')]), 0))]
        if self.isempty(st, v):
            return [(st, ([], None, 0))]
        good = frozenset(t for t in ty if t in ('str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'range',
                                                'generator', 'iter', 'bytes', 'file')
                         or (t in self.classes and self.has_iter(t))
                         or (t not in self.classes and t not in ('int', 'float', 'bool', 'NoneType', 'complex',
                                                                 'function', 'type', 'slice', 're.Pattern')))
        bad = ty - good
        out = []
        if bad:
            b = st.copy() if good else st
            self.set_types(b, v[1], bad)
            self.raise_(b, 'TypeError', node, info=f'{"/".join(sorted(bad))} is not iterable',
                        weak=bool(good) and v[1][0] == 'n' and str(v[1][2]).startswith('rec '))
        if good:
            self.set_types(st, v[1], good)
            self.elem_hint = 'celem' if ('checked', v) in st.mon else 'elem'
            elem = self.elem_of(v, good, st) if good & PIP or good <= {'str', 'range', 'bytes'} else \
                self.sym_elem(v, st)
            self.elem_hint = 'elem'
            ml = self.minlen(st, v)
            out.append((st, (None, frozenset([elem]), ml)))
        return out

    def sym_elem(self, v, st):
        """Element of an unknown python container: typed when the container is a known field."""
        k = v[1]
        if k[0] == 'd' and k[1] == 'f' and k[3] == '_value':
            rt = self.types(st, k[2])
            if rt and rt <= {LIST}:
                return self.leaf(st, 'elem', self.list_elem_types(st, k[2]))
        if k[0] == 'd' and k[1] == 'f' and k[3] == 'sliceList':
            return self.leaf(st, 'elem', frozenset(['int', 'slice']))
        et = st.mon.get(('elems', v))
        if et is not None:
            return self.leaf(st, 'elem', et)
        return self.leaf(st, 'elem')

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [(st, isand)]
            for sub in e.values:
                nxt = []
                for b, t in cur:
                    if t != isand:
                        nxt.append((b, t))
                    else:
                        nxt += self.cond(sub, b)
                cur = nxt
            return cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(b, not t) for b, t in self.cond(e.operand, st)]
        if isinstance(e, ast.Compare):
            return self.compare(e, st)
        out = []
        for b, v in self.ev(e, st):
            out += self.truth(v, b, e)
        return out

    def truth(self, v, st, node):
        t = v[0]
        if t == 'K':
            return [(st, bool(v[2]))]
        if t == 'T':
            return [(st, bool(v[1]))]
        if t == 'R':
            o = self.obj(st, v)
            if o.kind == 'inst':
                return self.truth_inst(v, o.cls, st, node)
            if o.kind == 'iter' and o.cls != 'range' and not (o.cls or '').startswith('dict_'):
                return [(st, True)]
            if o.elems is not None:
                return [(st, bool(o.elems))]
            if o.minlen > 0:
                return [(st, True)]
            b = st.copy()
            b.heap[v[1]] = o.rep(elems=(), summ=None)
            st.heap[v[1]] = o.rep(minlen=1)
            return [(st, True), (b, False)]
        if t != 'S':
            return [(st, True)]
        key = v[1]
        f = self.fact(st, key)
        if f.truth is not None:
            return [(st, f.truth)]
        ty = f.types
        if ty is None:
            b = st.copy()
            st.facts[key] = f._replace(truth=True)
            b.facts[key] = f._replace(truth=False)
            return [(st, True), (b, False)]
        if ty == {'NoneType'}:
            return [(st, False)]
        out = []
        if ty <= NUM | {'NoneType'}:
            b = st.copy()
            # true branch
            ok = self.drop_types(st, key, frozenset(['NoneType']))
            if ok and self.num_ne(st, v, 0):
                out.append((st, True))
            if self.num_eq(b, v, 0, allow_none='NoneType' in ty):
                out.append((b, False))
            return out
        if ty <= {'str', 'list', 'tuple', 'dict', 'set', 'NoneType'}:
            return self.truth_len(v, st, ty)
        if len(ty) == 1 and next(iter(ty)) in self.classes:
            return self.truth_inst(v, next(iter(ty)), st, node)
        always = frozenset(x for x in ty if x in self.classes and self.clsattr(x, '__bool__') is None
                           and self.clsattr(x, '__len__') is None) | (ty & {'re.Match', 're.Pattern', 'function'})
        never = ty & {'NoneType'}
        rest = ty - always - never
        groups = [(always, True), (never, False)]
        for g, val in groups:
            if g:
                b = st.copy()
                self.set_types(b, key, g)
                out.append((b, val))
        if rest:
            if rest != ty:
                self.set_types(st, key, rest)
                return out + self.truth(v, st, node)
            b = st.copy()
            st.facts[key] = f._replace(truth=True, types=ty - {NIL} or ty)
            b.facts[key] = f._replace(truth=False)
            out += [(st, True), (b, False)]
        return out

    def truth_len(self, v, st, ty):
        out = []
        key = v[1]
        ln = ('S', ('d', 'len', v, st.ver.get(key, 0)))
        if ln[1] not in st.facts:
            st.facts[ln[1]] = F0._replace(types=INT, lo=0)
        b = st.copy()
        if self.drop_types(st, key, frozenset(['NoneType'])) and not self.eqconst(st, v) == K('') \
                and self.assume_lt(st, K(1), ln, False):
            out.append((st, True))
        if 'NoneType' in ty:
            c = b.copy()
            self.set_types(c, key, frozenset(['NoneType']))
            out.append((c, False))
        if self.drop_types(b, key, frozenset(['NoneType'])) and self.assume_lt(b, ln, K(0), False):
            out.append((b, False))
        return out

    def truth_inst(self, v, cls, st, node):
        m = self.clsattr(cls, '__bool__')
        if m is None:
            m = self.clsattr(cls, '__len__')
            if m is None:
                return [(st, True)]
        out = []
        for b, r in self.call(('BM', m, v), [], {}, st, node):
            out += self.truth(r, b, node)
        return out

    def num_ne(self, st, v, c):
        if v[0] == 'K':
            return v[2] != c
        f = self.fact(st, v[1])
        lo, hi = f.lo, f.hi
        los, his = f.los, f.his
        if lo is not None and lo == c:
            if f.types and f.types <= {'int', 'bool'}:
                lo, los = lo + 1, False
            else:
                los = True
        if hi is not None and hi == c:
            if f.types and f.types <= {'int', 'bool'}:
                hi, his = hi - 1, False
            else:
                his = True
        st.facts[v[1]] = f._replace(lo=lo, los=los, hi=hi, his=his, ne=f.ne | {c})
        return self.feasible(st, v)

    def num_eq(self, st, v, c, allow_none=False):
        if v[0] == 'K':
            return v[2] == c
        f = self.fact(st, v[1])
        if self.excludes(st, v, c):
            if allow_none:
                return self.set_types(st, v[1], frozenset(['NoneType']))
            return False
        st.facts[v[1]] = f._replace(lo=c, los=False, hi=c, his=False)
        return True

    # ------------------------------------------------------------------ comparisons
    def compare(self, e, st):
        """Evaluate a comparison, one result state per outcome: [(state, bool)]."""
        out = []
        for b, left in self.ev(e.left, st):
            cur = [(b, left, True)]
            for op, right in zip(e.ops, e.comparators):
                nxt = []
                for c, l, t in cur:
                    if not t:
                        nxt.append((c, l, False))
                        continue
                    for d, r in self.ev(right, c):
                        for f, res in self.cmp(op, l, r, d, e):
                            nxt.append((f, r, res))
                cur = nxt
            out += [(c, t) for c, _, t in cur]
        return out

    OPS = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
           ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

    def cmp(self, op, a, b, st, node):
        o = self.OPS[type(op)] if not isinstance(op, str) else op
        if o in ('is not', 'not in', '!='):
            base = {'is not': 'is', 'not in': 'in', '!=': '=='}[o]
            return [(s, not t) for s, t in self.cmp(base, a, b, st, node)]
        if o == 'is':
            return self.cmp_is(a, b, st)
        if o == 'in':
            return self.cmp_in(a, b, st, node)
        if o == '==':
            return self.cmp_eq(a, b, st, node)
        if isK(a) and isK(b):
            try:
                return [(st, {'<': a[2] < b[2], '>': a[2] > b[2], '<=': a[2] <= b[2],
                              '>=': a[2] >= b[2]}[o])] if True else []
            except TypeError:
                self.raise_(st, 'TypeError', node, info='comparison of unlike types')
                return []
        for v in (a, b):
            ty = self.types(st, v)
            if ty is not None and ty <= {'NoneType'}:
                self.raise_(st, 'TypeError', node, info='ordering comparison with None')
                return []
            if v[0] == 'S' and ty is not None and 'NoneType' in ty and len(ty) > 1:
                c = st.copy()
                self.set_types(c, v[1], frozenset(['NoneType']))
                self.raise_(c, 'TypeError', node, info='ordering comparison with None')
                self.drop_types(st, v[1], frozenset(['NoneType']))
        if o == '>':
            return self.cmp_lt(b, a, True, st, node)
        if o == '<':
            return self.cmp_lt(a, b, True, st, node)
        if o == '<=':
            return self.cmp_lt(a, b, False, st, node)
        return self.cmp_lt(b, a, False, st, node)

    def cmp_lt(self, a, b, strict, st, node):
        ta, tb = self.types(st, a), self.types(st, b)
        if ta is not None and tb is not None:
            for t in (ta, tb):
                for x in t:
                    if x in self.classes and self.clsattr(x, '__lt__') is None:
                        self.raise_(st.copy(), 'TypeError', node, info=f'{x} has no ordering')
                        return []
            if (ta <= NUM and tb <= {'str', 'list', 'tuple', 'dict'}) or \
                    (tb <= NUM and ta <= {'str', 'list', 'tuple', 'dict'}) or \
                    (ta <= STR and tb <= {'list'}) or (tb <= STR and ta <= {'list'}):
                self.raise_(st, 'TypeError', node, info='ordering of unlike types')
                return []
        rel = self.rel_get(st, a, b)
        if a == b:
            rel = frozenset('=')
        yes = rel & (frozenset('<') if strict else frozenset('<='))
        no = rel & (frozenset('>=') if strict else frozenset('>'))
        out = []
        numeric = not (ta and tb and not (ta <= NUM and tb <= NUM))
        c = st.copy()
        if yes and (not numeric or self.assume_lt(st, a, b, strict)):
            self.rel_set(st, a, b, yes)
            out.append((st, True))
        if no and (not numeric or self.assume_lt(c, b, a, not strict)):
            self.rel_set(c, a, b, no)
            out.append((c, False))
        return out

    def nilcls(self, st, v):
        if v[0] == 'R':
            o = self.obj(st, v)
            return o.kind == 'inst' and o.cls == NIL
        return False

    def cmp_type(self, a, b, st):
        """Comparison of the classes of two values; None when neither is the class of an unknown value."""
        def cand(v):
            if v[0] == 'S' and v[1][:2] == ('d', 'type'):
                x = v[1][2]
                ty = self.types(st, x)
                return (x if x[0] == 'S' else None, ty)
            if v[0] == 'Cls':
                return (None, frozenset([v[1]]))
            if v[0] == 'Ext' and v[1].startswith('builtins.'):
                return (None, frozenset([v[1][9:]]))
            return None
        ca, cb = cand(a), cand(b)
        if ca is None or cb is None or ca[1] is None or cb[1] is None or (ca[0] is None and cb[0] is None):
            return None
        out = []
        both = ca[1] & cb[1]
        for t in sorted(both):
            c = st.copy()
            if all(x is None or self.set_types(c, x[1], frozenset([t])) for x, _ in (ca, cb)):
                out.append((c, True))
        ok = True
        for (x, tx), (y, ty) in ((ca, cb), (cb, ca)):
            if x is not None and len(ty) == 1:
                if not tx - ty or not self.set_types(st, x[1], tx - ty):
                    ok = False
                    break
        if ok:
            out.append((st, False))
        return out

    def cmp_is(self, a, b, st):
        if a == b:
            return [(st, True)]
        r = self.cmp_type(a, b, st)
        if r is not None:
            return r
        if isK(b) and b[2] is None or self.nilcls(st, b):
            pass
        elif isK(a) and a[2] is None or self.nilcls(st, a):
            a, b = b, a
        if isK(b) and b[2] is None:
            tag = frozenset(['NoneType'])
        elif self.nilcls(st, b):
            tag = frozenset([NIL])
        elif isK(b) and isinstance(b[2], bool):
            ty = self.types(st, a)
            if isK(a):
                return [(st, a[2] is b[2])]
            if ty is not None and 'bool' not in ty:
                return [(st, False)]
            c = st.copy()
            if a[0] == 'S':
                self.set_types(st, a[1], BOOL)
                f = self.fact(st, a[1])
                st.facts[a[1]] = f._replace(truth=b[2])
            return [(st, True), (c, False)]
        else:
            tag = None
        if tag:
            ty = self.types(st, a)
            if a[0] == 'S':
                if ty is not None and not (ty & tag) or tag <= self.fact(st, a[1]).nt:
                    return [(st, False)]
                if ty is not None and ty <= tag:
                    return [(st, True)]
                c = st.copy()
                self.set_types(st, a[1], tag)
                self.drop_types(c, a[1], tag)
                return [(st, True), (c, False)]
            if self.nilcls(st, a) and tag == {NIL}:
                return [(st, True)]
            return [(st, False)]
        if a[0] in ('Cls', 'Ext') and b[0] in ('Cls', 'Ext'):
            return [(st, a == b)]
        if a[0] == 'R' and b[0] == 'R':
            return [(st, False)]
        if isK(a) and isK(b):
            return [(st, a[2] is b[2] or a == b)]
        ta, tb = self.types(st, a), self.types(st, b)
        if ta is not None and tb is not None and not (ta & tb):
            return [(st, False)]
        # identity with a known object or an unknown one: remembered per pair
        q = self.der(st, 'is', *sorted([a, b], key=repr), types=BOOL)
        r = self.truth(q, st, None)
        for s, t in r:
            if t and a[0] == 'S' and tb is not None:
                self.set_types(s, a[1], tb)
        return r

    def eqconst(self, st, v):
        return st.rels.get(('eq', v))

    def truthful(self, st, v):
        return self.eqconst(st, v) or v

    def cmp_eq(self, a, b, st, node):
        if a == b:
            return [(st, True)]
        r = self.cmp_type(a, b, st)
        if r is not None:
            return r
        if isK(a) and isK(b):
            return [(st, a[2] == b[2])]
        if a[0] in ('Cls', 'Ext') and b[0] in ('Cls', 'Ext'):
            return [(st, False)]
        if isK(a) and not isK(b):
            a, b = b, a
        for x, y in ((a, b), (b, a)):
            # tokens, operators and the like: their own __eq__, if it gives a definite answer
            if x[0] == 'R' and self.obj(st, x).kind == 'inst' and self.obj(st, x).cls not in PIP and not (isK(y) and y[2] is None):
                m = self.clsattr(self.obj(st, x).cls, '__eq__')
                if m is not None and m[0] == 'Fn':
                    n, s0, steps = len(self.raises), st.copy(), self.nsteps
                    res = self.call(('BM', m, x), [y], {}, s0, node)
                    bad = len(self.raises) > n
                    del self.raises[n:]
                    self.nsteps = steps
                    if len(res) == 1 and not bad and isK(res[0][1]) and isinstance(res[0][1][2], (bool, type(None))):
                        return [(st, bool(res[0][1][2]))]
                break
        ta, tb = self.types(st, a), self.types(st, b)
        if self.nilcls(st, b) or isK(b) and b[2] is None:
            if ta is None or (ta & {NIL, 'NoneType'}):
                return self.cmp_is(a, b, st)
        if a[0] == 'T' and b[0] == 'T':
            if len(a[1]) != len(b[1]):
                return [(st, False)]
            cur = [(st, True)]
            for x, y in zip(a[1], b[1]):
                cur = [r for s, t in cur for r in (self.cmp_eq(x, y, s, node) if t else [(s, False)])]
            return cur
        if a[0] == 'R' and b[0] == 'R':
            oa, ob = self.obj(st, a), self.obj(st, b)
            if oa.kind == ob.kind == 'list' and oa.elems is not None and ob.elems is not None:
                if len(oa.elems) != len(ob.elems):
                    return [(st, False)]
                cur = [(st, True)]
                for x, y in zip(oa.elems, ob.elems):
                    cur = [r for s, t in cur for r in (self.cmp_eq(x, y, s, node) if t else [(s, False)])]
                return cur
        num = lambda t: t is not None and t <= NUM
        if a[0] == 'S' and isK(b) and isinstance(b[2], (int, float)) and \
                (num(ta) or ta is not None and ta <= NUM | {'NoneType'}):
            c = st.copy()
            out = []
            if (ta <= NUM or self.drop_types(st, a[1], frozenset(['NoneType']))) and self.num_eq(st, a, b[2]):
                out.append((st, True))
            if num(ta):
                if self.num_ne(c, a, b[2]):
                    out.append((c, False))
            else:
                out.append((c, False))
            return out
        if num(ta) and num(tb):
            rel = self.rel_get(st, a, b)
            out = []
            c = st.copy()
            if '=' in rel:
                ok = self.assume_lt(st, a, b, False) and self.assume_lt(st, b, a, False)
                if ok:
                    self.rel_set(st, a, b, '=')
                    out.append((st, True))
            if rel - {'='}:
                self.rel_set(c, a, b, rel - {'='})
                out.append((c, False))
            return out
        # values of classes with __eq__
        if a[0] == 'R' and self.obj(st, a).kind == 'inst' or ta and len(ta) == 1 and next(iter(ta)) in self.classes:
            cls = next(iter(ta))
            m = self.clsattr(cls, '__eq__')
            if m is not None and m[0] == 'Fn' and cls in PIP and tb is not None and (
                    len(tb) == 1) and getattr(self, 'inline_eq', False):
                out = []
                for s, r in self.call(('BM', m, a), [b], {}, st, node):
                    out += self.truth(r, s, node)
                return out
        # text constants (strings, tokens): remember equality / inequality
        if isK(b) and isinstance(b[2], str):
            c0 = self.eqconst(st, a)
            if c0 is not None:
                return [(st, c0[2] == b[2])]
            if ta is not None and not any(t == 'str' or t in self.classes for t in ta):
                return [(st, False)]
            if a[0] == 'R' and self.obj(st, a).kind == 'inst':
                tx = self.obj(st, a).fields.get('_text')
                if tx is not None and isK(tx):
                    return [(st, tx[2] == b[2])]
                return self.split_bool(st, ('eq', a, b))
            if a[0] == 'S':
                f = self.fact(st, a[1])
                if b[2] in f.ne:
                    return [(st, False)]
                c = st.copy()
                out = []
                okl = True
                if ta == {'str'}:
                    ln = ('d', 'len', a, st.ver.get(a[1], 0))
                    if ln in st.facts:
                        okl = self.assume_lt(st, ('S', ln), K(len(b[2])), False) and \
                            self.assume_lt(st, K(len(b[2])), ('S', ln), False)
                    if b[2] == '':
                        if ln not in c.facts:
                            c.facts[ln] = F0._replace(types=INT, lo=0)
                        if self.num_ne(c, ('S', ln), 0):
                            pass
                        else:
                            c = None
                if okl and self.text_ok(st, a, b[2]):
                    st.rels[('eq', a)] = b
                    if ta and 'NoneType' in ta:
                        self.drop_types(st, a[1], frozenset(['NoneType']))
                    out.append((st, True))
                if c is not None:
                    f = self.fact(c, a[1])
                    c.facts[a[1]] = f._replace(ne=f.ne | {b[2]})
                    if self.text_left(c, a):
                        out.append((c, False))
                return out
        if ta is not None and tb is not None and not (ta & tb):
            kinds = lambda t: not any(x in self.classes for x in t)
            if (kinds(ta) or kinds(tb)) and not (num(ta & NUM or ta) and num(tb & NUM or tb)):
                if not any(x.startswith('tokens.') or x.startswith('operators.') for x in ta | tb):
                    return [(st, False)]
        # empty list literal
        for x, y in ((a, b), (b, a)):
            if y[0] == 'R':
                o = self.obj(st, y)
                if o.kind in ('list',) and o.elems == () and x[0] in ('S', 'R'):
                    tx = self.types(st, x)
                    if tx is not None and tx == {'list'}:
                        return [(s, not t) for s, t in self.truth(x, st, node)]
        return self.split_bool(st, ('eq',) + tuple(sorted([a, b], key=repr)))

    def text_ok(self, st, a, text):
        """May unknown value a equal this text? (hook for finite text domains)"""
        dom = st.mon.get(('texts', a))
        return dom is None or text in dom

    def text_left(self, st, a):
        dom = st.mon.get(('texts', a))
        return dom is None or bool(dom - self.fact(st, a[1]).ne)

    def split_bool(self, st, key):
        q = self.der(st, *key, types=BOOL)
        if q[1] not in st.facts:
            st.facts[q[1]] = F0._replace(types=BOOL)
        return self.truth(q, st, None)

    def instkey(self, st, a, node):
        """Constant a dict finds an instance key under: what its own __hash__ hashes. None: unknown; False: unhashable."""
        o = self.obj(st, a)
        for q in self.mro(o.cls):
            c = self.classes.get(q)
            if c is None:
                continue
            h = c.attrs.get('__hash__')
            if h is None and '__eq__' in c.attrs or h is not None and isK(h):
                return False
            if h is not None:
                n = len(self.raises)
                res = self.call(('BM', h, a), [], {}, st.copy(), node)
                del self.raises[n:]
                if len(res) == 1 and res[0][1][0] == 'S' and res[0][1][1][:2] == ('d', 'hash') and isK(res[0][1][1][2]):
                    return res[0][1][1][2]
                if len(res) == 1 and isK(res[0][1]):
                    return None
                return None
        return None

    def cmp_in(self, a, b, st, node):
        if a[0] == 'R' and b[0] == 'R' and self.obj(st, a).kind == 'inst' and self.obj(st, b).kind in ('dict', 'set'):
            ct = self.contents(b, st)
            if ct is not None and all(isK(k) for k in ct[0]):
                k = self.instkey(st, a, node)
                if k is False:
                    self.raise_(st, 'TypeError', node, info='unhashable')
                    return []
                if k is not None:
                    hits = [x for x in ct[0] if x == k]
                    if not hits:
                        return [(st, False)]
                    return self.cmp_eq(a, hits[0], st, node)
        if isK(b) and isinstance(b[2], str):
            if isK(a):
                if isinstance(a[2], str):
                    return [(st, a[2] in b[2])]
                self.raise_(st, 'TypeError', node, info='in <string> requires string')
                return []
        ct = self.contents(b, st)
        if ct is not None:
            ks, exact = ct
            if isK(a) and exact and all(isK(k) for k in ks):
                return [(st, any(k[2] == a[2] for k in ks))]
            ca = a if isK(a) else self.eqconst(st, a)
            if ca is not None and exact and all(isK(k) for k in ks):
                return [(st, any(k[2] == ca[2] for k in ks))]
            if exact and len(ks) <= 8:
                cur = [(st, False)]
                for k in ks:
                    cur = [r for s, t in cur for r in ([(s, True)] if t else self.cmp_eq(a, k, s, node))]
                return cur
            if a[0] == 'S' and exact and all(isK(k) and isinstance(k[2], str) for k in ks):
                ta = self.types(st, a)
                if ta is not None and not any(t == 'str' or t in self.classes for t in ta):
                    return [(st, False)]
                texts = frozenset(k[2] for k in ks)
                return self.split_texts(a, texts, st)
        if b[0] in ('S', 'R'):
            ty = self.types(st, b)
            if ty and len(ty) == 1 and next(iter(ty)) in self.classes:
                cls = next(iter(ty))
                m = self.clsattr(cls, '__contains__')
                if m is not None and (cls not in PIP or getattr(self, 'inline_eq', False) and b[0] == 'R'):
                    out = []
                    for s, r in self.call(('BM', m, b), [a], {}, st, node):
                        out += self.truth(r, s, node)
                    return out
                if m is None and not self.has_iter(cls):
                    self.raise_(st, 'TypeError', node, info=f'{cls} is not a container')
                    return []
            if b[0] == 'S' and ty is not None:
                bad = frozenset(t for t in ty if t in ('int', 'float', 'bool', 'NoneType')
                                or t in self.classes and self.clsattr(t, '__contains__') is None
                                and not self.has_iter(t))
                if bad:
                    if bad == ty:
                        self.raise_(st, 'TypeError', node, info=f'{"/".join(sorted(bad))} is not a container')
                        return []
                    c = st.copy()
                    self.set_types(c, b[1], bad)
                    self.raise_(c, 'TypeError', node, info=f'{"/".join(sorted(bad))} is not a container')
                    self.drop_types(st, b[1], bad)
        ver = st.ver.get(b[1], 0) if b[0] == 'S' else len(repr(self.obj(st, b).content())) if b[0] == 'R' else 0
        return self.split_bool(st, ('in', a, b, ver))

    def split_texts(self, a, texts, st):
        """Fork on whether unknown text a is one of texts; consistent across overlapping questions."""
        key = a[1]
        f = self.fact(st, key)
        dom = st.mon.get(('texts', a))
        out = []
        ins = (texts if dom is None else texts & dom) - {x for x in f.ne if isinstance(x, str)}
        c = st.copy()
        if ins:
            st.mon[('texts', a)] = frozenset(ins)
            ta = f.types
            if ta and 'NoneType' in ta:
                self.drop_types(st, key, frozenset(['NoneType']))
            out.append((st, True))
        f2 = self.fact(c, key)
        c.facts[key] = f2._replace(ne=f2.ne | texts)
        if dom is None or dom - c.facts[key].ne:
            out.append((c, False))
        return out

    def contents(self, b, st):
        """(values, exact?) of a container with known contents (keys for a dict)."""
        if b[0] == 'T':
            return list(b[1]), True
        if b[0] == 'R':
            o = self.obj(st, b)
            if o.kind in ('list', 'set', 'iter') and o.elems is not None:
                return list(o.elems), True
            if o.kind == 'dict' and o.elems is not None:
                return [k for k, _ in o.elems], True
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.nsteps += 1
        fn = self._ev.get(type(e))
        if fn is None:
            fn = getattr(self, 'e_' + type(e).__name__, None)
            if fn is None:
                self.unknown[type(e).__name__] = self.unknown.get(type(e).__name__, 0) + 1
                return [(st, self.leaf(st, 'unknown'))]
            fn = fn.__func__
            self._ev[type(e)] = fn
        return fn(self, e, st)

    _ev = {}

    def e_Constant(self, e, st):
        return [(st, K(e.value))]

    def e_Name(self, e, st):
        v = self.lookup(e.id, st)
        if v is None:
            self.emit('undefined', e, st, name=e.id)
            fi = self.fstack[-1]
            loc = fi.locals if fi.locals is not None else None
            cls = 'UnboundLocalError' if loc and e.id in loc else 'NameError'
            self.raise_(st, cls, e, info=e.id)
            return []
        return [(st, v)]

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        fi = self.fstack[-1]
        if fi.kind != 'module' and fi.locals and name in fi.locals:
            return None
        c = fi.closure
        while c is not None:
            if name in c:
                return c[name]
            c = c.get('__closure__')
        g = self.mods[fi.mod].globals
        if g is not None and name in g:
            return g[name]
        if hasattr(builtins, name):
            return ('Ext', 'builtins.' + name)
        return None

    def e_NamedExpr(self, e, st):
        return [(c, v) for b, v in self.ev(e.value, st) for c in self.assign(e.target, v, b)]

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        cur = [(st, None, False)]
        n = len(e.values)
        for i, sub in enumerate(e.values):
            nxt = []
            for b, v, done in cur:
                if done:
                    nxt.append((b, v, True))
                    continue
                for c, w in self.ev(sub, b):
                    if i == n - 1:
                        nxt.append((c, w, True))
                    else:
                        for d, t in self.truth(w, c, sub):
                            nxt.append((d, w, t != isand))
            cur = nxt
        return [(b, v) for b, v, _ in cur]

    def e_UnaryOp(self, e, st):
        out = []
        if isinstance(e.op, ast.Not):
            return [(b, K(not t)) for b, t in self.cond(e.operand, st)]
        for b, v in self.ev(e.operand, st):
            out += self.models.unary(self, e.op, v, b, e)
        return out

    def e_Compare(self, e, st):
        return [(b, K(t)) for b, t in self.compare(e, st)]

    def e_IfExp(self, e, st):
        out = []
        for b, t in self.cond(e.test, st):
            out += self.ev(e.body if t else e.orelse, b)
        return out

    def e_BinOp(self, e, st):
        return [r for b, x in self.ev(e.left, st) for c, y in self.ev(e.right, b)
                for r in self.binop(e.op, x, y, c, e)]

    def binop(self, op, a, b, st, node):
        return self.models.binop(self, op, a, b, st, node)

    def evs(self, exprs, st):
        """Evaluate expressions left to right: [(state, [values])]; Starred gives ('Star', v)."""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for b, vs in cur:
                if isinstance(e, ast.Starred):
                    for c, v in self.ev(e.value, b):
                        for d, spec in self.iterate(v, c, e):
                            if spec[0] is not None:
                                nxt.append((d, vs + list(spec[0])))
                            else:
                                nxt.append((d, vs + [('Star', self.newlist(d, summ=spec[1], minlen=spec[2], src=v))]))
                else:
                    for c, v in self.ev(e, b):
                        nxt.append((c, vs + [v]))
            cur = nxt
        return cur

    def e_Tuple(self, e, st):
        out = []
        for b, vs in self.evs(e.elts, st):
            if any(v[0] == 'Star' for v in vs):
                out.append((b, self.seq_from(vs, b)))
            else:
                out.append((b, ('T', tuple(vs))))
        return out

    def seq_from(self, vs, st):
        summ = set()
        ml = 0
        for v in vs:
            if v[0] == 'Star':
                o = self.obj(st, v[1])
                summ |= set(o.summ or o.elems or ())
                ml += o.minlen
            else:
                summ.add(v)
                ml += 1
        return self.newlist(st, summ=summ, minlen=ml)

    def e_List(self, e, st):
        out = []
        for b, vs in self.evs(e.elts, st):
            if any(v[0] == 'Star' for v in vs):
                out.append((b, self.seq_from(vs, b)))
            else:
                out.append((b, self.newlist(b, vs)))
        return out

    def e_Set(self, e, st):
        return [(b, self.models.newset(self, b, [v for v in vs if v[0] != 'Star'])) for b, vs in self.evs(e.elts, st)]

    def e_Dict(self, e, st):
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for b, items in cur:
                if k is None:
                    for c, d in self.ev(v, b):
                        o = self.obj(c, d) if d[0] == 'R' else None
                        nxt.append((c, items + (list(o.elems) if o is not None and o.elems is not None else [])))
                else:
                    for c, kv in self.ev(k, b):
                        for d, vv in self.ev(v, c):
                            nxt.append((d, [x for x in items if x[0] != kv] + [(kv, vv)]))
            cur = nxt
        return [(b, self.alloc(b, Obj('dict', elems=tuple(items), site=self.where_fn()))) for b, items in cur]

    def e_JoinedStr(self, e, st):
        cur = [(st, [])]
        for part in e.values:
            nxt = []
            for b, vs in cur:
                if isinstance(part, ast.Constant):
                    nxt.append((b, vs + [K(part.value)]))
                else:
                    for c, v in self.ev(part.value, b):
                        if part.format_spec is not None:
                            nxt.append((c, vs + [self.der(c, 'format', v, ast.unparse(part.format_spec), types=STR)]))
                            continue
                        conv = {114: 'builtins.repr', 97: 'builtins.repr'}.get(part.conversion, 'builtins.str')
                        for d, r in self.models.builtin(self, conv, [v], {}, c, part):
                            nxt.append((d, vs + [r]))
            cur = nxt
        out = []
        for b, vs in cur:
            if all(isK(v) for v in vs):
                out.append((b, K(''.join(v[2] for v in vs))))
            else:
                ml = sum(len(v[2]) if isK(v) else self.minlen(b, v) for v in vs)
                r = self.der(b, 'fstr', *vs, types=STR)
                if ml:
                    b.facts.setdefault(('d', 'len', r, 0), F0._replace(types=INT, lo=ml))
                out.append((b, r))
        return out

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st):
        return self.make_fn(e, st, '<lambda>')

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Slice(self, e, st):
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return [(b, ('Sl',) + tuple(vs)) for b, vs in self.evs(parts, st)]

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        out = []
        for b, v in (self.ev(e.value, st) if e.value else [(st, NONE)]):
            self.emit('yield', e, b, value=v)
            ys = b.env.get('__yields__')
            if ys is not None:
                o = self.obj(b, ys)
                b.heap[ys[1]] = (o.rep(elems=o.elems + (v,)) if o.elems is not None else
                                 o.rep(summ=(o.summ or frozenset()) | {v}))
            out.append((b, NONE))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for b, v in self.ev(e.value, st):
            ys = b.env.get('__yields__')
            for c, spec in self.iterate(v, b, e):
                if ys is not None:
                    o = self.obj(c, ys)
                    vals = spec[0] if spec[0] is not None else spec[1]
                    c.heap[ys[1]] = o.rep(elems=None, summ=frozenset(o.elems or o.summ or ()) | frozenset(vals))
                out.append((c, NONE))
        return out

    # comprehensions ----------------------------------------------------
    def comp(self, e, st, elts, kind):
        """[(state, exact list | None, summary, minlen)] for a comprehension."""
        gens = e.generators

        def rec(gi, st, acc):
            # returns list of (state, items list or None, summ, minlen)
            if gi == len(gens):
                out = []
                for b, vs in self.evs(elts, st):
                    out.append((b, [tuple(vs) if len(vs) > 1 else vs[0]], None, 1))
                return out
            g = gens[gi]
            res = []
            for b, it in self.ev(g.iter, st):
                for c, spec in self.iterate(it, b, g):
                    exact, summ, minlen = spec
                    limit = 10 ** 9 if self.loading else 24 if exact is None or not all(v[0] == 'K' for v in exact) else 130
                    if exact is not None and len(exact) <= limit:
                        cur = [(c, [], frozenset(), 0, True)]
                        for v in exact:
                            nxt = []
                            for d, items, sm, ml, ex in cur:
                                for f in self.assign(g.target, v, d):
                                    conds = [(f, True)]
                                    for i in g.ifs:
                                        conds = [r for h, t in conds for r in (self.cond(i, h) if t else [(h, t)])]
                                    for h, t in conds:
                                        if not t:
                                            nxt.append((h, items, sm, ml, ex))
                                            continue
                                        for k, its, s2, m2 in rec(gi + 1, h, None):
                                            if its is not None and ex:
                                                nxt.append((k, items + its, sm, ml + len(its), True))
                                            else:
                                                nxt.append((k, None, sm | frozenset(items or ()) | frozenset(its or ())
                                                            | (s2 or frozenset()), ml + m2, False))
                            if len(nxt) > self.limit:
                                nxt = nxt[:self.hard] if len(nxt) > self.hard else nxt
                            cur = nxt
                        for d, items, sm, ml, ex in cur:
                            if ex:
                                res.append((d, items, None, len(items)))
                            else:
                                res.append((d, None, sm, ml))
                        continue
                    if exact is not None:
                        summ, minlen = frozenset(exact), len(exact)
                    z = None
                    if minlen == 0 or gi > 0 or g.ifs:
                        z = c.copy()
                        if minlen == 0 and not g.ifs:
                            self.mark_empty(it, z)
                        res.append((z, [], None, 0))
                    single = len(gens) == 1 and isinstance(g.target, ast.Name)
                    fails = [] if single and g.ifs else None
                    vals = sorted(summ, key=repr)
                    if len(vals) > 4:
                        vals = [self.join_vals(vals, c)]
                    for e0 in vals:
                        d = c.copy()
                        if minlen == 0:
                            self.mark_nonempty(it, d)
                        el = self.freshen(e0, d)
                        for f in self.assign(g.target, el, d):
                            conds = [(f, True)]
                            for i in g.ifs:
                                conds = [r for h, t in conds for r in (self.cond(i, h) if t else [(h, t)])]
                            for h, t in conds:
                                if not t:
                                    if fails is not None:
                                        fails.append(self.types(h, el))
                                    continue
                                for k, its, s2, m2 in rec(gi + 1, h, None):
                                    s3 = frozenset(its or ()) | (s2 or frozenset())
                                    if single and not g.ifs and kind == 'gen' and len(s3) == 1:
                                        v0 = next(iter(s3))
                                        if v0[0] == 'K' and isinstance(v0[2], bool) or \
                                                v0[0] == 'S' and self.types(k, v0) == frozenset(['bool']):
                                            k.mon['~gen'] = (it, el)
                                    # the empty result is the state z, when there is one
                                    res.append((k, None, s3, (1 if m2 else 0) if not g.ifs or single else 0))
                    if fails is not None and z is not None:
                        # no element passed the filter
                        if not fails:
                            if minlen == 0:
                                self.mark_empty(it, z)
                            else:
                                res.pop(res.index((z, [], None, 0)))
                        elif all(t for t in fails):
                            src = self.checked_source(c, it)
                            if src is not None:
                                self.note_checked(z, src, frozenset().union(*fails), True, c)
            return res
        return rec(0, st, None)

    def mark_empty(self, v, st):
        """The iterable was empty on this path."""
        t = self.types(st, v)
        if v[0] == 'S' and t and t <= {SCALAR, LIST} and len(t) == 1:
            fv = self.field(v, '_value', next(iter(t)), st)
            self.assume_len(fv, st, 0)
        elif v[0] == 'S' and t and t <= {'str', 'list'}:
            self.assume_len(v, st, 0)

    def mark_nonempty(self, v, st):
        t = self.types(st, v)
        if v[0] == 'S' and t and t <= {SCALAR, LIST} and len(t) == 1:
            v = self.field(v, '_value', next(iter(t)), st)
            t = self.types(st, v)
        if v[0] == 'S' and t and t <= {'str', 'list'}:
            ln = self.lenof(v, st)
            self.assume_lt(st, K(1), ln, False)

    def assume_len(self, v, st, n):
        if v[0] == 'S':
            ln = self.lenof(v, st)
            self.assume_lt(st, ln, K(n), False)

    def lenof(self, v, st):
        key = ('d', 'len', v, st.ver.get(v[1], 0))
        if key not in st.facts:
            st.facts[key] = F0._replace(types=INT, lo=0)
        return ('S', key)

    def e_ListComp(self, e, st):
        return [(b, self.newlist(b, items, summ, ml)) for b, items, summ, ml in
                self.comp_scoped(e, st, [e.elt], 'list')]

    def e_SetComp(self, e, st):
        return [(b, self.models.newset(self, b, items) if items is not None else self.newlist(b, items, summ, min(ml, 1), kind='set'))
                for b, items, summ, ml in self.comp_scoped(e, st, [e.elt])]

    def e_GeneratorExp(self, e, st):
        out = []
        for b, items, summ, ml in self.comp_scoped(e, st, [e.elt], 'gen'):
            gen = b.mon.pop('~gen', None)
            v = self.newlist(b, items, summ, ml, kind='iter', cls='generator')
            if gen is not None:
                b.mon[('gen', v)] = gen
            out.append((b, v))
        return out

    def e_DictComp(self, e, st):
        out = []
        for b, items, summ, ml in self.comp_scoped(e, st, [e.key, e.value]):
            if items is not None:
                d = {}
                for k, v in items:
                    d[k] = v
                out.append((b, self.alloc(b, Obj('dict', elems=tuple(d.items()), site=self.where_fn()))))
            else:
                out.append((b, self.alloc(b, Obj('dict', summ=frozenset(('KV', k, v) for k, v in summ),
                                                 minlen=0, site=self.where_fn()))))
        return out

    def checked_source(self, st, it):
        src, pos = self.loop_source(st, it) if not self.loading else (None, None)
        return src if pos is None else None

    def comp_scoped(self, e, st, elts, kind=None):
        """Comprehension variables are local to it; merge what differs only in them."""
        names = assigned_names([g.target for g in e.generators])
        shadow = {n: st.env[n] for n in names if n in st.env}
        res = self.comp(e, st, elts, kind)
        out = []
        seen = set()
        for b, items, summ, ml in res:
            for n in names:
                if n in shadow:
                    b.env[n] = shadow[n]
                else:
                    b.env.pop(n, None)
            out.append((b, items, summ, ml))
        if len(out) > 8:
            uniq = []
            for b, items, summ, ml in out:
                b.env['__comp__'] = ('T', tuple(items) if items is not None else tuple(sorted(summ, key=repr))) \
                    if len(elts) == 1 else NONE
                k = (self.state_key(b), ml, items is None)
                b.env.pop('__comp__', None)
                if k not in seen:
                    seen.add(k)
                    uniq.append((b, items, summ, ml))
            out = uniq
        return out

    # attributes --------------------------------------------------------
    def e_Attribute(self, e, st):
        return [r for b, o in self.ev(e.value, st) for r in self.getattr_(o, e.attr, b, e)]

    def field(self, v, attr, cls, st):
        """Value of a data field of an unknown object of class cls."""
        key = ('d', 'f', v, attr)
        s = st.sets.get((v[1], attr))
        if s is not None:
            return s
        if key not in st.facts:
            ft = None
            for q in self.mro(cls):
                if (q, attr) in self.FIELD_TYPES:
                    ft = self.FIELD_TYPES[(q, attr)]
                    break
            if ft is not None:
                st.facts[key] = F0._replace(types=ft[0], lo=ft[1])
            else:
                st.facts[key] = F0
        return ('S', key)

    inline_str = False    # str() and repr() of values followed into their methods
    exc_text = False    # texts of exceptions followed
    extvals = {}    # values of attributes of library modules a check fixes (sys.argv)

    def getattr_(self, o, attr, st, node):
        t = o[0]
        if t == 'Mod':
            g = self.mods[o[1]].globals
            if attr in g:
                return [(st, g[attr])]
            self.raise_(st, 'AttributeError', node, info=f'module {o[1]} has no {attr}')
            return []
        if t == 'Ext':
            v = self.extvals.get(f'{o[1]}.{attr}')
            return [(st, v if v is not None else self.models.ext_attr(o[1], attr))]
        if t == 'Cls':
            if attr == '__name__':
                return [(st, K(o[1].split('.')[-1]))]
            s = st.sets.get((o, attr))
            if s is not None:
                return [(st, s)]
            a = self.clsattr(o[1], attr)
            if a is None:
                if attr.startswith('__') or not self.known_bases(o[1]):
                    return [(st, ('M', o, attr))]
                self.raise_(st, 'AttributeError', node, info=f'{o[1]} has no {attr}')
                return []
            return [(st, a)]
        if t == 'R':
            ob = self.obj(st, o)
            if ob.kind == 'inst':
                if attr in ob.fields:
                    return [(st, ob.fields[attr])]
                return self.clsbound(o, ob.cls, attr, st, node)
            if ob.cls == 'range' and attr in ('start', 'stop', 'step'):
                if ob.fields:
                    return [(st, ob.fields[attr])]
                return [(st, self.leaf(st, attr, INT))]
            return [(st, ('M', o, attr))]
        if t == 'Sl' and attr in ('start', 'stop', 'step'):
            return [(st, o[('start', 'stop', 'step').index(attr) + 1])]
        if t == 'X':
            if attr == 'args':
                return [(st, ('T', o[2]))]
            return [(st, self.leaf(st, 'excattr'))]
        if t == 'Rx':
            if attr == 'pattern':
                return [(st, K(o[1]))]
            if attr == 'flags':
                return [(st, K(o[2]))]
            return [(st, ('M', o, attr))]
        if t == 'S':
            return self.getattr_sym(o, attr, st, node)
        if t in ('Fn', 'BM') and attr in ('__name__', '__doc__'):
            return [(st, self.leaf(st, attr, STR))]
        return self.check_method(o, attr, st, node)

    PYATTRS = {'int': int, 'float': float, 'str': str, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict,
               'set': set, 'NoneType': type(None), 'range': range, 'slice': slice}

    def check_method(self, o, attr, st, node):
        ty = self.types(st, o)
        if ty and len(ty) == 1:
            pc = self.PYATTRS.get(next(iter(ty)))
            if pc is not None and not hasattr(pc, attr):
                self.raise_(st, 'AttributeError', node, info=f'{next(iter(ty))} has no {attr}')
                return []
        return [(st, ('M', o, attr))]

    def known_bases(self, qual):
        return all(q in self.classes or q == 'object' for q in self.mro(qual))

    def clsbound(self, o, cls, attr, st, node):
        s = st.sets.get((o[1], attr)) if o[0] == 'S' else None
        if s is not None:
            return [(st, s)]
        a = self.clsattr(cls, attr)
        if a is not None:
            if a[0] == 'Fn':
                fi = self.fns[a[1]]
                if fi.kind == 'property':
                    return self.call(('BM', a, o), [], {}, st, node)
                if fi.kind == 'staticmethod':
                    return [(st, a)]
                if fi.kind == 'classmethod':
                    return [(st, ('BM', a, ('Cls', cls)))]
                return [(st, ('BM', a, o))]
            if o[0] == 'S' and self.hasfield(cls, attr):
                return [(st, self.field(o, attr, cls, st))]
            for q in self.mro(cls):
                cs = st.sets.get((('Cls', q), attr))
                if cs is not None:
                    return [(st, cs)]
            if self.class_mutable(attr):
                return [(st, self.der(st, 'classvar', ('Cls', cls), attr))]
            return [(st, a)]
        if attr == '__class__':
            return [(st, ('Cls', cls))]
        if o[0] == 'S' and (self.hasfield(cls, attr)):
            return [(st, self.field(o, attr, cls, st))]
        if attr.startswith('__') and attr.endswith('__'):
            return [(st, ('M', o, attr))]
        if not self.known_bases(cls):
            return [(st, ('M', o, attr))]
        if self.hasfield(cls, attr):
            # instance built here without that field on this path
            if self.obj(st, o).static and self.loading:
                return [(st, self.leaf(st, 'field'))]
        self.raise_(st, 'AttributeError', node, info=f'{cls} has no attribute {attr}')
        return []

    def class_mutable(self, attr):
        """Class variables some code assigns at run time."""
        c = getattr(self, '_clsmut', None)
        if c is None:
            c = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and n.value.id[:1].isupper():
                        c.add(n.attr)
            if not self.loading:
                self._clsmut = c
        return attr in c

    def getattr_sym(self, o, attr, st, node):
        key = o[1]
        s = st.sets.get((key, attr))
        if s is not None:
            return [(st, s)]
        ty = self.types(st, o)
        if ty is None:
            return [(st, ('M', o, attr))]
        if ty <= {'slice', 'range'} and attr in ('start', 'stop', 'step'):
            return [(st, self.der(st, 'attr', o, attr, types={'int'} if ty <= {'range'} else {'int', 'NoneType'}))]
        repo = frozenset(t for t in ty if t in self.classes)
        if not repo:
            bad = frozenset(t for t in ty if t in self.PYATTRS and not hasattr(self.PYATTRS[t], attr))
            if bad:
                if bad == ty:
                    self.raise_(st, 'AttributeError', node, info=f'{"/".join(sorted(bad))} has no {attr}')
                    return []
                c = st.copy()
                self.set_types(c, key, bad)
                self.raise_(c, 'AttributeError', node, info=f'{"/".join(sorted(bad))} has no {attr}')
                self.drop_types(st, key, bad)
            if ty <= {'re.Match'}:
                return [(st, self.models.match_attr(self, o, attr, st))]
            return [(st, ('M', o, attr))]
        if len(ty) == 1:
            return self.clsbound(o, next(iter(ty)), attr, st, node)
        # several classes: group by how the attribute resolves
        groups = {}
        for t in ty:
            if t in self.classes:
                a = self.clsattr(t, attr)
                if a is None:
                    if self.hasfield(t, attr):
                        g = ('field', t if attr == '_value' else 0)
                    elif attr.startswith('__') or not self.known_bases(t):
                        g = ('other',)
                    else:
                        g = ('missing',)
                else:
                    g = ('cls', a)
            else:
                pc = self.PYATTRS.get(t)
                g = ('missing',) if pc is not None and not hasattr(pc, attr) else ('py', t)
            groups.setdefault(g, set()).add(t)
        out = []
        # methods with a summary independent of the class are not split
        clsgroups = [g for g in groups if g[0] == 'cls' and g[1][0] == 'Fn']
        if len(clsgroups) > 1 and attr in self.joint_methods:
            joint = frozenset().union(*[groups[g] for g in clsgroups])
            for g in clsgroups:
                del groups[g]
            b = st.copy()
            self.set_types(b, key, joint)
            out.append((b, ('M', o, attr)))
        for g, ts in sorted(groups.items(), key=repr):
            b = st.copy()
            if not self.set_types(b, key, frozenset(ts)):
                continue
            if g[0] == 'missing':
                self.raise_(b, 'AttributeError', node, info=f'{"/".join(sorted(ts))} has no attribute {attr}')
            elif g[0] == 'cls' and g[1][0] == 'Fn':
                out += self.clsbound(o, next(iter(ts)), attr, b, node)
            elif g[0] in ('cls', 'field'):
                out += self.clsbound(o, sorted(ts)[0], attr, b, node)
            else:
                out.append((b, ('M', o, attr)))
        return out

    joint_methods = frozenset(['copy', 'toNumber', 'isFinite'])

    def setattr_(self, o, attr, v, st, node):
        self.emit('setattr', node, st, obj=o, attr=attr, value=v)
        if o[0] == 'R':
            ob = self.obj(st, o)
            if ob.kind == 'inst':
                f = dict(ob.fields)
                f[attr] = v
                if ob.static and not self.loading:
                    st.heap[o[1]] = ob.rep(fields=f)
                elif self.loading:
                    ob.fields[attr] = v
                    st.heap[o[1]] = ob
                else:
                    st.heap[o[1]] = ob.rep(fields=f)
        elif o[0] == 'S':
            st.sets[(o[1], attr)] = v
        elif o[0] == 'Cls':
            st.sets[(o, attr)] = v
        return [st]

    # subscripts ----------------------------------------------------------
    def e_Subscript(self, e, st):
        return [r for b, o in self.ev(e.value, st) for c, i in self.ev(e.slice, b)
                for r in self.getitem(o, i, c, e)]

    def getitem(self, o, i, st, node):
        return self.models.getitem(self, o, i, st, node)

    def setitem(self, o, i, v, st, node):
        return self.models.setitem(self, o, i, v, st, node)

    # calls ---------------------------------------------------------------
    def e_Call(self, e, st):
        out = []
        for b, f in self.ev(e.func, st):
            for c, args in self.evs(e.args, b):
                kws = [(c, {})]
                for kw in e.keywords:
                    nxt = []
                    for d, m in kws:
                        for g, v in self.ev(kw.value, d):
                            if kw.arg is None:
                                ok = v[0] == 'R' and self.obj(g, v).kind == 'dict' and self.obj(g, v).elems is not None
                                extra = {k[2]: x for k, x in self.obj(g, v).elems if isK(k)} if ok else {'**': v}
                                nxt.append((g, {**m, **extra}))
                            else:
                                nxt.append((g, {**m, kw.arg: v}))
                    kws = nxt
                for d, m in kws:
                    out += self.call(f, args, m, d, e)
        if len(out) > self.limit:
            out = self.merge_vals(out)
        return out

    def merge_vals(self, res, limit=None):
        """Merge states that agree on everything including the produced value."""
        seen = {}
        for b, v in res:
            b.env['__val__'] = v
            k = self.state_key(b)
            b.env.pop('__val__')
            if k not in seen:
                seen[k] = (b, v)
        out = list(seen.values())
        if len(out) > (limit or self.limit):
            for b, v in out:
                b.env['__val__'] = v
            out = [(b, b.env.pop('__val__')) for b in self.join_states([b for b, _ in out])]
        return out

    def call(self, f, args, kw, st, node):
        t = f[0]
        if t == 'Fn':
            return self.call_fn(self.fns[f[1]], list(args), kw, st, node)
        if t == 'BM':
            return self.call_fn(self.fns[f[1][1]], [f[2]] + list(args), kw, st, node)
        if t == 'Cls':
            return self.construct(f[1], args, kw, st, node)
        if t == 'Ext':
            return self.models.builtin(self, f[1], args, kw, st, node)
        if t == 'M':
            return self.models.method(self, f[1], f[2], args, kw, st, node)
        if t == 'K' or t == 'T':
            self.raise_(st, 'TypeError', node, info='object is not callable')
            return []
        ty = self.types(st, f)
        if t == 'S' and f[1][:2] == ('d', 'type') and f[1][2][0] == 'S':
            x = f[1][2]
            tx = self.types(st, x)
            if tx and all(q in self.classes for q in tx):
                out = []
                for q in sorted(tx):
                    c = st.copy()
                    if self.set_types(c, x[1], frozenset([q])):
                        out += self.construct(q, list(args), kw, c, node)
                return out
        h = self.intrinsics.get('<call>')
        if h:
            r = h(self, f, args, kw, st, node)
            if r is not None:
                return r
        if t == 'S' and ty is not None and ty and all(x in self.classes and self.clsattr(x, '__call__') is None
                                                      or x in ('str', 'int', 'list', 'NoneType', 'float') for x in ty):
            self.raise_(st, 'TypeError', node, info=f'{"/".join(sorted(ty))} is not callable')
            return []
        self.emit('unknown_call', node, st, fn=f, args=args)
        return [(st, self.leaf(st, 'call'))]

    def construct(self, cls, args, kw, st, node):
        h = self.intrinsics.get(cls)
        if h:
            r = h(self, args, kw, st, node)
            if r is not None:
                return r
        if self.exc_isa(cls, 'BaseException') and any(q not in self.classes for q in self.mro(cls)):
            return [(st, ('X', cls, tuple(a for a in args if a[0] != 'Star'), self.where(node) + ('',), False))]
        if cls == NIL and not self.loading:
            for g in self.mods['ptypes'].globals.values():
                if g[0] == 'R' and self.nilcls(st, g):
                    return [(st, g)]
        o = self.alloc(st, Obj('inst', cls, {}, site=self.where_fn()))
        init = self.clsattr(cls, '__init__')
        self.emit('construct', node, st, cls=cls, args=args, obj=o)
        if init is None:
            if args and not self.clsattr(cls, '__new__'):
                self.raise_(st, 'TypeError', node, info=f'{cls}() takes no arguments')
                return []
            return [(st, o)]
        return [(b, o) for b, _ in self.call(('BM', init, o), args, kw, st, node)]

    def bind(self, fi, args, kw, st, node):
        """Bind arguments: env dict or None (TypeError)."""
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        star = [i for i, v in enumerate(args) if v[0] == 'Star']
        if star:
            i = star[0]
            head, tail = args[:i], args[i:]
            for p, v in zip(params, head):
                env[p] = v
            rest = params[len(head):]
            vals = set()
            for v in tail:
                if v[0] == 'Star':
                    o = self.obj(st, v[1])
                    vals |= set(o.summ or o.elems or ())
                else:
                    vals.add(v)
            for p in rest:
                if p in kw:
                    env[p] = kw.pop(p)
                else:
                    env[p] = self.join_vals(sorted(vals, key=repr), st) if vals else self.leaf(st, 'arg')
            if a.vararg:
                env[a.vararg.arg] = self.newlist(st, summ=vals, minlen=0)
        else:
            if len(args) > len(params) and not a.vararg:
                return None, f'{fi.qual}() takes {len(params)} arguments, {len(args)} given'
            for p, v in zip(params, args):
                env[p] = v
            if a.vararg:
                env[a.vararg.arg] = ('T', tuple(args[len(params):]))
            for p in params[len(args):]:
                if p in kw:
                    env[p] = kw.pop(p)
            nd = len(fi.defaults)
            for p, d in zip(params[len(params) - nd:], fi.defaults):
                if p not in env:
                    env[p] = d
            miss = [p for p in params if p not in env]
            if miss:
                if '**' in kw:
                    for p in miss:
                        env[p] = self.leaf(st, 'arg')
                else:
                    return None, f'{fi.qual}() missing argument {miss[0]}'
        for p, d in zip(a.kwonlyargs, fi.kwdefaults):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif d is not None:
                env[p.arg] = d
            else:
                return None, f'{fi.qual}() missing keyword argument {p.arg}'
        if kw and not a.kwarg and '**' not in kw:
            return None, f'{fi.qual}() got an unexpected keyword argument {sorted(kw)[0]}'
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, Obj('dict', elems=tuple((K(k), v) for k, v in kw.items() if k != '**')))
        return env, None

    def call_fn(self, fi, args, kw, st, node):
        h = self.intrinsics.get(fi.qual)
        if h is None and fi.cls:
            h = self.intrinsics.get('*.' + fi.name)
        if h:
            r = h(self, fi, args, kw, st, node)
            if r is not None:
                return r
        self.emit('call', node, st, fn=fi, args=args, kw=kw)
        env, err = self.bind(fi, args, kw, st, node)
        if env is None:
            self.raise_(st, 'TypeError', node, info=err)
            return []
        depth_same = sum(1 for f in self.fstack if f.id == fi.id)
        if depth_same >= self.reclimit or len(self.fstack) > self.depthlimit:
            self.emit('recursion', node, st, fn=fi, args=args)
            return self.recursion(fi, args, kw, st, node)
        if fi.mod in self.collapse_mods and not self.loading:
            if fi.qual in self.heavy:
                r = self.summarised(fi, env, st, node)
                if r is not None:
                    return r
            n0 = self.nsteps
            r = self.run_fn(fi, env, st, node)
            if self.nsteps - n0 > 300:
                self.heavy.add(fi.qual)
            return r
        return self.run_fn(fi, env, st, node)

    heavy = set()
    summaries = {}

    def arg_desc(self, st, v):
        if v[0] == 'K' or v[0] in ('Cls', 'Ext'):
            return v
        if v[0] == 'Sl':
            ds = tuple(self.arg_desc(st, x) for x in v[1:])
            return None if None in ds else ('Sl',) + ds
        if v[0] == 'S':
            f = self.fact(st, v[1])
            if f.types is None or st.mon.get(('elems', v)) is not None:
                return None
            return ('S', f.types, f.lo, f.los, f.hi, f.his, f.ne if f.types <= NUM else frozenset(), f.truth,
                    self.minlen(st, v) > 0 if f.types <= {'str', SCALAR, LIST, 'list'} else None)
        if v[0] == 'R':
            if v[1] in self.base_heap:
                return v
            o = self.obj(st, v)
            if o.kind == 'inst' and o.cls in PIP:
                x = o.fields.get('_value')
                if o.cls == LIST:
                    if x is None or x[0] != 'R':
                        return None
                    l = self.obj(st, x)
                    for e in (l.elems if l.elems is not None else (l.summ or ())):
                        t = self.types(st, e)
                        if t is None or not t <= PIP:
                            return None
                return ('I', o.cls, x is not None and self.minlen(st, x) > 0)
        return None

    def summarised(self, fi, env, st, node):
        """Apply a (cached) summary of a function for arguments of this description, or None."""
        names = sorted(env)
        ds = tuple(self.arg_desc(st, env[n]) for n in names)
        if None in ds:
            return None
        key = (fi.qual, tuple(names), ds)
        if key not in self.summaries:
            self.summaries[key] = None
            self.summaries[key] = self.make_summary(fi, names, ds, node)
        sm = self.summaries[key]
        if sm is None:
            return None
        results, raises = sm
        for x in raises:
            c = st.copy()
            c.env = dict(c.env)
            self.raises.append((c, x))
        out = []
        for r in results:
            c = st.copy()
            c.env = dict(c.env)
            if r[0] == '=':
                out.append((c, r[1]))
            elif r[0] == 'arg':
                out.append((c, env[r[1]]))
            elif not r[2] and all(env[n][0] in ('S', 'K') for n in names):
                # the same call on unchanged arguments yields the same value
                key = ('d', 'call', fi.qual) + tuple(env[n] for n in names) + \
                    tuple(st.ver.get(env[n][1], 0) for n in names if env[n][0] == 'S')
                if key in c.facts:
                    if not self.set_types(c, key, r[1]):
                        continue
                else:
                    c.facts[key] = F0._replace(types=frozenset(r[1]), lo=r[3], hi=r[4])
                out.append((c, ('S', key)))
            else:
                out.append((c, self.leaf(c, 'ret', r[1], r[3], r[4], fresh=r[2])))
        return out

    def make_summary(self, fi, names, ds, node):
        g = State()
        env = {}

        def conc(n, d):
            if d[0] == 'Sl':
                return ('Sl',) + tuple(conc(f'{n}.{i}', x) for i, x in enumerate(d[1:]))
            if d[0] == 'I':
                v = S(('p', n))
                g.facts[v[1]] = F0._replace(types=frozenset([d[1]]))
                g.fresh = g.fresh | {v[1]}
                if d[2]:
                    x = S(('d', 'f', v, '_value'))
                    g.facts[x[1]] = F0._replace(types=STR if d[1] == SCALAR else frozenset(['list']))
                    g.facts[('d', 'len', x, 0)] = F0._replace(types=INT, lo=1)
                return v
            if d[0] == 'S':
                v = S(('p', n))
                g.facts[v[1]] = Fact(d[1], frozenset(), d[2], d[3], d[4], d[5], d[6], d[7])
                if d[8]:
                    x = v
                    if d[1] <= PIP:
                        if len(d[1]) > 1:
                            return v
                        x = S(('d', 'f', v, '_value'))
                        g.facts[x[1]] = F0._replace(types=STR if d[1] == {SCALAR} else frozenset(['list']))
                    g.facts[('d', 'len', x, 0)] = F0._replace(types=INT, lo=1)
                return v
            return d
        for n, d in zip(names, ds):
            env[n] = conc(n, d)
        base = g.copy()
        saved = self.raises
        self.raises = []
        g.env = {}
        res = self.run_fn(fi, dict(env), g, node)
        mine = self.raises
        self.raises = saved
        known = set(base.facts)
        results, raises = [], []
        seen = set()
        for b, v in res:
            if not self.same_heap(base, b):
                return None
            r = None
            for n in names:
                if v == env[n] and v[0] != 'K':
                    r = ('arg', n)
            if r is None:
                if v[0] in ('K', 'Fn', 'Cls', 'Ext') or v[0] == 'R' and v[1] in self.base_heap:
                    r = ('=', v)
                else:
                    ty = self.types(b, v)
                    if ty is None or not all(t in self.classes or t in NUM or t in STR for t in ty):
                        return None
                    lo, _, hi, _ = self.num_bounds(b, v)
                    r = ('leaf', ty, self.isfresh(b, v) if v[0] in ('S', 'R') else True,
                         None if lo == -INF else lo, None if hi == INF else hi)
            if r not in seen:
                seen.add(r)
                results.append(r)
        for b, x in mine:
            if not self.same_heap(base, b):
                return None
            y = ('X', x[1], ()) + x[3:]
            if y not in raises:
                raises.append(y)
        return results, raises

    def recursion(self, fi, args, kw, st, node):
        ty = self.rec_types.get(fi.qual)
        if ty is not None and not any(LVAL in (self.types(st, a) or (LVAL,)) for a in args[1:]):
            ty = ty & PIP
        if ty is not None:
            # by induction on the depth of the recursion
            return [(st, self.leaf(st, 'rec ' + fi.name, ty, fresh=True))]
        return [(st, self.leaf(st, 'rec ' + fi.name))]

    rec_types = {}
    reclimit = 1

    def run_fn(self, fi, env, st, node):
        """Interpret a function body with the given local environment: [(state, return value)]."""
        self.inlined.add(fi.qual)
        caller = st.env
        st.stack = (caller,) + st.stack
        if fi.closure is not None:
            pass
        gen = None
        st.env = env
        if fi.isgen:
            gen = self.newlist(st, (), kind='iter', cls='generator')
            st.env['__yields__'] = gen
        saved = self.raises
        self.raises = []
        entry = None
        if fi.mod in self.collapse_mods and not self.loading:
            entry = st.copy()
            entry.env, entry.stack = caller, st.stack[1:]
        if fi.locals is None and not isinstance(fi.node, ast.Lambda):
            glob = set()
            for n in walk_own(fi.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob |= set(n.names)
            fi.locals = assigned_names(fi.node.body) - glob
            fi.live = Liveness(fi.node)
        elif fi.locals is None:
            fi.locals = frozenset()
        self.fstack.append(fi)
        self.callnodes.append(node)
        self.recv.append(env.get('self'))
        if isinstance(fi.node, ast.Lambda):
            res = [(b, ('ret', v)) for b, v in self.ev(fi.node.body, st)]
        else:
            res = self.exec_block(fi.node.body, [st])
        self.recv.pop()
        self.fstack.pop()
        self.callnodes.pop()
        mine = self.raises
        self.raises = saved
        for b, x in mine:
            b.env, b.stack = dict(b.stack[0]), b.stack[1:]
        if entry is not None and len(mine) > 3:
            mine = self.collapse_raises(entry, mine)
        self.raises += mine
        out = []
        for b, sig in res:
            if gen is not None:
                v = b.env.get('__yields__', gen)
            elif sig is None:
                v = NONE
            elif isinstance(sig, tuple):
                v = sig[1]
            else:
                continue
            b.env, b.stack = dict(b.stack[0]), b.stack[1:]
            out.append((b, v))
        if entry is not None:
            if len(out) > 6:
                out = self.collapse_results(entry, out)
        if len(self.raises) > self.raise_limit:
            saved[:] = self.merge_raises(self.raises)
            self.raises = saved
        if len(out) > self.valjoin:
            out = self.merge_vals(out, self.valjoin if self.fstack and not self.loading else None)
        return out

    valjoin = 12              # merge the outcomes of a call when there are more than this many
    weak_top = True
    collapse_mods = frozenset(['ptypes'])

    def same_heap(self, entry, b):
        if b.sets != entry.sets or b.mon is not entry.mon and b.mon != entry.mon:
            return False
        for a, o in entry.heap.items():
            o2 = b.heap.get(a)
            if o2 is not o and (o2 is None or o2.kind != o.kind or o2.fields != o.fields or
                                o.elems != o2.elems and not (o.elems is None and o2.elems == ())):
                return False
        return True

    def collapse_raises(self, entry, mine):
        """Exceptions of a callee that changed nothing: one per kind and origin, in the state before the call."""
        seen = {}
        out = []
        for b, x in mine:
            if not self.same_heap(entry, b):
                out.append((b, x))
                continue
            k = (x[1], x[3], x[4])
            if k not in seen:
                c = entry.copy()
                c.env = dict(c.env)
                c.n = max(c.n, b.n)
                c.trace = b.trace
                seen[k] = (c, ('X', x[1], ()) + x[3:])
        return out + list(seen.values())

    def collapse_results(self, entry, res):
        known = set(entry.facts)
        groups = {}
        for b, v in res:
            if not self.same_heap(entry, b):
                return res
            if v[0] in ('K', 'Fn', 'Cls', 'Ext') or v[0] == 'R' and (v[1] in entry.heap or v[1] in self.base_heap):
                k = ('=', v)
            elif v[0] == 'S' and all(r in known for r in kroots(v[1]) if r[0] != 'R') and v[1] in known:
                k = ('=', v)
            else:
                ty = self.types(b, v)
                if ty is None or not all(t in self.classes or t in NUM or t in STR for t in ty):
                    return res
                # bound methods, tuples, containers keep their own state
                k = ('leaf', ty, self.isfresh(b, v) if v[0] in ('S', 'R') else True)
            groups.setdefault(k, []).append((b, v))
        if len(groups) > 12:
            return res
        out = []
        for k, items in groups.items():
            c = entry.copy()
            c.env = dict(c.env)
            c.n = max(b.n for b, _ in items)
            c.trace = items[0][0].trace
            if k[0] == '=':
                out.append((c, k[1]))
            else:
                bs = [self.num_bounds(b, v) for b, v in items]
                lo, hi = min(x[0] for x in bs), max(x[2] for x in bs)
                out.append((c, self.leaf(c, 'ret', k[1], None if lo == -INF else lo, None if hi == INF else hi,
                                         fresh=k[2])))
        return out

    raise_limit = 150

    def merge_raises(self, rs):
        """Join the states in which the same exception escapes."""
        groups = {}
        for b, x in rs:
            groups.setdefault((x[1], x[3], x[4]), []).append((b, x))
        out = []
        for (c, o, w), items in groups.items():
            if len(items) <= 2:
                out += items
                continue
            for b in self.join_states([b for b, _ in items]):
                out.append((b, ('X', c, (), o, w)))
        return out

    # ------------------------------------------------------------------ entry point for checks
    def analyse(self, qual, args, st=None, kw=None):
        """Run function `module.f` / `module.Class.m` on abstract arguments.

        Returns (normal results [(state, value)], raises [(state, exception)]).
        """
        fi = self.find(qual)
        if fi is None:
            raise Broken(f'function {qual} not found')
        st = st or State()
        self.raises = []
        self.fstack = []
        self.callnodes = []
        env, err = self.bind_entry(fi, args, kw or {}, st)
        if env is None:
            return [], [(st, ('X', 'TypeError', (), (fi.mod, fi.qual, fi.node.lineno, err), False))]
        res = self.run_fn(fi, env, st, fi.node)
        rs = self.raises
        self.raises = []
        return res, rs

    def bind_entry(self, fi, args, kw, st):
        self.fstack = [fi]
        r = self.bind(fi, args, kw, st, fi.node)
        self.fstack = []
        return r

    def find(self, qual):
        parts = qual.split('.')
        if len(parts) == 3:
            v = self.clsattr(parts[0] + '.' + parts[1], parts[2])
        else:
            g = self.mods[parts[0]].globals
            v = g.get(parts[1])
        if v is None or v[0] != 'Fn':
            return None
        return self.fns[v[1]]

    def trace_of(self, st):
        out = []
        t = st.trace
        while t is not None:
            t, x = t
            out.append(x)
        return out[::-1]
