"""Abstract execution of interpreter functions on a world of known shape: a ProgramState object as its own
constructor builds it, concrete parse trees and operators, symbolic values. Used by the checks whose rule is about
the order, number and operands of the steps a function performs, for every value of the operands."""
import harness as H
from harness import P, PS
from values import *
from engine_consts import *
from engine import State, F0, Fact

TOKEN = {k: 'tokens.' + k for k in ('Name', 'Number', 'String', 'Pattern', 'Char', 'EscapedString', 'Nil', 'Operator',
                                    'Command', 'Symbol')}


class World:
    def __init__(self, warnings=False, budget=300000):
        self.c = c = H.ctx()
        self.E = E = c.E
        c.install(budget)
        E.intrinsics.clear()
        E.reclimit = 6
        E.concrete_while = 8
        E.inf_prefix = 0
        E.valjoin, E.limit, E.hard = 12, 48, 400
        E.orders, E.maxdepth, E.depthlimit = False, 7, 40
        E.collapse_mods = frozenset()
        E.nsteps, E.dropped, E.joins, E.unknown = 0, 0, 0, {}
        E.budget = budget
        E.raises = []
        st = State()
        E.fstack = [E.find('pip.repl') or E.find(P + '__init__')]
        if E.find('pip.repl') is None:
            E.fstack = [f for f in E.fns.values() if f.qual.startswith('pip.')][:1]
        node = E.fstack[0].node
        out = E.construct(PS, [NONE, K(bool(warnings))], {}, st, node)
        E.fstack = []
        self.raises0 = E.raises
        E.raises = []
        assert len(out) == 1, 'constructor of the interpreter state has several outcomes'
        self.st, self.me = out[0]
        self.st.trace = None
        self.n = 0

    # building --------------------------------------------------------------
    def state(self):
        return self.st.copy()

    def sym(self, st, name, *types):
        v = ('S', ('p', name))
        st.facts[v[1]] = F0._replace(types=frozenset(types) if types else None)
        return v

    def inst(self, st, cls, *args):
        E = self.E
        saved = E.fstack
        E.fstack = [next(iter(E.fns.values()))]
        out = E.construct(cls, list(args), {}, st, E.fstack[0].node)
        E.fstack = saved
        assert len(out) == 1, f'constructing {cls}: {len(out)} outcomes'
        b, o = out[0]
        if b is not st:
            for s in State.__slots__:
                setattr(st, s, getattr(b, s))
        return o

    def name(self, st, text):
        return self.inst(st, 'tokens.Name', K(text))

    def lval(self, st, text):
        return self.inst(st, LVAL, self.name(st, text))

    def plist(self, st, items):
        """A Python list."""
        return self.E.newlist(st, list(items))

    def List(self, st, items):
        """A List value holding exactly these values."""
        o = self.inst(st, LIST)
        b = self.E.newlist(st, list(items))
        st.heap[o[1]] = st.heap[o[1]].rep(fields={**st.heap[o[1]].fields, '_value': b})
        return o

    def op(self, arity, sym):
        for r in self.c.rows:
            if r.arity == arity and r.symbol == sym:
                return r.op
        return None

    def copy_op(self, st, op, **fields):
        o = self.E.obj(st, op)
        return self.E.alloc(st, o.rep(fields={**o.fields, **{k: K(v) for k, v in fields.items()}}, static=False))

    def get(self, st, obj, *path):
        """Follow fields of a heap object; None when not present."""
        v = obj
        for p in path:
            if v is None or v[0] != 'R':
                return None
            o = self.E.obj(st, v)
            v = o.fields.get(p) if o.kind == 'inst' and o.fields else None
        return v

    def setfield(self, st, obj, f, v):
        o = self.E.obj(st, obj)
        st.heap[obj[1]] = o.rep(fields={**o.fields, f: v})

    def dict(self, st, v):
        """Known items of a dict as {constant key: value}, or None."""
        if v is None or v[0] != 'R':
            return None
        o = self.E.obj(st, v)
        if o.kind != 'dict' or o.elems is None:
            return None
        out = {}
        for k, x in o.elems:
            t = self.text(st, k)
            if t is None:
                return None
            out[t] = x
        return out

    def text(self, st, k):
        if k[0] == 'K':
            return k[2]
        t = self.get(st, k, '_text')
        return t[2] if t is not None and t[0] == 'K' else None

    def setdict(self, st, v, items):
        o = self.E.obj(st, v)
        st.heap[v[1]] = o.rep(elems=tuple((K(k), x) for k, x in items.items()), summ=None)

    def setvar(self, st, name, value, local=None):
        """Give a variable a value directly in the variable table."""
        if local is None:
            local = name in list('abcdefg') or name.startswith('$_')
        t = self.get(st, self.me, 'localScope', 'vars') if local else self.get(st, self.me, 'vars')
        d = self.dict(st, t)
        d[name] = value
        self.setdict(st, t, d)

    def var(self, st, name, local=None):
        if local is None:
            local = name in list('abcdefg') or name.startswith('$_')
        t = self.get(st, self.me, 'localScope', 'vars') if local else self.get(st, self.me, 'vars')
        d = self.dict(st, t)
        return None if d is None else d.get(name)

    # running ---------------------------------------------------------------
    def run(self, qual, args, st=None, kw=None):
        st = st or self.state()
        return self.E.analyse(qual, args, st, kw)

    def call(self, method, *args, st=None):
        return self.run(P + method, [self.me] + list(args), st)

    # comparing --------------------------------------------------------------
    def field(self, st, v, f, cls):
        if v[0] == 'R':
            return self.E.obj(st, v).fields.get(f)
        return self.E.field(v, f, cls, st)

    def items(self, st, v):
        """Exact elements of a List value / Python list / tuple, or None."""
        if v is None:
            return None
        if v[0] == 'T':
            return list(v[1])
        if v[0] != 'R':
            return None
        o = self.E.obj(st, v)
        if o.kind == 'inst':
            return self.items(st, o.fields.get('_value')) if o.cls == LIST else None
        return list(o.elems) if o.elems is not None and o.kind != 'dict' else None

    def same(self, st, v, w, depth=0):
        """True: the two values are equal in every field; None: not known to be."""
        E = self.E
        if v is None or w is None:
            return None
        if v == w:
            return True
        if v[0] == 'K' and w[0] == 'K':
            return v[2] == w[2] and type(v[2]) is type(w[2])
        if depth > 6:
            return None
        iv, iw = self.items(st, v), self.items(st, w)
        if iv is not None and iw is not None:
            kv = E.types(st, v) == E.types(st, w)
            return kv and len(iv) == len(iw) and all(self.same(st, a, b, depth + 1) for a, b in zip(iv, iw))
        tv, tw = E.types(st, v), E.types(st, w)
        if not tv or tv != tw or len(tv) != 1:
            return False if tv and tw and not tv & tw else None
        cls = next(iter(tv))
        if cls == NIL:
            return True
        names = set()
        for x in (v, w):
            if x[0] == 'R':
                o = E.obj(st, x)
                if o.kind != 'inst':
                    return None
                names |= set(o.fields)
        if not names:
            return None
        names -= {'_compiled', '_separator'}
        for f in names:
            a, b = self.field(st, v, f, cls), self.field(st, w, f, cls)
            if not self.same(st, a, b, depth + 1):
                return None
        return True

    def show(self, st, v, depth=0):
        E = self.E
        if v is None:
            return '?'
        if v[0] == 'K':
            return repr(v[2])
        it = self.items(st, v)
        if it is not None and depth < 4:
            return '[' + ', '.join(self.show(st, x, depth + 1) for x in it) + ']'
        if v[0] == 'S' and v[1][0] == 'p':
            return str(v[1][1])
        if v[0] == 'S' and v[1][0] == 'n':
            return str(v[1][2])
        if v[0] == 'R':
            o = E.obj(st, v)
            if o.kind == 'inst':
                if '_text' in (o.fields or {}):
                    return self.show(st, o.fields['_text'])
                return o.cls.split('.')[-1] + '(' + ', '.join(self.show(st, x, depth + 1) for x in
                                                              list((o.fields or {}).values())[:3]) + ')' if depth < 3 else o.cls
            return o.kind
        return '/'.join(sorted(x.split('.')[-1] for x in (E.types(st, v) or ('?',))))


def record(name):
    """Monitor event appended to a path's history."""
    def f(st, *data):
        st.mon['ev'] = st.mon.get('ev', ()) + ((name,) + data,)
    return f


def events(st):
    return st.mon.get('ev', ())
