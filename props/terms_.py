"""Operators on numbers and texts as formulas: the result of an operator on opaque operands is computed as a term
over the operands, one per path, with the conditions of the path; the family of terms must denote the documented
function. Arithmetic (C41), comparison (C19)."""
import itertools, math, operator, re
import harness as H
from harness import P
from values import *
from engine_consts import *
from engine import F0
from . import prop
from .eval_ import collect
from .vars_ import V
from .input_ import statements
from .lists_ import run_cases
from .tables_ import table

FLOAT = re.compile(r"-?(\d+\.\d*(e[+-]\d+)?|\d+e[+-]\d+|\.\d+(e[+-]\d+)?)")
INTR = re.compile(r'-?\d+')


def number(t):
    """The number a text stands for."""
    t = t.lstrip()
    m = FLOAT.match(t)
    if m:
        return float(m.group())
    m = INTR.match(t)
    return int(m.group()) if m else 0


def whole(t):
    m = INTR.match(t.lstrip())
    return int(m.group()) if m else 0


def text(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and str(v).endswith('.0'):
        v = int(v)
    return str(v)


class Unknown(Exception):
    pass


class Fails(Exception):
    pass


BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
       '%': operator.mod, '**': operator.pow, '**c': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor,
       '<<': operator.lshift, '>>': operator.rshift}
UN = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'inv': operator.invert, 'str': str, 'bitlen': lambda x: x.bit_length(),
      'ord': ord, 'chr': chr, 'float': float, 'round': round, 'bool': bool, 'bin': bin, 'oct': oct, 'hex': hex}


class Term:
    """Value of terms under an assignment of texts to the opaque operands."""

    def __init__(self, W, st, asg):
        self.W, self.st, self.asg, self.memo = W, st, asg, {}

    def val(self, v):
        t = v[0]
        if t == 'K':
            return v[2]
        if t == 'S':
            k = v[1]
            if k in self.memo:
                return self.memo[k]
            r = self.memo[k] = self.key(k)
            return r
        if t == 'R':
            return self.scalar(v)
        if t == 'T':
            return tuple(self.val(x) for x in v[1])
        if t == 'Rx':
            return re.compile(v[1], v[2])
        if t == 'Sl':
            return slice(*[self.val(x) for x in v[1:]])
        raise Unknown(t)

    def scalar(self, v):
        """The text of a scalar."""
        try:
            o = self.W.E.obj(self.st, v)
        except KeyError:
            raise Unknown('object of an earlier step')
        if o.kind == 'inst' and o.cls == SCALAR and '_value' in (o.fields or {}):
            x = self.val(o.fields['_value'])
            if isinstance(x, str):
                return Text(x)
        raise Unknown('object')

    def key(self, k):
        if k[0] == 'p':
            if k[1] in self.asg:
                return self.asg[k[1]]
            raise Unknown(k[1])
        if k[0] != 'd':
            raise Unknown(k[0])
        op, args = k[1], k[2:]
        if op == 'fails':
            try:
                self.val(args[0])
                return False
            except Fails:
                return True
        if op in ('len',):
            return len(self.val(args[0]))
        xs = [self.val(a) if isinstance(a, tuple) and a and a[0] in ('K', 'S', 'R', 'T', 'Rx', 'Sl') else a for a in args]
        if xs and isinstance(xs[0], re.Pattern) and op.startswith('re') and op[2:] in ('match', 'fullmatch', 'search'):
            return getattr(xs[0], op[2:])(*map(str, xs[1:2]))
        if op in ('group', 'matchstr', 'end', 'start') and xs and isinstance(xs[0], re.Match):
            return getattr(xs[0], {'matchstr': 'group'}.get(op, op))(*xs[1:])
        if op in ('slice', 'item') and isinstance(xs[0], str) and len(xs) >= 2 and isinstance(xs[1], (int, slice)):
            try:
                return str(xs[0])[xs[1]]
            except IndexError as e:
                raise Fails(str(e))
        if op == 'in' and isinstance(xs[0], str) and isinstance(xs[1], str):
            return xs[0] in xs[1]
        if op in ('count', 'index', 'find', 'rfind', 'rindex') and isinstance(xs[0], str):
            try:
                return getattr(str(xs[0]), op)(*xs[1:])
            except ValueError as e:
                raise Fails(str(e))
        try:
            if op == 'number':
                return number(xs[0])
            if op == 'whole':
                return whole(xs[0])
            if op == 'int':
                return whole(xs[0]) if isinstance(xs[0], Text) else int(xs[0])
            if op in BIN and len(xs) == 2:
                if op in ('**', '**c') and all(isinstance(x, int) for x in xs) and xs[1] > 400 and abs(xs[0]) > 1:
                    raise Unknown('large power')
                if op == '*' and any(isinstance(x, str) for x in xs):
                    if any(isinstance(x, int) and x > 1000 for x in xs):
                        raise Unknown('long text')
                return BIN[op](*xs)
            if op == 'isint' and isinstance(xs[0], (int, float)):
                return float(xs[0]).is_integer() if isinstance(xs[0], float) else True
            if op == 'join' and all(isinstance(x, str) for x in xs):
                return str(xs[0]).join(map(str, xs[1:]))
            if op == 'intb' and isinstance(xs[0], str):
                return int(str(xs[0]), xs[1])
            if op == 'fstr' and all(isinstance(x, (str, int, float)) for x in xs):
                return ''.join(map(str, xs))
            if op in ('max', 'min') and len(xs) > 1:
                return (max if op == 'max' else min)(xs)
            if op in UN and len(xs) == 1:
                if isinstance(xs[0], Text):
                    if op == 'str':
                        return str(xs[0])
                    raise Unknown(op)
                return UN[op](xs[0])
            if op.startswith('math.') and not any(isinstance(x, str) for x in xs):
                return getattr(math, op[5:])(*xs)
            if op in ('strm', 'strb') and len(args) >= 2 and isinstance(args[1], str) and isinstance(xs[0], str):
                r = [self.val(a) for a in xs[2]] if len(xs) == 3 and isinstance(xs[2], tuple) else xs[2:]
                return getattr(str(xs[0]), args[1])(*r)
        except (ArithmeticError, ValueError, TypeError) as e:
            raise Fails(str(e))
        raise Unknown(op)

    def holds(self):
        """False: the conditions of the path exclude the assignment."""
        st = self.st
        for k, f in st.facts.items():
            if f is F0 or f == F0:
                continue
            try:
                v = self.val(('S', k))
            except (Unknown, Fails):
                continue
            if isinstance(v, Text):
                continue
            if f.types is not None and not typed(v, f.types):
                return False
            if f.nt and tname(v) in f.nt:
                return False
            if f.truth is not None and bool(v) != f.truth:
                return False
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if f.lo is not None and (v < f.lo or v == f.lo and f.los) or f.hi is not None and (v > f.hi or v == f.hi and f.his):
                    return False
            if f.ne and any(type(x) in (int, float, str, bool) and x == v for x in f.ne):
                return False
            if f.ne and any(isinstance(x, tuple) and x and x[0] == 'K' and x[2] == v for x in f.ne):
                return False
        for (a, b), rel in st.rels.items():
            if a == 'eq':
                a, b, rel = b, rel, '='
            try:
                x, y = self.val(a), self.val(b)
            except (Unknown, Fails):
                continue
            try:
                r = '<' if x < y else '>' if x > y else '=' if x == y else None
            except TypeError:
                r = '=' if x == y else '<'
            if r is not None and r not in rel and not ('!' in rel and r != '='):
                return False
        return True


class Text(str):
    """The text of a scalar value, where the scalar itself is meant."""


def tname(v):
    return {'Match': 're.Match'}.get(type(v).__name__, type(v).__name__)


def typed(v, types):
    n = tname(v)
    return n in types or n == 'bool' and 'int' in types


class T(V):
    """A world whose opaque operands are scalars with opaque texts."""

    def __init__(self, convert=True):
        super().__init__()
        E = self.W.E
        E.inline_eq = True
        E.inline_str = True
        E.orders, E.maxdepth = True, 40
        E.concrete_while = 12
        E.depthlimit = 40
        E.limit, E.hard, E.valjoin = 4000, 8000, 4000
        self.syms = []

        def conv(name, f, types):
            def g(E_, fi, a, kw, st, node):
                o = E_.obj(st, a[0]) if a[0][0] == 'R' else None
                v = o.fields.get('_value') if o is not None and o.kind == 'inst' else None
                if v is None:
                    return None
                if isK(v):
                    return [(st, K(f(v[2])))] if isinstance(v[2], str) else None
                return [(st, E_.der(st, name, v, types=types))]
            return g
        if convert:
            E.intrinsics['ptypes.Scalar.toNumber'] = conv('number', number, {'int', 'float'})
            E.intrinsics['ptypes.Scalar.__int__'] = conv('whole', whole, {'int'})
        E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(st, NONE)]

    def val(self, name):
        if name not in self.syms:
            self.syms.append(name)
        return self.W.inst(self.st, SCALAR, self.W.sym(self.st, name, 'str'))

    def build(self, shape):
        if isinstance(shape, tuple) and any(isinstance(x, str) for x in shape):
            b = []
            for x in shape:
                if isinstance(x, str):
                    if x not in self.syms:
                        self.syms.append(x)
                    b.append(self.W.sym(self.st, x, 'int'))
                else:
                    b.append(K(x) if x is not None else super().build(None))
            return self.W.inst(self.st, RANGE, *b)
        return super().build(shape)


def value(V_, t, v, depth=0):
    """A result under an assignment: text | list | ('range', lo, hi) | None | ('type', name)."""
    W = V_.W
    E = W.E
    ty = E.types(t.st, v)
    if ty == frozenset([NIL]):
        return None
    if depth > 5 or v[0] != 'R':
        raise Unknown('value')
    o = E.obj(t.st, v)
    if o.kind == 'inst' and o.cls == SCALAR:
        return text(t.val(o.fields['_value']))
    if o.kind == 'inst' and o.cls == RANGE:
        b = [o.fields.get('_lower'), o.fields.get('_upper')]
        return ('range',) + tuple(None if x is None or E.types(t.st, x) & {NIL, 'NoneType'} else t.val(x) for x in b)
    it = W.items(t.st, v)
    if it is not None and o.kind == 'inst' and o.cls == LIST:
        return [value(V_, t, x, depth + 1) for x in it]
    raise Unknown('value')


def concrete(shape, asg):
    """The operand a shape stands for under an assignment (values as in value())."""
    if isinstance(shape, list):
        return [concrete(x, asg) for x in shape]
    if isinstance(shape, tuple):
        return ('range',) + tuple(asg[x] if isinstance(x, str) else x for x in shape)
    if shape is None or shape == '{}':
        return shape
    if isinstance(shape, int):
        return str(shape)
    if shape.startswith('"'):
        return shape[1:]
    return asg[shape]


def harvest(res):
    """Constants the paths compare with."""
    nums, texts = set(), set()
    for s, _ in res:
        for k, f in s.facts.items():
            for x in (f.lo, f.hi):
                if isinstance(x, (int, float)) and abs(x) < 1e15:
                    nums.add(x)
            for x in f.ne or ():
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    nums.add(x)
                elif isinstance(x, str):
                    texts.add(x)
        for (a, b), _ in s.rels.items():
            for x in (a, b):
                if isK(x):
                    if isinstance(x[2], (int, float)) and not isinstance(x[2], bool) and abs(x[2]) < 1e15:
                        nums.add(x[2])
                    elif isinstance(x[2], str):
                        texts.add(x[2])
    return nums, texts


FAILS = ('fails',)


def close(a, b):
    if b == FAILS:
        return isinstance(a, tuple) and a[:1] == FAILS
    if a == b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, str) and isinstance(b, str):
        if re.fullmatch(r'-?\d+', b):
            return False
        try:
            if any(c in a + b for c in '.ein') or max(len(a), len(b)) > 300:
                x, y = float(a), float(b)
                return x == y or x != x and y != y or math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-12)
        except (ValueError, OverflowError):
            pass
    return False


NUMS = ['0', '1', '2', '-1', '3', '-3', '7', '10', '0.5', '-0.5', '1.5', '2.5', '-2.5', '3.25', '-7.75', '100', '1000', '']
BIG = ['12345678901234567891', '-98765432109876543211', '1e20', '0.001']
TEXTS = ['', 'a', 'b', 'ab', 'A', 'Ba', '10', '9', ' ', 'a b', '-1', '1.0', '1']


def show(v):
    if isinstance(v, list):
        return '[' + ' '.join(map(show, v)) + ']'
    if v is None:
        return 'nil'
    if isinstance(v, tuple) and v[:1] == FAILS:
        return 'an error'
    if isinstance(v, tuple):
        return f'({v[1] if v[1] is not None else ""},{v[2] if v[2] is not None else ""})'
    return v if re.fullmatch(r'-?[\d.]+', v) else f'"{v}"'


def formula_task(task):
    """One operator on one combination of operands."""
    what, sym, arity, shapes, ref, pools = task[:6]
    ref = REFS[ref] if isinstance(ref, str) else ref
    V_ = T(convert=len(task) < 7)
    W = V_.W
    E = W.E
    E.nsteps = E.dropped = 0
    if arity == 0:
        E.reclimit, E.depthlimit, E.concrete_while = 60, 400, 400
        trees = statements(V_, sym)
        if trees is None:
            return dict(n=0, undecided=f'{what}: not parsed')
        for nm, sh in zip('abcde', shapes):
            W.setvar(V_.st, nm, V_.build(sh))
        handler = 'executeStatement'
        res, raises = [(V_.st, None)], []
        for t in trees:
            nxt = []
            for s, _ in res:
                E.nsteps = 0
                r, x = W.call('executeStatement', t, st=s)
                nxt += r
                raises += x
            res = nxt
    else:
        row = next((r for r in H.ctx().rows if r.arity == arity and r.symbol == sym), None)
        if row is None:
            return dict(n=0, undecided=f'no operator {sym} with {arity} operands')
        handler = row.handler
        res, raises = W.call('evaluate', V_.tree(row.op, *[V_.build(s) for s in shapes]), st=V_.st)
    if E.dropped or not res and not raises:
        return dict(n=0, undecided=f'{what}: no definite outcome')
    nums, texts = harvest(res)
    pool = {}
    for s in V_.syms:
        p = list(pools.get(s, pools.get('*', NUMS)))
        if s.startswith('i'):
            p = [x for x in pools.get(s, (0, 1, 3, -2))]
        else:
            extra = [text(x) for c in sorted(nums) for x in (c - 1, c, c + 1)] + sorted(texts)
            p += [x for x in extra if x not in p][:40]
        pool[s] = p
    names = list(V_.syms)
    total = 1
    for s in names:
        total *= len(pool[s])
    combos = itertools.product(*[pool[s] for s in names])
    step = max(1, total // 6000)
    bad, n, unk = {}, 0, {}
    paths = [(s, v, None) for s, v in res] + [(s, None, x) for s, x in raises if not x[4]]
    for j, c in enumerate(combos):
        if j % step:
            continue
        asg = dict(zip(names, c))
        try:
            want = ref(*[concrete(s, asg) for s in shapes])
        except (ArithmeticError, ValueError):
            continue
        if want is SKIP:
            continue
        outs, undecided = [], None
        for s, v, x in paths:
            if s is None:
                continue
            t = Term(W, s, asg)
            if not t.holds():
                continue
            if v is None:
                outs.append(('fails', x))
                continue
            try:
                outs.append(value(V_, t, v))
            except Unknown as e:
                undecided = str(e)
            except Fails:
                pass        # the computation fails here, so this path is not taken
        n += 1
        if undecided or not outs:
            unk.setdefault(undecided or 'no path', asg)
            continue
        wants = want if isinstance(want, Any) else [want]
        good = [o for o in outs if any(close(o, w) for w in wants)]
        if not good:
            key = f'{sym}/{arity}:{shapekind(shapes)}'
            if key not in bad:
                ops = [show(concrete(s, asg)) for s in shapes]
                got = outs[0]
                bad[key] = (key, (f'{sym} with ' + ', '.join(f'{v}={o}' for v, o in zip('abcde', ops)) if arity == 0 else f'{ops[0]} {sym} {ops[1]}' if arity == 2 else f'{sym} {" ".join(ops)}') +
                            (f' gives {show(got)}' if not (isinstance(got, tuple) and got[:1] == ('fails',)) else f' fails with {got[1][1]}') +
                            f' instead of {show(wants[0])}', f'{handler}, formula of the result on the path of these operands')
    und = None
    if not n or sum(1 for _ in unk) and not bad:
        und = f'{what}: result not known as a formula ({sorted(unk)[:3]})' if unk else f'{what}: nothing compared'
    return dict(bad=list(bad.values()), n=n, undecided=und)


class Any(list):
    """Several acceptable results."""


SKIP = object()
KEEP = object()


def shapekind(shapes):
    return ' '.join('list' if isinstance(a, list) else 'range' if isinstance(a, tuple) else 'nil' if a is None else
                    'block' if a == '{}' else 'constant' if isinstance(a, int) or a.startswith('"') else 'scalar' for a in shapes)


FORMULAS = ('{} on opaque operands (texts whose content is unknown): by value numbering, the result of each path through '
            'evaluate and the handler becomes a formula over the operands, with the conditions under which the path is taken. The '
            'formulas must denote the documented function; they are compared at representative operands, at every constant the '
            'paths compare with, and one beside it ("paths" counts the compared points).')

# ---------------------------------------------------------------- C41: arithmetic
REFS = {}


def num1(f):
    return lambda t: out(f(number(t)))


def num2(f):
    def g(a, b):
        v = f(number(a), number(b))
        return Any([a, text(number(a))]) if v is KEEP else out(v)
    return g


def out(v):
    if v is None or v is SKIP or isinstance(v, Any):
        return v
    if isinstance(v, complex) or isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
        return SKIP
    return text(v)


def power(a, b):
    if all(isinstance(x, int) for x in (a, b)) and abs(b) > 400 and abs(a) > 1:
        return SKIP
    if a == 0 and b < 0:
        return None
    if a < 0 and b != int(b):
        return None
    return a ** b


def root(a, b):
    if a == 0 or b < 0 and 1 / a != int(1 / a) or b == 0 and a < 0:
        return None
    return b ** (1 / a)


def multiple(f):
    def g(a, b):
        b = abs(b)
        if b == 0:
            return KEEP
        if b == 1:
            return f(a)
        return exact(f, a, b) * b
    return g


def exact(f, a, b):
    from fractions import Fraction
    if isinstance(a, int) and isinstance(b, int):
        return f(Fraction(a, b))
    return f(a / b)


def nearest(a):
    return round(a)


def nearest_to(a, b):
    b = abs(b)
    if b == 0:
        return KEEP
    if isinstance(a, int) and isinstance(b, int):
        q, r = divmod(a, b)
        return (q + (2 * r + q % 2 > b)) * b
    return nearest(a) if b == 1 else a - math.remainder(a, b)


UNARY = {
    '-': lambda x: -x, '+': lambda x: x, 'AB': abs, 'SG': lambda x: (x > 0) - (x < 0), 'DB': lambda x: 2 * x, 'SQ': lambda x: x * x,
    'HV': lambda x: math.floor(x / 2) if isinstance(x, float) else x // 2, 'HU': lambda x: math.ceil(x / 2) if isinstance(x, float) else -(-x // 2),
    '/': lambda x: None if x == 0 else 1 / x, '|<': math.floor, '>|': math.ceil, 'RZ': math.trunc, 'RN': nearest,
    'RT': lambda x: None if x < 0 else x ** .5, 'EX': lambda x: SKIP if x > 300 else math.exp(x), 'LN': lambda x: None if x <= 0 else math.log(x),
    'LB': lambda x: None if x <= 0 else math.log2(x), 'LD': lambda x: None if x <= 0 else math.log10(x),
    'SI': math.sin, 'CO': math.cos, 'TA': math.tan, 'RD': math.radians, 'DG': math.degrees, 'AT': math.atan,
    'SE': lambda x: 1 / math.cos(x), 'CS': lambda x: None if x == 0 else 1 / math.sin(x), 'CT': lambda x: None if x == 0 else 1 / math.tan(x),
    '%': lambda x: x % 2, '**': lambda x: power(2, x), 'E': lambda x: power(2, x), 'EE': lambda x: BINARY['EE'](1, x),
    'BN': None, 'BL': None,
}
BINARY = {
    '+': operator.add, '-': operator.sub, '*': operator.mul, '/': lambda a, b: None if b == 0 else a / b, '//': lambda a, b: None if b == 0 else a // b,
    '%': lambda a, b: None if b == 0 else a % b, 'AD': lambda a, b: abs(a - b), '**': power, 'E': power,
    'EE': lambda a, b: SKIP if abs(b) > 300 else a * 10 ** b if b >= 0 else a * 10.0 ** b,
    'AT': math.atan2, '|<': multiple(math.floor), '>|': multiple(math.ceil), 'RZ': multiple(math.trunc), 'RN': nearest_to,
    'CM': lambda a, b: (a > b) - (a < b), 'RT': root,
}


def arith_tasks():
    T_ = []
    for s, f in UNARY.items():
        if s in ('BN', 'BL'):
            continue
        T_.append((f'{s}x', s, 1, ['x'], ('u', s), {'*': NUMS + BIG}))
    T_.append(('BN x', 'BN', 1, ['x'], ('w1', 'BN'), {'*': NUMS + BIG}))
    T_.append(('BL x', 'BL', 1, ['x'], ('w1', 'BL'), {'*': NUMS + BIG}))
    for s in BINARY:
        T_.append((f'x {s} y', s, 2, ['x', 'y'], ('b', s), {'*': NUMS + BIG}))
    for s in ('BA', 'BO', 'BX'):
        T_.append((f'x {s} y', s, 2, ['x', 'y'], ('w2', s), {'*': NUMS + BIG}))
    shift = {'*': ['0', '1', '-2', '5', '0.5', '-1.5', '', 'a'], 'i': (0, 1, 3, -2), 'i2': (0, 2, 4, -1)}
    for s in '+-':
        for r in (('i', 'i2'), (None, 'i2'), ('i', None), (1, 4), (2, 2), (None, 3)):
            q = shift if all(isinstance(b, int) for b in r) else dict(shift, **{'*': ['0', '1', '-2', '5', '', 'a', '-9876543210987654321']})
            T_.append((f'range {s} x', s, 2, [r, 'x'], ('r', s), q))
            if s == '+' or q is shift:
                T_.append((f'x {s} range', s, 2, ['x', r], ('r', s), q))
    for s in BINARY:
        few = {'*': NUMS[:8]}
        if s == 'CM':
            continue
        for shapes in (['x', ['y', 'z']], [['x', 'y'], 'z'], [['x', 'y'], ['z', 'w']], [['x', 'y'], ['z']], [['x', ['y']], 'z']):
            T_.append((f'{s} on {shapekind(shapes)}', s, 2, shapes, ('l', s), few))
    for s in (',', '\\,'):
        q = {'*': ['0', '1', '5', '-3', '2.7', '-2.7', '', 'a', '4a', ' 6', '12345678901234567891']}
        T_.append((f'{s}x', s, 1, ['x'], (',', s), q))
        T_.append((f'{s} nil', s, 1, [None], ('n', s), q))
        for shapes in (['x', 'y'], [None, 'x'], ['x', None]):
            T_.append((f'x {s} y', s, 2, shapes, (',', s), q))
    for s in UNARY:
        if s not in ('BN', 'BL', '+', 'RZ'):
            T_.append((f'{s} on a list', s, 1, [['x', ['y']]], ('m', s), {'*': NUMS}))
    raw = {'*': ODD}
    for s in ('+', '-', '|<', 'AB', 'DB'):
        T_.append((f'{s} of a text', s, 1, ['x'], ('u', s), raw, 'raw'))
    for s in ('+', '*', '//', 'CM'):
        T_.append((f'x {s} y of texts', s, 2, ['x', 'y'], ('b', s), {'*': ODD[::2]}, 'raw'))
    for s in ('BN', 'BL'):
        T_.append((f'{s} of a text', s, 1, ['x'], ('w1', s), raw, 'raw'))
    return T_


ODD = ['', ' ', 'a', '5', '-5', '5abc', 'abc5', ' 5', '  -7 ', ' 2.5', '\t8', '\n 3.5', '+5', '--5', '-', '.', '.5', '-.5', '5.', '-5.', '5.25', '1.5.2', '1 2', '1e3',
       '1e+3', '1e-3', '1.5e+3', '1.5e3', '2e', '2.e+1', '007', '0x10', '1_000', 'inf', 'nan', '1,5', '5-3', '0', '-0', '0.0', '9007199254740993']


WHOLE = {'BN': lambda a: ~a, 'BL': lambda a: a.bit_length(), 'BA': operator.and_, 'BO': operator.or_, 'BX': operator.xor}


def lift1(f):
    def g(a):
        return [g(x) for x in a] if isinstance(a, list) else f(a)
    return g


def lift2(f):
    def g(a, b):
        if isinstance(a, tuple):
            a = elems(a, 9)
        if isinstance(b, tuple):
            b = elems(b, 9)
        if isinstance(a, list) and isinstance(b, list):
            n = min(len(a), len(b))
            return [g(x, y) for x, y in zip(a, b)] + [[x] for x in ()] + a[n:] + b[n:]
        if isinstance(a, list):
            return [g(x, b) for x in a]
        if isinstance(b, list):
            return [g(a, y) for y in b]
        return f(a, b)

    def h(a, b):
        r = g(a, b)
        return SKIP if nested(r, lambda x: x is SKIP) else plain(r)
    return h


def nested(r, p):
    return any(nested(x, p) for x in r) if isinstance(r, list) and not isinstance(r, Any) else p(r)


def plain(r):
    if isinstance(r, Any):
        return r[1]
    return [plain(x) for x in r] if isinstance(r, list) else r


def shifted(s):
    """Range +/- number: shifted when the number is whole, else the numbers."""
    def g(a, b):
        x, y = (a, b) if isinstance(a, tuple) else (b, a)
        n = number(y)
        if n == whole(y) and (s == '+' or x is a):
            n = whole(y) * (1 if s == '+' else -1)
            return ('range', (x[1] or 0) + n, None if x[2] is None else x[2] + n)
        if x[2] is None:
            return SKIP
        return [text(BINARY[s](*((int(v), n) if x is a else (n, int(v))))) for v in elems(x, 9)]
    return g


def span_of(s):
    step = s != ','

    def g(*a):
        lo, hi = ((step or None,) + a)[-2:]
        lo = int(lo) if isinstance(lo, bool) else None if lo is None else whole(lo)
        return ('range', lo, None if hi is None else whole(hi) + step)
    return g


def resolve(ref):
    k, s = ref
    if k in (',', 'n'):
        return span_of(s)
    if k == 'r':
        return shifted(s)
    if k == 'l':
        return lift2(num2(BINARY[s]))
    if k == 'm':
        f = lift1(num1(UNARY[s]))
        return lambda a: (lambda r: SKIP if nested(r, lambda x: x is SKIP) else r)(f(a))
    if k == 'u':
        return num1(UNARY[s])
    if k == 'b':
        return num2(BINARY[s])
    f = WHOLE[s]
    return lambda *a: out(f(*map(whole, a)))


def arith_task(task):
    return formula_task(task[:4] + (resolve(task[4]),) + task[5:])


@prop('C41')
def arithmetic(rep):
    rep.explanation = FORMULAS.format('Each arithmetic operator is interpreted abstractly')
    collect(rep, arith_task, arith_tasks(), 'operators')


# ---------------------------------------------------------------- C19: comparison
INF = float('inf')


def kind(a):
    return 'nil' if a is None else 'block' if a == '{}' else 'list' if isinstance(a, list) else 'range' if isinstance(a, tuple) else 'text'


def span(a):
    return (a[1] or 0, INF if a[2] is None else a[2])


def size(a):
    if isinstance(a, tuple):
        lo, hi = span(a)
        return max(0, hi - lo)
    return len(a)


def elems(a, upto):
    if isinstance(a, tuple):
        lo, hi = span(a)
        return [str(x) for x in range(lo, int(min(hi, lo + upto + 1)))]
    return a


def num_equal(a, b):
    k = (kind(a), kind(b))
    if k == ('text', 'text'):
        return number(a) == number(b)
    if k == ('range', 'range'):
        return span(a) == span(b)
    if set(k) <= {'list', 'range'}:
        return size(a) == size(b) and all(num_equal(x, y) for x, y in zip(elems(a, 9), elems(b, 9)))
    return k[0] == k[1] and a == b


def num_less(a, b):
    k = (kind(a), kind(b))
    if k == ('text', 'text'):
        return number(a) < number(b)
    if k == ('range', 'range'):
        return span(a) < span(b)
    if set(k) <= {'list', 'range'}:
        for x, y in zip(elems(a, 9), elems(b, 9)):
            if num_less(x, y):
                return True
            if num_less(y, x):
                return False
        return size(a) < size(b)
    return False


def text_equal(a, b):
    k = (kind(a), kind(b))
    if k == ('list', 'list'):
        return len(a) == len(b) and all(text_equal(x, y) for x, y in zip(a, b))
    return k[0] == k[1] and a == b


def text_less(a, b):
    k = (kind(a), kind(b))
    if k == ('text', 'text'):
        return a < b
    if k == ('list', 'list'):
        for x, y in zip(a, b):
            if text_less(x, y):
                return True
            if text_less(y, x):
                return False
        return len(a) < len(b)
    return False


def orderless(a, b):
    """Pairs whose >= is not fixed by < and =: lists whose items neither precede nor equal each other."""
    if isinstance(a, list) and isinstance(b, list):
        return any(kind(x) != kind(y) or orderless(x, y) for x, y in zip(a, b))
    return False


def ordering(less, equal):
    def ge(a, b):
        if orderless(a, b):
            return SKIP
        return less(b, a) or equal(a, b)
    return {'<': less, '=': equal, '>': lambda a, b: less(b, a), '<=': lambda a, b: ge(b, a), '>=': ge,
            '!=': lambda a, b: not equal(a, b)}


def lengths(f):
    def g(a, b):
        if any(kind(x) in ('nil', 'block') for x in (a, b)):
            return None
        return f(size(a), size(b))
    return g


COMPARE = {**ordering(num_less, num_equal)}
COMPARE.update(zip(('LT', 'Q', 'GT', 'LE', 'GE', 'NE'), ordering(text_less, text_equal).values()))
COMPARE.update({'#<': lengths(operator.lt), '#=': lengths(operator.eq), '#>': lengths(operator.gt),
                '==': lambda a, b: kind(a) == kind(b) and a == b,
                'CM': lambda a, b: num_less(b, a) - num_less(a, b)})


def extreme(sign):
    def g(a):
        if kind(a) in ('nil', 'block') or not size(a):
            return None
        xs = list(a) if isinstance(a, str) else elems(a, 20)
        if any(kind(x) != 'text' for x in xs):
            return SKIP
        m = max(sign * number(x) for x in xs)
        return Any([x for x in xs if sign * number(x) == m])
    return g


EXTREME = {'MX': extreme(1), 'MN': extreme(-1)}

SORTS = {'SN': lambda a: None if a is None else sorted(a, key=number), 'SS': lambda a: sorted(a)}

TNUM = ['0', '1', '-1', '2', '10', '9', '1.0', '0.5', '-0.5', '01', '', 'a', '-', '1a', ' 1', '12345678901234567891', '12345678901234567890']
TTXT = ['', 'a', 'b', 'ab', 'A', '10', '9', '1', '1.0', '01', ' ', 'aa', '-1', '~']


def comparison_tasks():
    T_ = []
    R = (0, 1, 3, -2, 4)
    pools = {'i': R, 'i2': R, 'i3': R, 'i4': R}
    for s in COMPARE:
        texty = s in ('LT', 'Q', 'GT', 'LE', 'GE', 'NE', '==')
        p = dict(pools, **{'*': TTXT if texty or s[0] == '#' else TNUM})
        few = dict(p, **{'*': p['*'][:6]})
        few3 = dict(p, **{'*': p['*'][:4]})
        pairs = [('x', 'y', p), (['x'], ['y'], p), (['x', 'y'], ['z', 'w'], few), (['x'], ['y', 'z'], few), (['x', 'y'], ['z'], few),
                 ([], ['x'], p), (['x'], [], p), ([], [], p), ([['x'], 'y'], [['z'], 'w'], few3),
                 ('x', ['y'], p), (['x'], 'y', p), (None, 'x', p), ('x', None, p), (None, None, p), (None, ['x'], p), (['x'], None, p),
                 ([None, 'x'], [None, 'y'], few)]
        if not texty:
            pairs += [(('i', 'i2'), ('i3', 'i4'), p), ((None, 'i2'), ('i3', 'i4'), p), (('i', None), ('i3', 'i4'), p),
                      (('i', 'i2'), ('i3', None), p), (('i', None), ('i3', None), p), (('i', 'i2'), (None, 'i4'), p),
                      ((0, 3), ['x', 'y', 'z'], few), (['x', 'y'], (0, 2), p), (['x', 'y'], (0, 1), p), (['x'], (0, 2), p), (['x'], (0, None), p),
                      ((0, None), ['x'], p), ((1, 1), ['x'], p), ([], (1, 3), p), (('i', 'i2'), 'x', few), ('x', ('i', 'i2'), few),
                      (('i', 'i2'), None, p), (None, ('i', 'i2'), p)]
        else:
            pairs += [('x', '{}', p), ('{}', 'x', p), (('i', 'i2'), ('i3', 'i4'), p)] if s == '==' else []
            pairs += [(('i', 'i2'), 'x', few), ('x', ('i', 'i2'), few)]
        for a, b, q in pairs:
            T_.append((f'{s} on {shapekind([a, b])}', s, 2, [a, b], ('c', s), q))
    for s in EXTREME:
        p = {'*': TNUM}
        for a in (['x', 'y', 'z'], ['x', 'y'], ['x'], [], (2, 6), (5, 5), None):
            T_.append((f'{s} on {shapekind([a])}', s, 1, [a], ('e', s), p))
    for s in SORTS:
        p = {'*': TTXT if s == 'SS' else TNUM}
        for a in (['x', 'y', 'z'], ['x', 'y'], ['x'], []) + ((None,) if s == 'SN' else ()):
            T_.append((f'{s} on {shapekind([a])}', s, 1, [a], ('s', s), p))
    return T_


def comparison_task(task):
    k, s = task[4]
    f = {'e': EXTREME, 's': SORTS, 'c': COMPARE}[k][s]

    def ref(*a):
        v = f(*a)
        return v if v is SKIP or v is None or isinstance(v, list) else text(v)
    return formula_task(task[:4] + (ref,) + task[5:])


@prop('C19')
def comparison(rep):
    rep.explanation = FORMULAS.format('Each comparison, extreme and sorting operator is interpreted abstractly')
    collect(rep, comparison_task, comparison_tasks(), 'operators')
    run_cases(rep, table('C19'))


# ---------------------------------------------------------------- C20: truth
ZERO = re.compile(r'0+(\.0*)?|0*\.0+')


def truth(a):
    k = kind(a)
    if k == 'text':
        return a != '' and not ZERO.fullmatch(a)
    if k == 'range':
        lo, hi = span(a)
        return hi > lo
    return k == 'block' or bool(a)


TRUTHS = ['', '0', '1', '00', '0.0', '.0', '0.', '.', '00.000', '-0', '-', '-1', '0.1', '0.01', '10', '01', '0a', 'a0', 'a', ' ', ' 0', '0 ',
          '0.0.0', '0e1', '0x0', 'nil', '[]', '()', '0,0', '+0', '1.0', '100']

PROGRAMS = [   # code over a, b; value from the truth of a and the operands
    ('!a', lambda t, a, b: text(not t)), ('a?b 7', lambda t, a, b: b if t else '7'), ('a?7 b', lambda t, a, b: '7' if t else b),
    ('a&b', lambda t, a, b: b if t else a), ('a|b', lambda t, a, b: a if t else b), ('\\!a', lambda t, a, b: text(not t)),
    ('I a c:1 EL c:2 c', lambda t, a, b: '1' if t else '2'), ('I !a c:1 EL c:2 c', lambda t, a, b: '2' if t else '1'),
    ('c:5 I a c:1 c', lambda t, a, b: '1' if t else '5'), ('c:5 W a{a:0 c:1}c', lambda t, a, b: '1' if t else '5'),
    ('c:5 T a{a:1 c:1}c', lambda t, a, b: '5' if t else '1'),
    ('I 0 c:1 EI a c:2 EL c:3 c', lambda t, a, b: '2' if t else '3'),
    ('FI[a]', lambda t, a, b: [a] if t else []), ('{a}FI[a;b]', None), ('FX[5;a]', None),
    ('a&a&b', lambda t, a, b: b if t else a), ('a|a|b', lambda t, a, b: a if t else b),
    ('a\\&b', lambda t, a, b: b if t else a), ('a\\|b', lambda t, a, b: a if t else b),
    ('!!a', lambda t, a, b: text(t)), ('FN[a]', lambda t, a, b: [] if t else [a]),
]


BUILDS = {'a|b', '\\!a', 'FI[a]', 'a|a|b', 'a\\&b', 'a\\|b'}     # with a function these build functions


def truth_tasks():
    T_ = []
    for code, f in PROGRAMS:
        if f is None:
            continue
        for sh in ('x', ['x'], [], [[]], ('i', 'i2'), (None, 'i2'), ('i', None), None, '{}', [None]):
            if sh == '{}' and code in BUILDS:
                continue
            T_.append((f'{code} with a {shapekind([sh])}', code, 0, [sh, 'y'], ('t', code), {'x': TRUTHS, 'y': ['', 'a', '0']}, 'raw'))
    return T_


def truth_task(task):
    f = dict(PROGRAMS)[task[4][1]]
    return formula_task(task[:4] + (lambda a, b: f(truth(a), a, b),) + task[5:])


@prop('C20')
def truths(rep):
    rep.explanation = FORMULAS.format('Programs that decide on the truth of a variable are interpreted abstractly')
    collect(rep, truth_task, truth_tasks(), 'programs')


# ---------------------------------------------------------------- C42: conversions
def to_base(n, b):
    if not 2 <= b <= 36:
        return None
    s, n0 = '', abs(n)
    while n0:
        s = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[n0 % b] + s
        n0 //= b
    return ('-' if n < 0 else '') + (s or '0')


def to_digits(n, b):
    if b < 2:
        return None
    r, n0 = [], abs(n)
    while n0:
        r.insert(0, text((n0 % b) * (1 if n > 0 else -1)))
        n0 //= b
    return r


def from_base(t, b):
    if not 2 <= b <= 36:
        return None
    if t == '':
        return '0'
    try:
        return text(int(t, b)) if '_' not in t else None
    except ValueError:
        return None


def from_digits(ds, b):
    return text(sum(number(d) * b ** i for i, d in enumerate(reversed(ds))))


def rep_text(t):
    if re.fullmatch(r'-?\d+(\.\d+)?', t) and not t.endswith('\n'):
        return t
    if '"' in t:
        return '\\"' + t.replace('\\', '\\\\') + '\\"'
    return f'"{t}"'


def char(t):
    n = whole(t)
    return chr(n) if 0 <= n < 0x110000 else None


def find(t, u):
    return text(t.find(u)) if u in t else None


CONVERT = {
    'TB': lambda a, b='2': to_base(whole(a), whole(b)), 'TD': lambda a, b='2': to_digits(whole(a), whole(b)),
    'FB': lambda a, b='2': from_base(a, whole(b)), 'FD': lambda a, b='2': from_digits(a, number(b)),
    'A': lambda a: text(ord(a[0])) if a else None, 'C': char, 'LC': str.lower, 'UC': str.upper, 'SC': str.swapcase, 'TC': str.title,
    'IC': str.capitalize, 'ST': lambda a: a, 'RP': rep_text, '#': lambda a: text(len(a)), '.': lambda a, b: a + b,
    'X': lambda a, b: a * whole(b), 'RV': lambda a: a[::-1], 'N': lambda a, b: text(b.count(a)), 'NI': lambda a, b: text(not b.count(a)), '@?': find,
    'RM': lambda a, b: a.replace(b, '') if b else SKIP, 'J': lambda a, b=None: (b or '').join(a), 'JW': lambda a, b: b + b.join(a) + b if a else SKIP,
    '||': lambda a, b=None: a.strip(b) if b != '' else SKIP, '|>': lambda a, b=None: a.lstrip(b) if b != '' else SKIP, '<|': lambda a, b=None: a.rstrip(b) if b != '' else SKIP,
    'TM': lambda a, b='1': a[max(whole(b), 0):len(a) - max(whole(b), 0)] if len(a) >= 2 * whole(b) else '',
    '@': lambda a, b: None if a == '' else a[whole(b) % len(a)],
    'R': lambda a, b, c: a.replace(b, c) if b else SKIP,
}

CASES_T = ['', 'a', 'A', 'aB', 'Ab cD', 'hello World', 'ABC', 'x1y', "don't", '1', ' a', 'a-b', 'ß', 'É']
SPACED = ['', ' ', 'a', ' a', 'a ', ' a b ', '\ta\n', 'aa', 'aba', 'abcba', 'bab']
REPRS = ['', 'a', '1', '-1', '1.5', '-1.5', '1.', '.5', '1.5.2', '--1', '"', 'a"b', '\\', '\\"', 'a\\b', ' 1', '1 ', '01', '1e5', '{', '0', '-', 'a b']


def convert_tasks():
    T_ = []

    def add(sym, shapes, **pools):
        T_.append((f'{sym} on {shapekind(shapes)}', sym, len(shapes), shapes, ('v', sym), {k.replace('_', '*'): v for k, v in pools.items()}))
    ints = [str(n) for n in list(range(-9, 18)) + [31, 35, 36, 37, 63, 64, 100, 255, -255, 256, 1000, 1295, 1296, 2047]] + ['', 'a', '7.9', '12x']
    add('TB', ['x'], _=ints)
    add('TD', ['x'], _=ints)
    for b in (2, 3, 10, 16, 36, 1, 0, 37, -1, '"', '"10'):
        add('TB', ['x', b], _=ints)
        add('FB', ['x', b], _=['', '0', '1', '101', '-11', 'FF', 'ff', 'zz', 'Zz', '12', '9', '99', 'G', '1.5', ' 10', '1 0', '-', '1_0'])
    for b in (2, 3, 10, 16, 36, 100, 1, 0, -1, '"'):
        add('TD', ['x', b], _=ints)
    add('FB', ['x'], _=['', '0', '1', '101', '-11', '2', '12', '0001', 'a'])
    for sh in ([], ['x'], ['x', 'y'], ['x', 'y', 'z']):
        add('FD', [sh], _=['0', '1', '2', '-1', '10', '', '0.5'])
        for b in (10, 3, 'w', '"0.5', 1, 0):
            add('FD', [sh, b], x=['0', '1', '2', '-1', '10', '', '0.5'], y=['0', '1', '7'], z=['0', '3', '9'], w=['2', '10', '16', '0', '-1', '1.5'])
    add('A', ['x'], _=TTXT + ['\u00e9', '\u20ac'])
    add('C', ['x'], _=['0', '65', '97', '233', '8364', '1114111', '1114112', '-1', '-65', '', 'a', '65.9', '12345678901234567890'])
    for s in ('LC', 'UC', 'SC', 'TC', 'IC'):
        add(s, ['x'], _=CASES_T)
    for s in ('ST', '#', 'RV'):
        add(s, ['x'], _=TTXT + SPACED)
    add('RP', ['x'], _=REPRS)
    for s in ('.', 'N', 'NI', '@?', 'RM', '||', '|>', '<|'):
        add(s, ['x', 'y'], _=SPACED + ['ab', 'ba', '1'])
    for s in ('||', '|>', '<|', 'TM'):
        add(s, ['x'], _=SPACED)
    for s in ('X', 'TM', '@'):
        add(s, ['x', 'y'], x=SPACED, y=['0', '1', '2', '3', '-1', '-2', '7', '', 'a', '1.9', '-7'])
    add('J', [['x', 'y', 'z']], _=TTXT[:6])
    add('J', [['x', 'y', 'z'], 'w'], _=TTXT[:6])
    add('JW', [['x', 'y'], 'w'], _=TTXT[:6])
    add('R', ['x', 'y', 'z'], _=['', 'a', 'b', 'ab', 'aa', 'aba', '1'])
    return T_


def convert_task(task):
    f = CONVERT[task[4][1]]
    return formula_task(task[:4] + (f,) + task[5:])


@prop('C42')
def conversion(rep):
    rep.explanation = FORMULAS.format('Each conversion and text operator is interpreted abstractly')
    collect(rep, convert_task, convert_tasks(), 'operators')
    run_cases(rep, table('C42'))


# ---------------------------------------------------------------- C43: code as data

EVALS = [   # program over a and b, value of its last statement
    ('(V"a"):b a', lambda a, b: b), ('(V{c:a a}):b a.c', lambda a, b: b + a), ('x:"q";(V"x"):a x.b', lambda a, b: a + b),
    ('V"a.b"', lambda a, b: a + b), ('V{a.b}', lambda a, b: a + b), ('V"c:a.b" c', lambda a, b: a + b), ('V{c:a b.c}', lambda a, b: b + a),
    ('V"c:a d:b;d.c"', lambda a, b: b + a), ('c:"q";({c:a;V"c:c.c";c} a).c', lambda a, b: a + a + 'q'), ('"b.a"V[a;b]', lambda a, b: b + a),
    ('{b.a}V[a;b]', lambda a, b: b + a), ('[a;b]V{b.a}', lambda a, b: b + a), ('c:"q" ("c:a c"V[b]).c', lambda a, b: b + 'q'),
    ('c:"q" "c:a"V[b]c', lambda a, b: 'q'), ('V""', lambda a, b: None), ('V"  "', lambda a, b: None), ('V"I 1 {b:5}"', lambda a, b: None),
    ('V"I 1 {b:5}"b', lambda a, b: '5'), ('V\\"V"a.b"\\"', lambda a, b: a + b), ('({V a} "a.a")', lambda a, b: 'a.aa.a'),
    ('({V"a.b"} V[b;a])', lambda a, b: b + a), ('"a.b"V"pq"', lambda a, b: 'pq'), ('"a.b"V 1,4', lambda a, b: '12'), ('"a.b"V[b]', lambda a, b: b if b is None else None),
    ('"a"V[]', lambda a, b: None), ('V"(a"', lambda a, b: FAILS), ('V"a+"', lambda a, b: FAILS), ('V"a)"', lambda a, b: FAILS),
    ('V[a;b]', lambda a, b: None), ('"a"V 1,()', lambda a, b: None), ('c:{a.a};V"(c b)"', lambda a, b: b + b), ('c:"b.a";V c', lambda a, b: b + a),
    ('c:5;V"V{c:a}";c', lambda a, b: a), ('{c:5;V"c:a";c}V[b]', lambda a, b: b), ('({V"d:a"d.a} b)', lambda a, b: b + b),
    ('({a?a.(RE a-1) "z"} 2)', lambda a, b: '21z'), ('({a?a.(V"RE a-1") "z"} 2)', lambda a, b: '21z'), ('({a?(RE 0) b} 1)', lambda a, b: None),
     ('({a?(({a?(RE 0) "i"} 1)) "o"} 1)', lambda a, b: 'i'),
    ('({a?("x".({a.a} 1).(RE 0)) "o"} 1)', lambda a, b: 'x11o'), ('({a<3?{RE 3}"n" a.b}V[1;2])', None),
    ('c:0 ({c:a (RE 0)|c} 1)', None), ('y:"q" ({y:y.a a?(RE 0) y} 1)', lambda a, b: 'q10'), ('({c:a a?(RE 0).c "e"} 1)', lambda a, b: 'e1'),
    ('({(a>1)?(RE a-1)+(RE a-2) a} 6)', lambda a, b: '8'),
    ('({a Q 0?(RE["j";"k"]) #a} 0)', lambda a, b: '2'), ('({a Q 0?(RE"jk") #a} 0)', lambda a, b: '2'), ('({a Q 0?(RE 3,7) a} 0)', lambda a, b: ('range', 3, 7)),
    ('({b?(RE a) a}V[0;1])', lambda a, b: '0'), ('f:{a?(RE a-1) "f"} g:{a?(f a+1).(RE a-1) "g"}(g 2)', None), ('k:{a?(RE a-1) "k"};m:{a?(k a+1).(RE a-1) "m"};(m 2)', lambda a, b: 'kkm'),
    ('f:{a>9?(a b) 12}(f f)', None), ('c:{V a}(c "a.1")', lambda a, b: 'a.11'), ('c:"V\'a"d:V c (V c).d', lambda a, b: a + a),
    ('({a?{c:(RE a-1)c.a}0 "w"} 2)', None), ('({I a{c:(RE a-1) c.a}E {"w"}} 1)', None),
    ('x:[] ({x PU a;V"x PU a"} 7) x', lambda a, b: ['7', '7']), ('V"x:a V\"x.b\""', None), ('c:"a" {c:b V c}V[a;b]', None),
    ('V"a"."b"', lambda a, b: b), ('V"a;b"', lambda a, b: b), ('V"a  ;  c:b"', lambda a, b: a), ('V"a ; c:b"', lambda a, b: b), ('V"c:b a"', lambda a, b: a),
    ('V{a;b}', lambda a, b: b), ('V{}', lambda a, b: None), ('V{I 0{a}}', lambda a, b: None), ('V"{a.b}"', None), ('((V"{b.a}") a b)', lambda a, b: b + a),
    ('({a?(f a-1).a "z"} 2)', lambda a, b: 'z12'), ('({a?((f)a-1).a "z"} 2)', lambda a, b: 'z12'), ('({#g}V[b;b;b])', lambda a, b: '3'),
    ('({V"g@1"}V[a;b])', lambda a, b: b), ('({g@:1 b}V[a;b])', None), ('({a:"q" g@0} b)', None), ('({fV[b]}V[a;5])', None), ('({a?(V"f"0).a "z"} 2)', None),
    ('({a?((V"f")0).a "z"} 2)', lambda a, b: 'z2'), ('({h} 2)', None), ('({a.b.c.d.e}V[1;2;3;4;5])', lambda a, b: '12345'), ('({e}V[1;2;3;4])', lambda a, b: None),
    ('V"a.b";V"b.a"', lambda a, b: b + a), ('(V"a.b").V"b.a"', None), ('(V"a.b").(V"b.a")', lambda a, b: a + b + b + a),
    ('c:"c";V c', lambda a, b: 'c'), ('c:"5";c.V c', None), ('V"x" a', None), ('V"(a"."+b)"', None), ('V"1"."2"', lambda a, b: '12'),
    ('V \'b', lambda a, b: b), ('V\'b', lambda a, b: b), ('V 1', lambda a, b: '1'), ('V -1', lambda a, b: '-1'), ('V 0.5', lambda a, b: '0.5'),
    ('V "\'b"', lambda a, b: 'b'), ('V"a";b', lambda a, b: b), ('V RP a', lambda a, b: a), ('V RP[a;b]', lambda a, b: [a, b]), ('V RP 3,6', lambda a, b: ('range', 3, 6)),
    ('V RP{a.b}', None), ('(V RP{b.a} b a)', None), ('V ST 12', lambda a, b: '12'), ('V"[a;b]"', lambda a, b: [a, b]),
]


def eval_tasks():
    p = {'x': ['', 'u', 'v w', '1'], 'y': ['', 's', '0']}
    T_ = [(f'{code}', code, 0, ['x', 'y'], ('p', code), p) for code, f in EVALS if f is not None and 'RP' not in code]
    for code, f in EVALS:
        if f is not None and 'RP' in code:
            for t, u in (('u', 's'), ('1', '-2.5'), ('', 'q"r'), ('\\', '\\"'), ('x\\"y', ' ')):
                T_.append((f'{code} a={t!r} b={u!r}', code, 0, ['"' + t, '"' + u], ('p', code), {}))
    return T_


def eval_task(task):
    f = dict(EVALS)[task[4][1]]
    return formula_task(task[:4] + (f,) + task[5:])


@prop('C43')
def code_as_data(rep):
    rep.explanation = FORMULAS.format('Each program that runs code through V, RE or f is interpreted abstractly (scanner, parser and evaluator included)')
    collect(rep, eval_task, eval_tasks(), 'programs')
