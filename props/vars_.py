"""Variables: assignment, destructuring, indexing, swapping and in-place operators on worlds of known shape and opaque
values (C30), isolation of stored values (C08)."""
import itertools
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import World, record, events
from . import prop
from .eval_ import nores, collect
from .scope_ import aliased

LOCAL_NAMES = list('abcdefg') + ['$_', '$__', '$___', '$____']
GLOBAL_NAMES = ['h', 'i', 'l', 'x', 'y', 'z', '_', 'A', 'AZ', '$0', '$9', '$$', '$(', "$'", '\\a', '\\g', 'B', 'G', 'w']


class V:
    """A world with helpers for building parse trees."""

    def __init__(self):
        self.W = W = World()
        self.st = W.state()
        c = W.c
        self.ASSIGN = next((r.op for r in c.rows if r.handler == 'ASSIGN'), None)
        self.SWAP = next((r.op for r in c.rows if r.handler == 'SWAP'), None)
        self.AT = next((r.op for r in c.rows if r.handler == 'AT' and r.arity == 2), None)
        self.LISTOP = next((r.op for r in c.pseudo if r.handler == 'LIST'), None)

    def val(self, name):
        return self.W.sym(self.st, name, SCALAR)

    def build(self, shape):
        if isinstance(shape, list):
            return self.W.List(self.st, [self.build(x) for x in shape])
        if isinstance(shape, tuple) and shape[0] == 'rx':
            return self.W.inst(self.st, PATTERN, K(shape[1]), K(shape[2]))
        if isinstance(shape, tuple):
            return self.W.inst(self.st, RANGE, K(shape[0]), K(shape[1]) if shape[1] is not None else self.build(None))
        if shape is None:
            return self.W.inst(self.st, NIL)
        if shape == '{}':
            return self.W.inst(self.st, BLOCK, self.W.plist(self.st, []), self.W.name(self.st, 'e'))
        if isinstance(shape, int):
            return self.W.inst(self.st, SCALAR, K(str(shape)))
        if shape.startswith('"'):
            return self.W.inst(self.st, SCALAR, K(shape[1:]))
        return self.val(shape)

    def name(self, n):
        return self.W.name(self.st, n)

    def tree(self, *xs):
        return self.W.plist(self.st, list(xs))

    def at(self, name, *idx):
        t = self.name(name) if isinstance(name, str) else name
        for i in idx:
            t = self.tree(self.AT, t, self.W.inst(self.st, SCALAR, K(str(i))) if isinstance(i, int) else i)
        return t

    def set(self, name, shape):
        self.W.setvar(self.st, name, self.build(shape) if not isinstance(shape, tuple) or shape[:1] not in (('S',), ('R',)) else shape,
                      local=name in LOCAL_NAMES)

    def tables(self, st):
        W = self.W
        g = W.dict(st, W.get(st, W.me, 'vars'))
        l = W.dict(st, W.get(st, W.me, 'localScope', 'vars'))
        if g is None or l is None:
            return None
        return {('global', k): v for k, v in g.items()} | {('local', k): v for k, v in l.items()}

    def match(self, st, v, shape):
        """Value v has this shape: names stand for the opaque values."""
        W = self.W
        if v is None:
            return False
        if isinstance(shape, list):
            it = W.items(st, v)
            return W.E.types(st, v) == frozenset([LIST]) and it is not None and len(it) == len(shape) and \
                all(self.match(st, a, b) for a, b in zip(it, shape))
        if isinstance(shape, tuple):
            return W.E.types(st, v) == frozenset([RANGE]) and (W.get(st, v, '_lower'), W.get(st, v, '_upper')) == (K(shape[0]), K(shape[1]))
        if shape is None:
            return W.E.types(st, v) == frozenset([NIL])
        if shape == '{}':
            return W.E.types(st, v) == frozenset([BLOCK])
        if isinstance(shape, int) or shape.startswith('"'):
            return W.get(st, v, '_value') == K(str(shape).lstrip('"')) if v[0] == 'R' else False
        return bool(W.same(st, v, ('S', ('p', shape))))


def diff(V_, st, before, expect):
    """Problems with the variable tables: expect maps (table, name) -> shape; everything else unchanged."""
    now = V_.tables(st)
    if now is None or before is None:
        return None
    out = []
    for k in sorted(set(now) | set(before) | set(expect)):
        if k in expect:
            if expect[k] is ABSENT:
                if k in now:
                    out.append(f'{k[0]} variable {k[1]} is defined')
            elif not V_.match(st, now.get(k), expect[k]):
                out.append(f'{k[0]} variable {k[1]} is {V_.W.show(st, now.get(k))} instead of {show(expect[k])}')
        elif not V_.W.same(st, now.get(k), before.get(k)) if (k in now) == (k in before) else True:
            out.append(f'{k[0]} variable {k[1]} changes to {V_.W.show(st, now.get(k)) if k in now else "undefined"}')
    return out


ABSENT = object()


def show(shape):
    if isinstance(shape, list):
        return '[' + ', '.join(map(show, shape)) + ']'
    return 'nil' if shape is None else str(shape)


def run_check(V_, tree, what, key, expect, result=None, fresh=()):
    """Evaluate tree; on every path the tables change exactly as expected."""
    W = V_.W
    before = V_.tables(V_.st)
    res, raises = W.call('evaluate', tree, st=V_.st)
    no = nores(W, res, raises, what, key)
    if no:
        return no
    out, n = [], 0
    for s, v in res:
        n += 1
        d = diff(V_, s, before, expect)
        if d is None:
            return dict(undecided=f'{what}: the variable tables are not known', n=n)
        if d:
            out.append((key, f'{what}: {d[0]}', *d[1:4]))
        for a, b in fresh:
            now = V_.tables(s)
            if aliased(W, s, now.get(a) if isinstance(a, tuple) and a in now else a, now.get(b) if isinstance(b, tuple) and b in now else b):
                out.append((key + ':alias', f'{what}: the stored value shares a list with another value'))
        if result is not None:
            rr, _ = W.run(P + 'getRval', [W.me, v], s.copy())
            for s2, r in rr:
                if not V_.match(s2, r, result):
                    out.append((key + ':result', f'{what}: the value of the expression is {W.show(s2, r)} instead of {show(result)}'))
    return dict(bad=out, n=n)


def tab(name):
    return ('local' if name in LOCAL_NAMES else 'global', name)


def assign_task(task):
    kind, arg = task
    V_ = V()
    W = V_.W
    for nm in 'bdxy':
        V_.set(nm, 'old_' + nm)
    if kind == 'simple':
        name, shape = arg
        v = V_.build(shape)
        r = run_check(V_, V_.tree(V_.ASSIGN, V_.name(name), v), f'assigning {show(shape)} to {name}', 'assign:' + tab(name)[0], {tab(name): shape},
                      shape, [(tab(name), v)])
        return r
    if kind == 'read':
        name, shape = arg
        V_.set(name, shape)
        v = V_.tables(V_.st)[tab(name)]
        res, raises = W.run(P + 'getRval', [W.me, V_.name(name)], V_.st)
        what = f'reading variable {name}'
        no = nores(W, res, raises, what, 'read')
        if no:
            return no
        out = []
        for s, r in res:
            if not V_.match(s, r, shape):
                out.append(('read:' + tab(name)[0], f'{what}: gives {W.show(s, r)} instead of {show(shape)}'))
            if aliased(W, s, r, v):
                out.append(('read:alias', f'{what}: gives the variable\'s own list, not a copy'))
        return dict(bad=out, n=len(res))
    if kind == 'undefined':
        name = arg
        d = V_.tables(V_.st)
        if tab(name) in d:
            return dict(n=0)
        res, raises = W.run(P + 'getRval', [W.me, V_.name(name)], V_.st)
        no = nores(W, res, raises, f'reading undefined {name}', 'undefined')
        if no:
            return no
        return dict(n=len(res), bad=[('undefined', f'reading undefined variable {name} gives {W.show(s, r)} instead of nil')
                                     for s, r in res if W.E.types(s, r) != frozenset([NIL])])
    if kind == 'index':
        shape, path, want, val = arg
        V_.set('x', shape)
        # y receives the same value first: later changes of x must not reach it
        res, raises = W.call('evaluate', V_.tree(V_.ASSIGN, V_.name('y'), V_.name('x')), st=V_.st)
        if len(res) != 1:
            return dict(undecided='assignment of a variable to another has several outcomes')
        V_.st = res[0][0]
        V_.st.mon.pop('ev', None)
        v = V_.build(val)
        return run_check(V_, V_.tree(V_.ASSIGN, V_.at('x', *path), v), f'assigning {show(val)} to x{"".join(f"@{i}" for i in path)} of {show(shape)}',
                         'index-assign', {('global', 'x'): want}, None, [(('global', 'x'), ('global', 'y')), (('global', 'x'), v)])
    if kind == 'index-undefined':
        return run_check(V_, V_.tree(V_.ASSIGN, V_.at('QQQQ', 0), V_.val('v')), 'assigning to an index of an undefined variable',
                         'index-undefined', {('global', 'QQQQ'): ABSENT})
    if kind == 'destructure':
        lvals, rshape, want = arg

        def lv(x):
            return V_.tree(V_.LISTOP, *map(lv, x)) if isinstance(x, list) else V_.at(*x) if isinstance(x, tuple) else V_.name(x)
        V_.set('l', ['l1', 'l2'])
        v = V_.build(rshape)
        return run_check(V_, V_.tree(V_.ASSIGN, lv(lvals), v), f'assigning {show(rshape)} to {show(lvals)}', 'destructure',
                         {tab(k): x for k, x in want.items()}, None, [(tab(k), v) for k in want if isinstance(want[k], list)])
    if kind == 'permute':
        # [x y b]:[y b x] -- every right-hand value is taken before any assignment
        lnames, rnames = arg
        old = {k: 'old_' + k for k in 'bdxy'}
        return run_check(V_, V_.tree(V_.ASSIGN, V_.tree(V_.LISTOP, *map(V_.name, lnames)), V_.tree(V_.LISTOP, *map(V_.name, rnames))),
                         f'[{" ".join(lnames)}]:[{" ".join(rnames)}]', 'permute', {tab(k): old[r] for k, r in zip(lnames, rnames)})
    if kind == 'swap':
        a, b, want = arg
        V_.set('l', ['l1', ['l2', 'l3']])

        def t(x):
            return V_.name(x) if isinstance(x, str) else V_.at(*x)
        return run_check(V_, V_.tree(V_.SWAP, t(a), t(b)), f'swapping {a} and {b}', 'swap', {tab(k): x for k, x in want.items()})
    if kind == 'callee':
        # an assignment inside a function reaches the caller only for global names
        name = arg
        V_.set(name, 'before')
        body = V_.tree(V_.ASSIGN, V_.name(name), V_.val('inner'))
        blk = W.inst(V_.st, BLOCK, V_.tree(body), V_.name('h'))
        before = V_.tables(V_.st)
        res, raises = W.call('functionCall', blk, V_.tree(), st=V_.st)
        no = nores(W, res, raises, f'function assigning {name}', 'callee')
        if no:
            return no
        out = []
        for s, v in res:
            d = diff(V_, s, before, {tab(name): 'before' if name in LOCAL_NAMES else 'inner'})
            if d is None:
                return dict(undecided='variable tables not known')
            if d:
                out.append((f'callee:{tab(name)[0]}', f'after a call of a function that assigns {name}: {d[0]}'))
        return dict(bad=out, n=len(res))
    if kind == 'callee-read':
        name = arg
        V_.set(name, 'before')
        blk = W.inst(V_.st, BLOCK, V_.tree(), V_.name(name))
        res, raises = W.call('functionCall', blk, V_.tree(), st=V_.st)
        no = nores(W, res, raises, f'function reading {name}', 'callee')
        if no:
            return no
        want = 'before' if name not in LOCAL_NAMES else '{}' if name == 'f' else [] if name == 'g' else None
        return dict(n=len(res), bad=[(f'callee-read:{tab(name)[0]}', f'a function reading {name}, which its caller set, gets '
                                      f'{W.show(s, v)} instead of {show(want)}') for s, v in res if not V_.match(s, v, want)])


def tasks_assign(thorough):
    out = []
    shapes = ['val', ['p', ['q', []]], None, (2, 5), '{}']
    for n in LOCAL_NAMES + GLOBAL_NAMES:
        for sh in shapes:
            out += [('simple', (n, sh)), ('read', (n, sh))]
        out += [('undefined', n), ('callee', n), ('callee-read', n)]
    L = ['p', 'q', ['r', ['s', 't']]]
    for val in ('v', ['v', 'v2'], None, '{}', (1, 4)):
        out += [('index', (L, (0,), [val, 'q', L[2]], val)), ('index', (L, (1,), ['p', val, L[2]], val)),
                ('index', (L, (2,), ['p', 'q', val], val)), ('index', (L, (-1,), ['p', 'q', val], val)),
                ('index', (L, (4,), ['p', val, L[2]], val)), ('index', (L, (-3,), [val, 'q', L[2]], val)),
                ('index', (L, (2, 0), ['p', 'q', [val, ['s', 't']]], val)),
                ('index', (L, (2, 1, 1), ['p', 'q', ['r', ['s', val]]], val)),
                ('index', (L, (-1, -1, 0), ['p', 'q', ['r', [val, 't']]], val)),
                ('index', ((2, 5), (1,), [2, val, 4], val)), ('index', ((0, 2), (-1,), [0, val], val)),
                ('index', ('{}', (0,), '{}', val)), ('index', (None, (0,), None, val)), ('index', ([], (0,), [], val))]
    out += [('index', ('"abc', (1,), '"aZc', '"Z')), ('index', ('"abc', (-1,), '"abZY', '"ZY')),
            ('index', (['"abc', 'p'], (0, 1), ['"aZc', 'p'], '"Z')), ('index-undefined', None)]
    names = ['x', 'b', 'y', 'd']
    vals = ['v1', 'v2', 'v3', 'v4', 'v5']
    for n in range(1, 5):
        for m in range(0, 6):
            out.append(('destructure', (names[:n], vals[:m], {k: (vals[i] if i < m else None) for i, k in enumerate(names[:n])})))
    out += [('destructure', (['x', 'y'], '"pq', {'x': '"p', 'y': '"q'})), ('destructure', (['x', 'b'], '"p', {'x': '"p', 'b': None})),
            ('destructure', (['x', 'b'], (3, 6), {'x': 3, 'b': 4})), ('destructure', (['x', 'b'], None, {'x': None, 'b': None})),
            ('destructure', (['x', 'b'], '{}', {})), ('destructure', ([['x', 'b'], 'y'], [['v1', 'v2'], 'v3'], {'x': 'v1', 'b': 'v2', 'y': 'v3'})),
            ('destructure', ([['x', 'b'], 'y'], [None, 'v3'], {'x': None, 'b': None, 'y': 'v3'})),
            ('destructure', ([['x', 'b'], 'y'], [], {'x': None, 'b': None, 'y': None})),
            ('destructure', (['x', ['b', 'd'], 'y'], ['v1', ['v2'], 'v3'], {'x': 'v1', 'b': 'v2', 'd': None, 'y': 'v3'})),
            ('destructure', ([('l', 1), 'x'], ['v1', ['v2', 'v3']], {'l': ['l1', 'v1'], 'x': ['v2', 'v3']})),
            ('destructure', ([('l', 0), ('l', 1)], ['v1', 'v2'], {'l': ['v1', 'v2']}))]
    for ns in itertools.permutations('xyb', 2):
        for rs in itertools.permutations('xyb', 2):
            out.append(('permute', (list(ns), list(rs))))
    for ns in itertools.permutations('xyb', 3):
        out.append(('permute', (['x', 'y', 'b'], list(ns))))
    out += [('swap', ('x', 'y', {'x': 'old_y', 'y': 'old_x'})), ('swap', ('x', 'b', {'x': 'old_b', 'b': 'old_x'})),
            ('swap', ('d', 'b', {'d': 'old_b', 'b': 'old_d'})), ('swap', ('x', 'x', {})),
            ('swap', (('l', 0), 'x', {'l': ['old_x', ['l2', 'l3']], 'x': 'l1'})), ('swap', ('b', ('l', 1), {'l': ['l1', 'old_b'], 'b': ['l2', 'l3']})),
            ('swap', (('l', 0), ('l', 1), {'l': [['l2', 'l3'], 'l1']})), ('swap', (('l', 1, 0), ('l', 1, 1), {'l': ['l1', ['l3', 'l2']]})),
            ('swap', (('l', -1, -1), ('l', 0), {'l': ['l3', ['l2', 'l1']]}))]
    return out


@prop('C30')
def assignment(rep):
    rep.explanation = ('The evaluator is run abstractly on assignment trees (simple names of every kind, indexed names to depth 3, '
                       'destructuring with fewer / more / nested targets, permutations, swaps) over opaque values; afterwards '
                       'exactly the named variables in the right (local or global) table hold the expected values and nothing '
                       'else changed.')
    for t, r, err, dt in H.pmap(assign_task, tasks_assign(rep.thorough)):
        if err:
            rep.skip(f'{t}: {err.splitlines()[-1]}')
            continue
        rep.count('assignment forms')
        rep.count('paths', r.get('n', 0))
        if r.get('undecided'):
            rep.skip(f'{t}: {r["undecided"]}')
        for b in r.get('bad', ()):
            rep.bad(*b)
