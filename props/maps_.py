"""Mapping, filtering and sorting operators call the function once per item, in order (C36)."""
import itertools
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import World, record, events
from . import prop
from .eval_ import collect
from .vars_ import V
from .lists_ import L, seq, chars, got_shape, norm, plain, shape_text, unknown

F, G = '<f>', '<g>'          # two functions


class Run:
    """One application of an operator to functions whose calls are recorded and answered from a list."""

    def __init__(self, sym, args, returns):
        self.V = V_ = V()
        W = V_.W
        E = W.E
        self.blocks = {}
        self.op = W.op(len(args), sym)
        self.undecided = None if self.op is not None else f'no operator {sym} with {len(args)} operands'
        if self.op is None:
            return
        answers = [V_.build(r) for r in returns]

        def call(E_, fi, a, kw, st, node):
            k = sum(1 for e in events(st) if e[0] == 'call')
            name = self.blocks.get(a[1]) if len(a) > 1 else None
            lst = a[2] if len(a) > 2 else kw.get('argList', next(iter(kw.values()), None))
            items = E_.contents(lst, st) if lst is not None else None
            record('call')(st, name, tuple(items[0]) if items else None)
            return [(st, answers[k] if k < len(answers) else W.sym(st, 'extra', SCALAR))]

        E.intrinsics[P + 'functionCall'] = call
        E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(record('warn')(st), (st, NONE))[1]]
        E.inline_eq = True
        E.dropped = 0
        vals = [self.build(a) for a in args]
        res, raises = W.call('evaluate', V_.tree(self.op, *vals), st=V_.st.copy())
        self.hard = [x for _, x in raises if not x[4]]
        self.dropped = E.dropped
        self.outs = []
        for s, v in res:
            calls = tuple((e[1], None if e[2] is None else tuple(freeze(plain(got_shape(V_, s, x))) for x in e[2]))
                          for e in events(s) if e[0] == 'call')
            self.outs.append((calls, plain(got_shape(V_, s, v))))

    def build(self, a):
        if a in (F, G):
            b = self.V.W.inst(self.V.st, BLOCK, self.V.W.plist(self.V.st, []), self.V.W.name(self.V.st, 'a'))
            self.blocks[b] = a
            return b
        if isinstance(a, list) and any(x in (F, G) for x in a):
            return self.V.W.List(self.V.st, [self.build(x) for x in a])
        if isinstance(a, str) and a.startswith('`'):
            return self.V.W.inst(self.V.st, PATTERN, K(a.strip('`')))
        return self.V.build(a)


def freeze(x):
    return tuple(map(freeze, x)) if isinstance(x, list) else x


def check_case(case):
    sym, args, returns, calls, want = case
    r = Run(sym, args, returns)
    if r.undecided:
        return dict(n=0, undecided=r.undecided)
    txt = (f'{shape_text(args[0])} {sym} ' + ' '.join(map(shape_text, args[1:]))) if len(args) > 1 else f'{sym} {shape_text(args[0])}'
    if returns and returns != R(len(returns)):
        txt += ' (results ' + ', '.join(map(shape_text, returns)) + ')'
    key = f'{sym}/{len(args)}'
    want = plain(want)
    calls = tuple((f, tuple(freeze(plain(x)) for x in a)) for f, a in calls)
    if r.dropped or not r.outs and not r.hard:
        return dict(n=0, undecided=f'{txt}: no definite outcome')
    problems = []
    for c, o in r.outs:
        p = None
        known = all(f is not None and a is not None and not any(map(unknown_, a)) for f, a in c)
        if len(c) != len(calls):
            p = (f'{key}:number of calls', f'{txt} calls the function {len(c)} times', f'it should call it {len(calls)} times')
        elif not known:
            p = 'unknown'
        elif c != calls:
            i = next(i for i, (x, y) in enumerate(zip(c, calls)) if x != y)
            p = (f'{key}:arguments', f'{txt}: call {i + 1} is {call_text(c[i])}', f'it should be {call_text(calls[i])}')
        elif unknown(o):
            p = 'unknown'
        elif o != want:
            p = (f'{key}:result', f'{txt} gives {shape_text(o)}', f'it should give {shape_text(want)}')
        problems.append(p)
    if r.hard:
        problems.append((f'{key}:fails', f'{txt} fails with {r.hard[0][1].split(".")[-1]}', 'it should give ' + shape_text(want)))
    bad = [p for p in problems if p not in (None, 'unknown')]
    if bad and len(bad) == len(problems):
        return dict(n=1, bad=bad[:1])
    if bad or 'unknown' in problems:
        return dict(n=0, undecided=f'{txt}: {"several outcomes" if bad else "not known exactly"} {r.outs[:2]}'[:300])
    return dict(n=1)


def unknown_(x):
    return x == '?' or isinstance(x, tuple) and any(map(unknown_, x))


def call_text(c):
    thaw = lambda x: [thaw(y) for y in x] if isinstance(x, tuple) else x
    return f'{c[0]}(' + ', '.join(shape_text(thaw(x)) for x in c[1]) + ')'


def R(n, p='r'):
    return [f'{p}{i + 1}' for i in range(n)]


def truths(n):
    return itertools.product([0, 1], repeat=n)


def cases(thorough):
    top = 5 if thorough else 4
    subs = [L(n) for n in range(top)] + [(0, 3), (2, 4), (3, 3), (None, 2), '"', '"p', '"pqp', [None, 'x', []], [['a', 'b'], 'x']]
    if thorough:
        subs += [[[[]], (1, 3)], ['"', '"0', 0], (-2, 2)]
    out = []

    def both(sym, s, ret, calls, want):
        out.append((sym, [F, s], ret, calls, want))
        out.append((sym, [s, F], ret, calls, want))

    for s in subs:
        x = chars(s)
        n = len(x)
        r = R(n)
        one = [(F, (y,)) for y in x]
        idx = [(F, (i, y)) for i, y in enumerate(x)]
        both('M', s, r, one, r)
        both('ME', s, r, idx, r)
        if n:
            both('MP', s, R(n - 1), [(F, (a, b)) for a, b in zip(x, x[1:])], R(n - 1))
        tx = [f'"{c}' for c in 'abcdef'[:n]]
        both('MJ', s, tx, one, '"' + 'abcdef'[:n])
        nums = [2 ** i for i in range(n)]
        both('MS', s, nums, one, sum(nums) if n else 0)
        mixed = [[f'u{i}', f'w{i}'] if i % 2 == 0 else f'v{i}' for i in range(n)]
        both('MF', s, mixed, one, [z for m in mixed for z in (m if isinstance(m, list) else [m])])
        out.append(('M', ['v', s], [], [], ['v'] * n))
        out.append(('M', [[F, G], s], R(2 * n), [(f, (y,)) for f in (F, G) for y in x], [R(2 * n)[:n], R(2 * n)[n:]]))
        vectors = list(truths(n)) if n <= 3 else [(1, 0, 1, 1), (0, 1, 0, 0), (1, 1, 1, 0)]
        for t in vectors:
            t = list(t)
            keep = [y for y, b in zip(x, t) if b]
            drop = [y for y, b in zip(x, t) if not b]
            both('FI', s, t, one, keep)
            both('FN', s, t, one, drop)
            both('FE', s, t, idx, keep)
            both('FX', s, t, idx, [i for i, b in enumerate(t) if b])
            if all(isinstance(y, (str, int)) and (isinstance(y, int) or y.startswith('"')) for y in x):
                both('FJ', s, t, one, '"' + ''.join(str(y).lstrip('"') for y in keep))
        if n and n < 4:
            for t in vectors:
                # any falsy and truthy values
                t2 = [['"0.0', [], None, '"'][i % 4] if not b else ['z"' if 0 else '"z', [0], (0, 1)][i % 3] for i, b in enumerate(t)]
                both('FI', s, t2, one, [y for y, b in zip(x, t) if b])
                both('FN', s, t2, one, [y for y, b in zip(x, t) if not b])
        if 1 < n < 5:
            for ks in itertools.product([1, 2, 10], repeat=n) if n < 4 else [(3, 1, 2, 1), (2, 2, 1, 10)]:
                order = sorted(range(n), key=lambda i: ks[i])
                down = sorted(range(n), key=lambda i: ks[i], reverse=True)
                both('SK', s, list(ks), one, [x[i] for i in order])
                both('DK', s, list(ks), one, [x[i] for i in down])
    # any keys: texts and what has no number count as 0, lists go item by item
    for ks, nums in (((None, 1, -1), (0, 1, -1)), (('"abc', 1, '"-2x'), (0, 1, -2)), (('"10', '"9', '"2.5'), (10, 9, 2.5)), (('{}', -1, None, 0), (0, -1, 0, 0)),
                     (([1, 2], [1], [0, 5]), ([1, 2], [1], [0, 5])), (((0, 2), [0], (1, None)), ([0, 1], [0], [])), (([[2]], [[1, 3]], [[1]]), ([[2]], [[1, 3]], [[1]])),
                     (('"1e+2', 99, '"1.0', '"1e2'), (100, 99, 1, 1))):
        n = len(ks)
        x = L(n)
        both('SK', x, list(ks), [(F, (y,)) for y in x], [x[i] for i in sorted(range(n), key=lambda i: nums[i])])
        both('DK', x, list(ks), [(F, (y,)) for y in x], [x[i] for i in sorted(range(n), key=lambda i: nums[i], reverse=True)])
    # items of items
    for s in ([['a', 'b'], ['c']], [[], ['a', 'b', 'c']], [[]], [], [(0, 2), ['a']], ['"pq', ['a']], ['"', '"r']):
        rows = [chars(y) for y in s]
        n = sum(map(len, rows))
        it = iter(R(n))
        both('MM', s, R(n), [(F, (y,)) for row in rows for y in row], [[next(it) for _ in row] for row in rows])
        both('MU', s, R(len(s)), [(F, tuple(row)) for row in rows], R(len(s)))
        for t in truths(len(s)):
            both('FU', s, list(t), [(F, tuple(row)) for row in rows], [y for y, b in zip(s, t) if b])
    for n, m in ((0, 0), (1, 1), (2, 3), (3, 1), (0, 2), (2, 0)):
        rr = iter(R(n * m))
        r3 = iter(R(n * m))
        out.append(('MC', [F, [n, m, 4]], R(n * m), [(F, (i, j)) for i in range(n) for j in range(m)], [[next(r3) for _ in range(m)] for _ in range(n)]))
        out.append(('MC', [F, [n, m]], R(n * m), [(F, (i, j)) for i in range(n) for j in range(m)], [[next(rr) for _ in range(m)] for _ in range(n)]))
    for n in (0, 1, 2, 3):
        rr = iter(R(n * n))
        out.append(('MC', [F, n], R(n * n), [(F, (i, j)) for i in range(n) for j in range(n)], [[next(rr) for _ in range(n)] for _ in range(n)]))
        rr = iter(R(n * n))
        out.append(('MC', [F, [n]], R(n * n), [(F, (i, j)) for i in range(n) for j in range(n)], [[next(rr) for _ in range(n)] for _ in range(n)]))
        out.append(('MC', ['v', n], [], [], [['v'] * n for _ in range(n)]))
    for n, m in itertools.product(range(4), range(4)):
        a, b = L(n, 'a'), L(m, 'b')
        k = min(n, m)
        out.append(('MZ', [F, a, b], R(k), [(F, p) for p in zip(a, b)], R(k)))
        out.append(('MZ', [a, F, b], R(k), [(F, p) for p in zip(a, b)], R(k)))
    for n in (-1, -2, -5, [-2], [2, -1], [-1, 2], [0, 3]):
        rows = max(0, n if isinstance(n, int) else n[0])
        cols = max(0, n if isinstance(n, int) else n[-1])
        out.append(('MC', [F, n], R(rows * cols), [(F, (i, j)) for i in range(rows) for j in range(cols)], [[] for _ in range(rows)]))
    out.append(('MZ', [F, '"pq', (5, 8)], R(2), [(F, ('"p', 5)), (F, ('"q', 6))], R(2)))
    # regular expressions
    for args, calls in (
            (['`p(.)`', '"papbq'], [('"pa', '"a'), ('"pb', '"b')]), (['`p`', '"qqq'], []), (['`(p)|(q)`', '"pq'], [('"p', '"p', None), ('"q', None, '"q')]),
            (['`.`', '"pqr'], [('"p',), ('"q',), ('"r',)]), (['"pq', '`q?`'], [('"',), ('"q',), ('"',)])):
        for a in ([F] + args, [args[0], F, args[1]], args + [F]):
            out.append(('MR', a, R(len(calls)), [(F, c) for c in calls], R(len(calls))))
    # without a function: the items themselves decide
    for s in ([0, 1, '"0.0', '"a', [], [0], None, '"', (0, 0), (0, 1)], [1, 2], [0], [], (0, 3), '"0a0'):
        x = chars(s)
        true = [truthy(y) for y in x]
        out += [('FI', [s], [], [], [y for y, b in zip(x, true) if b]), ('FN', [s], [], [], [y for y, b in zip(x, true) if not b]),
                ('FX', [s], [], [], [i for i, b in enumerate(true) if b])]
    out += [('FU', [[[0, 1], [1, 0], [], ['"a'], '"01', '"10']], [], [], [[1, 0], ['"a'], '"10'])]
    # sorting without a function
    for s in ([3, 1, 2], [10, 9, '"x', 1], [2, '"2.0', 1, 2], [[2], [1, 5], [1]], []):
        key = lambda y: [val(z) for z in y] if isinstance(y, list) else val(y)
        out += [('SN', [s], [], [], sorted(s, key=key)), ('DN', [s], [], [], sorted(s, key=key, reverse=True))]
    for s in ([3, 10, 2], ['"b', '"a', '"B', '"ab'], []):
        text = lambda y: str(y).lstrip('"')
        out += [('SS', [s], [], [], sorted(s, key=text)), ('DS', [s], [], [], sorted(s, key=text, reverse=True))]
    return out


def val(y):
    try:
        return float(str(y).lstrip('"'))
    except ValueError:
        return 0


def truthy(y):
    if isinstance(y, tuple):
        return y[1] > y[0]
    if isinstance(y, str):
        return y[1:] != '' and not (y[1:].replace('.', '').isdigit() and float(y[1:]) == 0)
    return bool(y)


def task(i):
    out, und, n = [], [], 0
    for c in H._map_batches[i]:
        r = check_case(c)
        n += r['n']
        out += r.get('bad', [])
        if r.get('undecided'):
            und.append(r['undecided'])
    return dict(bad=out, undecided=(f'{und[0]}' + (f' (and {len(und) - 1} more)' if len(und) > 1 else '')) if und else None, n=n)


@prop('C36')
def maps(rep):
    rep.explanation = ('Every mapping, filtering and sorting operator is evaluated abstractly on opaque items with a function whose '
                       'calls are recorded and answered with opaque or chosen values; the calls (which function, which arguments, in '
                       'which order, how many) and the result must be those of the reference.')
    cs = cases(rep.thorough)
    n = max(1, len(cs) // 40)
    H._map_batches = [cs[i::n] for i in range(n)]
    collect(rep, task, range(n), 'groups of applications')
