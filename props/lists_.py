"""List operators arrange items exactly (C35); indexing and slicing (C37)."""
import itertools, re
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import World, record, events
from . import prop
from .eval_ import collect
from .vars_ import V, show
from .tables_ import table


def wrap(xs):
    return list(xs)


def pattern(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'rx'


def FLAGS(f):
    return ''.join(c for i, c in ((re.ASCII, 'A'), (re.IGNORECASE, '-'), (re.MULTILINE, ','), (re.DOTALL, '.')) if f & i)


def shape_text(x):
    """Compact rendering of an argument shape."""
    if isinstance(x, list):
        return '[' + ' '.join(map(shape_text, x)) + ']'
    if pattern(x):
        return FLAGS(x[2]) + f'`{x[1]}`'
    if isinstance(x, tuple):
        return f'{x[0]},{"" if x[1] is None else x[1]}'
    if x is None:
        return '()'
    return str(x) if isinstance(x, int) or not x.startswith('"') else x + '"'


def evaluate(V_, op, args):
    W = V_.W
    W.E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(record('warn')(st), (st, NONE))[1]]
    W.E.dropped = 0
    W.E.inline_eq = True
    st = V_.st.copy()
    tree = W.plist(st, [op] + args)
    res, raises = W.call('evaluate', tree, st=st)
    return res, raises, W.E.dropped


def got_shape(V_, st, v, depth=0):
    """Shape of a result, or '?' where unknown."""
    W = V_.W
    if v is None or depth > 6:
        return '?'
    t = W.E.types(st, v)
    if t == frozenset([NIL]):
        return None
    if v[0] == 'S' and v[1][0] == 'p':
        return v[1][1]
    it = W.items(st, v)
    if it is not None and t == frozenset([LIST]):
        return [got_shape(V_, st, x, depth + 1) for x in it]
    if v[0] == 'R':
        o = W.E.obj(st, v)
        if o.kind == 'inst' and o.cls in (SCALAR, PATTERN):
            x = o.fields.get('_value')
            if x is not None and x[0] == 'K':
                return num(x[2]) if o.cls == SCALAR else ('pattern', x[2])
            if x is not None and x[0] == 'S' and x[1][:2] == ('d', 'f') and x[1][2][0] == 'S' and x[1][2][1][0] == 'p':
                return x[1][2][1][1]     # the same text as that opaque value
        if o.kind == 'inst' and o.cls == PATTERN:
            raw, fl = o.fields.get('_raw'), o.fields.get('_flags')
            if raw is not None and fl is not None and raw[0] == fl[0] == 'K':
                return ('rx', raw[2], int(fl[2]))
        if o.kind == 'inst' and o.cls == RANGE:
            lo, hi = o.fields.get('_lower'), o.fields.get('_upper')
            if lo[0] == 'K' and hi[0] == 'K':
                return (lo[2], hi[2])
    return '?'


def num(x):
    return int(x) if isinstance(x, str) and x.lstrip('-').isdigit() and str(int(x)) == x else '"' + str(x)


def opaque(x):
    return any(map(opaque, x)) if isinstance(x, list) else isinstance(x, str) and not x.startswith('"')


def norm(x):
    """Shape with constants in one form: numeric text as int; ranges by their bounds."""
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, str) and x.startswith('"'):
        return num(x[1:])
    if isinstance(x, tuple) and len(x) == 2 and x[0] is None:
        return (0, x[1])
    return x


def unknown(x):
    return x == '?' or isinstance(x, list) and any(map(unknown, x))


def check_case(case, setup=None):
    """One application of an operator: dict(bad=..) / dict(undecided=..)."""
    sym, args, want = case
    V_ = V()
    W = V_.W
    op = W.op(len(args), sym)
    if op is None:
        return dict(n=0, undecided=f'no operator {sym} with {len(args)} operands')
    W.E.inline_str = not any(map(opaque, args))
    res, raises, dropped = evaluate(V_, op, [V_.build(a) for a in args])
    W.E.inline_str = False
    what = f'{shape_text(args[0])} {sym} ' + ' '.join(map(shape_text, args[1:])) if len(args) > 1 else f'{sym} {shape_text(args[0])}'
    wants = [norm(w) for w in (want if isinstance(want, Alt) else [want])]
    hard = [x for _, x in raises if not x[4]]
    outs = [norm(got_shape(V_, s, v)) for s, v in res]
    if dropped or not outs and not hard:
        return dict(n=0, undecided=f'{what}: no definite outcome')
    bad = [o for o in outs if o not in wants and not unknown(o)]
    if (len(outs) + len(hard) > 1 and (bad or hard or any(map(unknown, outs))) and any(o in wants or unknown(o) for o in outs)) or (not bad and not hard and any(map(unknown, outs))):
        return dict(n=0, undecided=f'{what}: {"several outcomes" if len(outs) + len(hard) > 1 else "result not known exactly"} {outs[:3]}')
    if hard:
        return dict(n=1, bad=[(f'{sym}/{len(args)}:fails', f'{what} fails with {hard[0][1].split(".")[-1]}', 'it should give ' + shape_text(wants[0]))])
    if bad:
        return dict(n=1, bad=[(f'{sym}/{len(args)}:{kinds(args)}', f'{what} gives {shape_text(bad[0])}', 'it should give ' + shape_text(wants[0]))])
    return dict(n=1)


class Alt(list):
    """Several acceptable results."""


def kinds(args):
    return ' '.join('list' if isinstance(a, list) else 'pattern' if pattern(a) else 'range' if isinstance(a, tuple) else 'nil' if a is None else
                    'number' if isinstance(a, int) else 'text' if a.startswith('"') else 'value' for a in args)


def group_task(i):
    out, und, n = [], [], 0
    for c in H._list_batches[i]:
        r = check_case(c)
        n += r['n']
        out += r.get('bad', [])
        if r.get('undecided'):
            und.append(r['undecided'])
    return dict(bad=out, undecided=(f'{und[0]}' + (f' (and {len(und) - 1} more)' if len(und) > 1 else '')) if und else None, n=n)


def run_cases(rep, cases, size=40):
    cases = list(cases)
    n = max(1, len(cases) // size)
    H._list_batches = [cases[i::n] for i in range(n)]
    collect(rep, group_task, range(n), 'groups of applications')


def L(n, p='x'):
    return [f'{p}{i + 1}' for i in range(n)]


def seq(x):
    """Items of a list or finite range shape."""
    return list(range(x[0] or 0, x[1])) if isinstance(x, tuple) else x


def flat(xs, deep):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out += flat(seq(x), deep) if deep else seq(x)
        else:
            out.append(x)
    return out


def weave(ls):
    return [l[i] for i in range(max(map(len, ls), default=0)) for l in ls if i < len(l)]


def chunks_by(l, k):
    if k > 0:
        return [l[i:i + k] for i in range(0, len(l), k)]
    out, i = [], len(l)
    while i > 0:
        out.append(l[max(0, i + k):i])
        i += k
    return out


def chop(l, k):
    """l in |k| pieces, as even as possible."""
    n, m = len(l), abs(k)
    if not n:
        return []
    if k > 0:
        return [l[i * n // m:(i + 1) * n // m] for i in range(m)]
    return [l[n - (i + 1) * n // m:n - i * n // m] for i in range(m)]


def splitat(l, idx):
    n = len(l)
    cuts = sorted({i if i >= 0 else i + n for i in idx} & set(range(n)))
    cuts = [0] + cuts + [n]
    return [l[a:b] for a, b in zip(cuts, cuts[1:])]


def transpose(ls, fill=None):
    if fill is None:
        return [list(t) for t in zip(*ls)]
    return [list(t) for t in itertools.zip_longest(*ls, fillvalue=fill)]


def arrangement_cases(thorough):
    top = 8 if thorough else 6
    lists = [L(n) for n in range(top + 1)]
    rngs = [(0, 0), (0, 1), (1, 4), (None, 3), (-2, 1)]
    both = lists + rngs
    c = []
    for x in both:
        s = seq(x)
        n = len(s)
        for sym in ('RV', 'R'):
            c.append((sym, [x], s[::-1]))
        c += [('RF', [x], s + s[::-1]), ('PZ', [x], s + s[-2::-1] if s else []), ('EN', [x], [[i, y] for i, y in enumerate(s)])]
        c += [('FL', [x], s), ('FA', [x], s)]
        if n <= 3:
            c += [('PM', [x], [list(p) for p in itertools.permutations(s)])]
        for k in range(0, 4):
            c.append(('CB', [x, k], [list(p) for p in itertools.combinations(s, k)]))
        for k in (0, 1, 2, 3):
            c.append(('RL', [x, k], s * k))
        for k in (1, 2, 3, 4):
            c.append(('UW', [x, k], [s[i::k] for i in range(k)]))
        c.append(('UW', [x], [s[0::2], s[1::2]]))
        c += [('AE', [x, 'v'], s + ['v']), ('PE', [x, 'v'], ['v'] + s), ('AE', [x, ['v']], s + [['v']]), ('PE', [x, ['v']], [['v']] + s),
              ('AL', [x, ['v', 'w']], s + ['v', 'w']), ('AL', [x, 'v'], s + ['v']), ('AL', [['v'], x], ['v'] + s),
              ('AL', ['v', x], ['v'] + s), ('AE', ['v', x], ['v', x]), ('PE', ['v', x], [x, 'v'])]
        if isinstance(x, list):
            c += [('AE', [x, None], s + [None]), ('AL', [x, None], s + [None]), ('AE', [None, x], [None, x])]
            for k in (1, 2, 3, 4, 5, -1, -2, -3):
                c += [('<>', [x, k], chunks_by(s, k))]
            c += [('<>', [x], chunks_by(s, 2)), ('<>', [x, [1, 2]], [chunks_by(s, 1), chunks_by(s, 2)])]
            for k in (1, 2, 3, 4, 6, 7, -1, -2, -3, -7):
                c.append(('CH', [x, k], chop(s, k)))
            c.append(('CH', [x], chop(s, 2)))
            for idx in ([0], [1], [2], [-1], [-2], [9], [-9], [1, 2], [2, 1], [0, -1], [1, 1]):
                if n:
                    c.append(('^@', [x, idx], splitat(s, idx)))
            for k in (0, 1, 2, -1):
                if n:
                    c.append(('^@', [x, k], splitat(s, [k])))
            c += [('UQ', [x], s)] if n < 2 else []
            for k in ((0, 1, 2, -1, -2) if n else ()):
                if -n <= k < n:
                    r = list(s)
                    r[k] = 'v'
                    c.append(('RA', [x, k, 'v'], r))
            if n > 2:
                r = list(s)
                r[0], r[2] = 'v', 'w'
                r2 = list(s)
                r2[1] = r2[0] = 'v'
                r3 = list(s)
                r3[0], r3[1], r3[2] = 'v', 'w', 'v'
                c += [('RA', [x, [0, 2], ['v', 'w']], r), ('RA', [x, [1, 0], 'v'], r2), ('RA', [x, [0, 1, 2], ['v', 'w']], r3)]
            c += [('RA', [x, None, 'v'], s)]
    nested = [[], [[]], ['x'], [['a', 'b'], 'x', ['c']], [[['a'], 'b'], 'x', [[['c']]]], [['a', ['b', ['c', 'd']]], [], 'x'], [(1, 3), 'x', [(5, 7)]]]
    for x in nested:
        c += [('FL', [x], flat(x, False)), ('FA', [x], flat(x, True))]
    grids = [[L(2, 'a'), L(2, 'b')], [L(3, 'a'), L(2, 'b')], [L(1, 'a'), L(3, 'b'), L(2, 'c')], [L(2, 'a'), []], [[]], [], [L(3, 'a')],
             [L(2, 'a'), L(2, 'b'), L(2, 'c')], [(0, 3), L(2, 'b')], [L(2, 'a'), (1, 5)]]
    for g in grids:
        ls = [seq(l) for l in g]
        c += [('Z', [g], transpose(ls)), ('WV', [g], weave(ls) if g else '"'), ('CP', [g], [list(t) for t in itertools.product(*ls)]),
              ('ZD', [g], transpose(ls, '"')), ('ZD', [g, 'v'], transpose(ls, 'v'))]
        if all(isinstance(l, list) for l in g):
            up = [l + l[::-1] for l in ls]
            pz = [l + l[-2::-1] if l else [] for l in ls]
            c += [('QR', [g], up + up[::-1]), ('QP', [g], pz + pz[-2::-1] if pz else [])]
    for n, m in itertools.product(range(4), range(4)):
        a, b = L(n, 'a'), L(m, 'b')
        c += [('Z', [a, b], transpose([a, b])), ('WV', [a, b], weave([a, b])), ('CP', [a, b], [list(t) for t in itertools.product(a, b)]),
              ('AL', [a, b], a + b)]
        c += [('CG', [n, m], [[[i, j] for j in range(m)] for i in range(n)]), ('ZG', [n, m], [[0] * m for _ in range(n)]),
              ('OG', [n, m], [[1] * m for _ in range(n)])]
    c += [('Z', [L(2, 'a'), (5, 9)], [['a1', 5], ['a2', 6]]), ('WV', [(0, 3), L(1, 'b')], [0, 'b1', 1, 2]),
          ('WV', [L(2, 'a'), None], L(2, 'a')), ('WV', [[L(2, 'a'), None, L(1, 'c')]], ['a1', 'c1', 'a2'])]
    for n in range(4):
        c += [('CG', [n], [[[i, j] for j in range(n)] for i in range(n)]), ('ZG', [n], [[0] * n for _ in range(n)]),
              ('OG', [n], [[1] * n for _ in range(n)]), ('EY', [n], [[int(i == j) for j in range(n)] for i in range(n)])]
    # equal items
    for x in ([1, 2, 1], ['"a', '"b', '"a', '"b', '"c'], [[1], [2], [1]], [3, 3, 3], [2, '"2', 1], [None, 1, None], [[], [1, []], [1, []], []]):
        u = []
        for y in x:
            if y not in u and norm(y) not in [norm(z) for z in u]:
                u.append(y)
        c.append(('UQ', [x], u))
        for y in [x[0], x[-1], 9]:
            hit = [i for i, z in enumerate(x) if norm(z) == norm(y)]
            if not isinstance(y, list) and y is not None:
                c += [('@?', [x, y], hit[0] if hit else None), ('@*', [x, y], hit),
                      ('N', [y, x], len(hit))]
    c += [('UQ', [(1, 5)], (1, 5)), ('UQ', [None], None), ('@?', [(3, 8), 5], 2), ('@?', [(3, 8), 9], None), ('@*', [(3, 8), 5], [2]),
          ('@?', [(3, 8), [5, 9, 3]], [2, None, 0])]
    # text is a sequence of characters
    for t in ('', 'p', 'pq', 'pqrs', 'pqpr'):
        q = '"' + t
        J = lambda xs: '"' + ''.join(xs)
        c += [('RV', [q], J(t[::-1])), ('R', [q], J(t[::-1])), ('RF', [q], J(t + t[::-1])), ('PZ', [q], J(t + t[-2::-1]) if t else '"'),
              ('UQ', [q], J(dict.fromkeys(t))), ('EN', [q], [[i, '"' + ch] for i, ch in enumerate(t)]),
              ('UW', [q], [J(t[0::2]), J(t[1::2])]), ('UW', [q, 3], [J(t[i::3]) for i in range(3)]),
              ('WV', [q, '"XYZ'], J(weave([t, 'XYZ']))), ('WV', [['"XY', q]], J(weave(['XY', t]))),
              ('<>', [q], [J(x) for x in chunks_by(t, 2)]), ('<>', [q, -3], [J(x) for x in chunks_by(t, -3)]),
              ('CB', [q, 2], [J(x) for x in itertools.combinations(t, 2)]), ('^', [q], ['"' + ch for ch in t])]
        if t:
            c += [('^@', [q, [1, -1]], [J(x) for x in splitat(t, [1, -1])]), ('^@', [q, 0], [J(x) for x in splitat(t, [0])])]
        if len(t) < 4:
            c.append(('PM', [q], [J(x) for x in itertools.permutations(t)]))
        for y in 'pqz':
            hit = [i for i, z in enumerate(t) if z == y]
            c += [('@?', [q, '"' + y], hit[0] if hit else None), ('@*', [q, '"' + y], hit), ('N', ['"' + y, q], len(hit))]
        c += [('Z', [[q, '"XY']], [['"' + a, '"' + b] for a, b in zip(t, 'XY')]), ('CP', [q, '"XY'], [['"' + a, '"' + b] for a in t for b in 'XY']),
              ('J', [['"' + ch for ch in t]], '"' + t), ('J', [q, '"-'], '"' + '-'.join(t)), ('JW', [q, '"-'], '"-' + ''.join(ch + '-' for ch in t)),
              ('RM', [q, '"pr'], J(t.replace('pr', ''))), ('DC', [q, '"pr'], J(ch for ch in t if ch not in 'pr'))]
    c += [('J', [['"p', ['"q', '"r'], '"s']], '"pqrs'), ('J', [['"p', ['"q', '"r'], '"s'], '"-'], '"p-q-r-s'), ('J', [[]], '"'),
          ('J', [['"p', '"q'], ['"-', '"+']], ['"p-q', '"p+q']), ('J', [(1, 4)], '"123'), ('J', [(1, 4), '",'], '"1,2,3'), 
          ('JW', [['"p', ['"q', '"r']], '"-'], '"-p-q-r-'), ('JW', [[], '"-'], '"-'), ('.', ['"p', '"q'], '"pq'), ('WR', ['"p', '"q'], '"qpq'),
          ('X', ['"pq', 3], '"pqpqpq'), ('X', ['"pq', 0], '"'), ('TM', ['"pqrst'], '"qrs'), ('TM', ['"pqrst', 2], '"r'), ('DC', ['"pqrpq', '"pq'], '"r'),
          ('LC', ['"pQ1'], '"pq1'), ('UC', ['"pQ1'], '"PQ1'), ('SC', ['"pQ1'], '"Pq1'), ('H', ['"pqrs', 2], '"pq'), ('S', ['"pqrs', 2], '"rs'),
          ('^', ['"a-b--c', '"-'], ['"a', '"b', '"', '"c']), ('^', ['"abc', '"-'], ['"abc']), ('||', ['"  a b '], '"a b'), ('|>', ['"  a b '], '"a b '),
          ('<|', ['"  a b '], '"  a b'), ('||', ['"xyayx', '"xy'], '"a'), ('|>', ['"xyayx', '"xy'], '"ayx'), ('<|', ['"xyayx', '"xy'], '"xya'),
          ('TR', ['"abcabd', '"abc', '"xyz'], '"xyzxyd'), ('TR', ['"abc', '"ab', '"x'], '"xbc'), ('R', ['"a-b-c', '"-', '"+'], '"a+b+c'),
          ('IC', ['"ab cd'], '"Ab cd'), ('TC', ['"ab cd'], '"Ab Cd'), ('ZJ', [['"ab', '"cde']], ['"ac', '"bd', '" e']), ('ZJ', ['"ab', '"cde'], ['"ac', '"bd', '" e'])]
    return c


@prop('C35')
def arrangement(rep):
    rep.explanation = ('Every list operator is evaluated abstractly on lists of up to four opaque values, on ranges, nested lists '
                       'and constant texts; the result must be the reference arrangement of exactly those values, for whatever '
                       'the values are.')
    run_cases(rep, arrangement_cases(rep.thorough) + table('C35'))


# ---------------------------------------------------------------------------------------------------- indexing (C37)
NOITEM = None


def at_ref(s, i, text=False):
    """s @ i for a sequence (list of shapes, range tuple, or text)."""
    if isinstance(i, list):
        return [at_ref(s, j, text) for j in i]
    if isinstance(i, tuple):
        return slice_ref(s, i[0], i[1])
    if i is None:
        return None
    if isinstance(s, tuple) and s[1] is None:
        return (s[0] or 0) + i if i >= 0 else None
    x = chars(s)
    return None if not x else x[i % len(x)]


def chars(s):
    if isinstance(s, str):
        return ['"' + ch for ch in s[1:]]
    return seq(s)


def slice_ref(s, a, b):
    """Items a..b of s repeated forever in both directions; a negative bound counts from the end."""
    if isinstance(s, tuple) and s[1] is None:
        if (a or 0) < 0 or (b is not None and b < 0):
            return None
        lo = (s[0] or 0) + (a or 0)
        return (lo, None if b is None else (s[0] or 0) + b)
    x = chars(s)
    n = len(x)
    a = 0 if a is None else a + n if a < 0 else a
    b = n if b is None else b + n if b < 0 else b
    out = [x[i % n] for i in range(a, b)] if n else []
    return '"' + ''.join(ch[1:] for ch in out) if isinstance(s, str) else out


def index_cases(thorough):
    """(symbol, subject, index or absent, expected)."""
    m = 9 if thorough else 7
    subs = [L(n) for n in range(6 if thorough else 5)] + [(2, 6), (0, 3), (-2, 1), (4, 5), (None, 3), (3, 3), (4, 2), (2, None), (None, None)] + \
        ['"', '"p', '"pqr', '"pqrst'] + [[[], ['a', 'b'], 'x'], [(2, 5), 'x']]
    bounds = [None, 0, 1, 2, 3, 5, 8, -1, -2, -3, -5, -8] if thorough else [None, 0, 1, 2, 5, -1, -2, -6]
    out = []
    for s in subs:
        inf = isinstance(s, tuple) and s[1] is None
        for k in range(-m, m + 1):
            out.append(('@', s, k, at_ref(s, k)))
            out.append(('@<', s, k, slice_ref(s, None, k)))
            out.append(('@>', s, k, slice_ref(s, k, None)))
            out.append(('H', s, k, slice_ref(s, None, k)))
            out.append(('S', s, k, slice_ref(s, -k, None) if k else slice_ref(s, 0, 0)))
        for a, b in itertools.product(bounds, bounds):
            if a is None and b is None or isinstance(s, list) and len(s) > 4:
                continue
            out.append(('@', s, (a, b), slice_ref(s, a, b)))
        for i in ([], [0], [0, 1], [2, -1, 2], [[1], [0, [2]]], [(0, 2), 1], [(1, 5), -1], [None, 0]):
            if not inf:
                out.append(('@', s, i, at_ref(s, i)))
        for i in ([1, -1], [0, 4], [[2, 1], 0]):
            f = lambda g, i: [f(g, j) if isinstance(j, list) else g(j) for j in i]
            if not inf:
                out += [('@<', s, i, f(lambda k: slice_ref(s, None, k), i)), ('@>', s, i, f(lambda k: slice_ref(s, k, None), i)),
                        ('H', s, i, f(lambda k: slice_ref(s, None, k), i)),
                        ('S', s, i, f(lambda k: slice_ref(s, -k, None) if k else slice_ref(s, 0, 0), i))]
        if not inf:
            for r in ((0, 3), (-2, 1)):
                out += [('@<', s, r, [slice_ref(s, None, k) for k in seq(r)]), ('@>', s, r, [slice_ref(s, k, None) for k in seq(r)]),
                        ('H', s, r, [slice_ref(s, None, k) for k in seq(r)]),
                        ('S', s, r, [slice_ref(s, -k, None) if k else slice_ref(s, 0, 0) for k in seq(r)])]
        out.append(('@', s, ABSENT, at_ref(s, 0)))
        for sym, lo, hi in (('@<', None, -1), ('H', None, -1), ('@>', 1, None), ('S', 1, None)):
            out.append((sym, s, ABSENT, slice_ref(s, lo, hi)))
    return out


ABSENT = object()


def chain_cases():
    """Two index steps on the same subject: ((symbol, index), (symbol, index))."""
    steps = [('@', 0), ('@', -1), ('@', 2), ('@<', 2), ('@<', -1), ('@>', 1), ('@>', -2), ('@', (1, 3)), ('@', (-2, None)), ('H', 2), ('S', 2)]
    s = [['a', 'b'], ['c', 'd', 'e'], ['f', 'g', 'h', 'i']]
    for (o1, i1), (o2, i2) in itertools.product(steps, steps):
        yield s, (o1, i1), (o2, i2), step_ref(step_ref(s, o1, i1), o2, i2)


def step_ref(s, sym, i):
    if sym == '@':
        return at_ref(s, i)
    if sym == '@<' or sym == 'H':
        return slice_ref(s, None, i)
    if sym == '@>':
        return slice_ref(s, i, None)
    return slice_ref(s, -i, None) if i else slice_ref(s, 0, 0)


def plain(x):
    """Ranges as lists of their numbers; open ranges by their bounds."""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], (int, type(None))):
        return seq(x) if x[1] is not None else (x[0] or 0, None)
    if isinstance(x, list):
        return [plain(y) for y in x]
    return norm(x)


def empty_slice(got, want, s, steps):
    """A slice of something empty: empty or nil."""
    blank = lambda x: x is None or x in ([], '"') or isinstance(x, list) and all(map(blank, x))
    return blank(got) and blank(want) and any(sym == '@' and kinds([i]) in ('range', 'list') for sym, i in steps if i is not ABSENT)


def check_index(case):
    s, steps, want, how = case
    V_ = V()
    W = V_.W
    subj = V_.build(s)
    if how == 'variable':
        V_.set('l', s)
        subj = V_.name('l')
    t = subj
    for sym, i in steps:
        op = W.op(1 if i is ABSENT else 2, sym)
        if op is None:
            return dict(n=0, undecided=f'no operator {sym}')
        t = V_.tree(*([op, t] if i is ABSENT else [op, t, V_.build(i)]))
    st = V_.st.copy()
    W.E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(record('warn')(st), (st, NONE))[1]]
    W.E.dropped = 0
    W.E.inline_eq = True
    res, raises = W.call('evaluate', t, st=st)
    outs, hard = [], [x for _, x in raises if not x[4]]
    for s1, v in res:
        if LVAL in (W.E.types(s1, v) or ()):
            r2, x2 = W.call('getRval', v, st=s1)
            outs += [plain(got_shape(V_, s2, v2)) for s2, v2 in r2]
            hard += [x for _, x in x2 if not x[4]]
        else:
            outs.append(plain(got_shape(V_, s1, v)))
    text = shape_text(s) + ''.join(f' {sym}' + ('' if i is ABSENT else ' ' + shape_text(i)) for sym, i in steps) + (' (in a variable)' if how == 'variable' else '')
    if len(steps) == 1 and steps[0][1] is ABSENT:
        text = f'{steps[0][0]} {shape_text(s)}' + (' (in a variable)' if how == 'variable' else '')
    want = plain(want)
    key = '+'.join(f'{sym}/{1 if i is ABSENT else 2}:{kinds([s])}{"" if i is ABSENT else " " + kinds([i])}' for sym, i in steps) + (':variable' if how == 'variable' else '')
    if W.E.dropped or not outs and not hard:
        return dict(n=0, undecided=f'{text}: no definite outcome')
    ok = lambda o: o == want or empty_slice(o, want, s, steps)
    bad = [o for o in outs if not ok(o) and not unknown(o)]
    if len(outs) + len(hard) > 1 and (bad or hard or any(map(unknown, outs))) and any(ok(o) or unknown(o) for o in outs):
        return dict(n=0, undecided=f'{text}: several outcomes {outs[:3]}')
    if hard:
        return dict(n=1, bad=[(f'{key}:fails', f'{text} fails with {hard[0][1].split(".")[-1]}', 'it should give ' + shape_text(want))])
    if bad:
        return dict(n=1, bad=[(key, f'{text} gives {shape_text(bad[0])}', 'it should give ' + shape_text(want))])
    if any(map(unknown, outs)):
        return dict(n=0, undecided=f'{text}: result not known exactly')
    return dict(n=1)


def index_task(i):
    out, und, n = [], [], 0
    for c in H._index_batches[i]:
        r = check_index(c)
        n += r['n']
        out += r.get('bad', [])
        if r.get('undecided'):
            und.append(r['undecided'])
    return dict(bad=out, undecided=(f'{und[0]}' + (f' (and {len(und) - 1} more)' if len(und) > 1 else '')) if und else None, n=n)


LVAL = P + 'Lval' if False else 'execution.Lval'


@prop('C37')
def indexing(rep):
    rep.explanation = ('The index and slice operators (@, @<, @>, H, S) are evaluated abstractly on lists of opaque items, finite and '
                       'open ranges and texts with every kind of index, written directly and through a variable, in one and two '
                       'steps; the result must be the reference selection.')
    cases = []
    for sym, s, i, want in index_cases(rep.thorough):
        cases += [(s, [(sym, i)], want, 'direct'), (s, [(sym, i)], want, 'variable')]
    for s, a, b, want in chain_cases():
        cases += [(s, [a, b], want, 'direct'), (s, [a, b], want, 'variable')]
    n = max(1, len(cases) // 40)
    H._index_batches = [cases[i::n] for i in range(n)]
    collect(rep, index_task, range(n), 'groups of index expressions')
