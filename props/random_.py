"""Random operators: the set of possible results (C44)."""
import itertools
from values import *
from engine_consts import *
from . import prop
from .eval_ import collect
from .input_ import statements, run
from .terms_ import T, Term, Unknown, Fails, value, show, FAILS

WIDE = 8


def forks(W):
    """Every draw forks over all its outcomes (wide ones: over both ends and one value between)."""
    E = W.E

    def outcomes(lo, hi, step=1):
        xs = range(lo, hi, step)
        if len(xs) > WIDE:
            xs = [xs[0], xs[1], xs[len(xs) // 2], xs[-2], xs[-1]]
        return list(xs)

    def ints(vals):
        if any(v[0] != 'K' or not isinstance(v[2], int) for v in vals):
            return None
        return [int(v[2]) for v in vals]

    def randrange(E_, a, kw, st, node):
        xs = ints(a)
        if xs is None or kw:
            return None
        xs = outcomes(*([0] + xs if len(xs) == 1 else xs))
        if not xs:
            E_.raise_(st, 'ValueError', node, info='empty range')
            return []
        return [(st.copy(), K(x)) for x in xs]

    def randint(E_, a, kw, st, node):
        xs = ints(a)
        if xs is None or kw:
            return None
        xs = outcomes(xs[0], xs[1] + 1)
        if not xs:
            E_.raise_(st, 'ValueError', node, info='empty range')
            return []
        return [(st.copy(), K(x)) for x in xs]

    def elements(E_, v, st, node):
        out = []
        for b, (exact, summ, ml) in E_.iterate(v, st, node):
            if exact is None or len(exact) > 5:
                return None
            out.append((b, list(exact)))
        return out

    def choice(E_, a, kw, st, node):
        es = elements(E_, a[0], st, node)
        if es is None:
            return None
        out = []
        for b, xs in es:
            if not xs:
                E_.raise_(b, 'IndexError', node, info='empty sequence')
            out += [(b.copy(), x) for x in xs]
        return out

    def shuffle(E_, a, kw, st, node):
        v = a[0]
        o = E_.obj(st, v) if v[0] == 'R' else None
        if o is None or o.elems is None or len(o.elems) > 4 or o.kind != 'list':
            return None
        out = []
        for p in itertools.permutations(o.elems):
            s = st.copy()
            s.heap = dict(s.heap)
            s.heap[v[1]] = o.rep(elems=tuple(p))
            out.append((s, NONE))
        return out

    def sample(E_, a, kw, st, node):
        k = ints([a[1]] if len(a) > 1 else [kw.get('k', NONE)])
        es = elements(E_, a[0], st, node)
        if es is None or k is None:
            return None
        out = []
        for b, xs in es:
            if k[0] > len(xs) or k[0] < 0:
                E_.raise_(b, 'ValueError', node, info='sample larger than the population')
            for p in itertools.permutations(xs, k[0]):
                s = b.copy()
                out.append((s, E_.alloc(s, E_.plist_obj(p)) if hasattr(E_, 'plist_obj') else W.plist(s, list(p))))
        return out

    def choices(E_, a, kw, st, node):
        k = ints([kw.get('k', K(1))])
        es = elements(E_, a[0], st, node)
        if es is None or k is None or k[0] > 3 or set(kw) - {'k'}:
            return None
        out = []
        for b, xs in es:
            for p in itertools.product(xs, repeat=k[0]):
                s = b.copy()
                out.append((s, W.plist(s, list(p))))
        return out
    for n, f in dict(randrange=randrange, randint=randint, choice=choice, shuffle=shuffle, sample=sample, choices=choices).items():
        E.intrinsics['random.' + n] = f


def perms(*xs):
    return [list(p) for p in itertools.permutations(xs)]


def S(*xs):
    return [str(x) for x in xs]


def wide(lo, hi):
    """Both ends must be possible and nothing outside."""
    return ('wide', lo, hi)


PROGRAMS = [   # program, the possible results given the texts a and b
    ('RR 1', S(0)), ('RR 2', S(0, 1)), ('RR 5', S(0, 1, 2, 3, 4)), ('RR 0', [None]), ('RR-3', [None]), ('RR 2.9', S(0, 1)), ('RR"3"', S(0, 1, 2)), ('RR"x"', [None]),
    ('RR 0.5', [None]), ('RR 100', wide(0, 100)), ('RR 1000000', wide(0, 1000000)), ('RR-0.5', [None]), ('RR""', [None]), ('RR 3.0', S(0, 1, 2)),
    ('2RR 5', S(2, 3, 4)), ('0RR 1', S(0)), ('-2RR 2', S(-2, -1, 0, 1)), ('5RR 5', [None]), ('5RR 2', [None]), ('-3RR-1', S(-3, -2)), ('1RR 2', S(1)), ('()RR 3', S(0, 1, 2)),
    ('1.9RR 3.9', S(1, 2)), ('-1.5RR 1', S(-1, 0)), ('10RR 200', wide(10, 200)), ('-500RR-100', wide(-500, -100)), ('3RR()', [None]), ('-1RR 0', S(-1)),
    ('RR[2;1]', [[x, y] for x in S(0, 1) for y in S(0)]), ('RR(1,3)', [[x, y] for x in S(0) for y in S(0, 1)]), ('RR[2;[2;0]]', [[x, [y, None]] for x in S(0, 1) for y in S(0, 1)]),
    ('[1;3]RR[3;5]', [[x, y] for x in S(1, 2) for y in S(3, 4)]), ('1RR[2;3]', [[x, y] for x in S(1) for y in S(1, 2)]), ('[0;1]RR 2', [[x, y] for x in S(0, 1) for y in S(1)]),
    ('RR[]', [[]]), ('RR()', [None]), ('RR{a}', None),
    ('RC[a;b]', lambda a, b: [a, b]), ('RC[a;b;"z"]', lambda a, b: [a, b, 'z']), ('RC[a]', lambda a, b: [a]), ('RC[]', [None]), ('RC()', [None]), ('RC""', [None]),
    ('RC"x"', ['x']), ('RC"xyz"', ['x', 'y', 'z']), ('RC"xx"', ['x']), ('RC 507', S(5, 0, 7)), ('RC-5', ['-', '5']), ('RC 2,5', S(2, 3, 4)), ('RC 4,5', S(4)), ('RC 5,5', [None]), ('RC 5,2', [None]),
    ('RC 3,()', [None]), ('RC,3', S(0, 1, 2)), ('RC,0', [None]), ('RC-2,2', S(-2, -1, 0, 1)), ('RC[[a;b];a;[]]', lambda a, b: [[a, b], a, []]), ('RC[a;()]', lambda a, b: [a, None]),
    ('RC[3,5;1]', [('range', 3, 5), '1']), ('RC[[1;2];[3;4;5]]', [S(1, 2), S(3, 4, 5)]), ('RC[0;0]', ['0']),
    ('x:[a;b] RC x', lambda a, b: [a, b]), ('x:[a;b] [RC x;x]', lambda a, b: [[a, [a, b]], [b, [a, b]]]), ('[RC"ab";RC"cd"]', [list(p) for p in itertools.product('ab', 'cd')]),
    ('(RC"ab")X2', ['aa', 'bb']), ('(RC"ab").RC"ab"', ['aa', 'ab', 'ba', 'bb']), ('x:RC 0,2 [x;x]', [S(0, 0), S(1, 1)]), ('(RC 1,4)+10', S(11, 12, 13)),
    ('RC*["ab";"c"]', [['a', 'c'], ['b', 'c']]), ('RR*[2;1]', [S(0, 0), S(1, 0)]), ('({RR a}3)', S(0, 1, 2)), ('RR:2', None), ('x:3 RR:x x', None), ('x:"ab" RC:x [x]', [['a'], ['b']]), ('x:2 x RR:4 [x]', [S(2), S(3)]),
    ('SH[a;b]', lambda a, b: [[a, b], [b, a]]), ('SH[a;b;"z"]', lambda a, b: perms(a, b, 'z')), ('SH[a]', lambda a, b: [[a]]), ('SH[]', [[]]), ('SH""', ['']), ('SH"x"', ['x']),
    ('SH"xyz"', [''.join(p) for p in perms('x', 'y', 'z')]), ('SH"aab"', ['aab', 'aba', 'baa']), ('SH 12', S(12, 21)), ('SH 1.5', ['1.5', '15.', '.15', '.51', '5.1', '51.']), ('SH 1,4', perms(*S(1, 2, 3))), ('SH 2,2', [[]]), ('SH 4,5', [S(4)]), ('SH()', [None]),
    ('SH[1;[2;3]]', [['1', S(2, 3)], [S(2, 3), '1']]), ('SH[[1;2]]', [[S(1, 2)]]), ('x:[a;b] [SH x;x]', lambda a, b: [[[a, b], [a, b]], [[b, a], [a, b]]]), ('SH[0;()]', [['0', None], [None, '0']]),
    ('SH[1,3;5]', [[('range', 1, 3), '5'], ['5', ('range', 1, 3)]]), ('x:[1;2] SH:x x', [S(1, 2), S(2, 1)]), ('#SH[a;b;a]', S(3)), ('SH*["ab";"c"]', [['ab', 'c'], ['ba', 'c']]), ('(SH"ab")@0', ['a', 'b']), ('SH-1,2', perms(*S(-1, 0, 1))),
    ('{SHa}MP"ab"', None), ('(SH_ "ab")', ['ab', 'ba']), ('(RC_ "ab")', ['a', 'b']), ('(RR_ 2)', S(0, 1)), ('(_RR 2 0)', S(0, 1)), ('(_RR_ 1)', [None]),
    ('RC[1;2]RC 3', None), ('2RR RC[3;4]', S(2, 3)), ('(RR 2)RR 2', S(0, 1)), ('RR 1+RR 2', S(0, 1)), ('W 0{}RC"pq"', ['p', 'q']), ('F i SH[1;2]{x:i}x', S(2, 1)),
]


def freeze(x):
    return tuple(map(freeze, x)) if isinstance(x, list) else ('none',) if x is None else x


def rand_task(task):
    i, = task
    code, want = PROGRAMS[i]
    V_ = T()
    W = V_.W
    E = W.E
    forks(W)
    E.reclimit, E.depthlimit, E.concrete_while = 60, 400, 400
    E.nsteps = E.dropped = 0
    trees = statements(V_, code)
    if trees is None:
        return dict(n=0, undecided=f'{code}: not parsed')
    for nm, sh in zip('ab', 'xy'):
        W.setvar(V_.st, nm, V_.build(sh))
    done, hard = run(V_, trees)
    if E.dropped or not done and not hard:
        return dict(n=0, undecided=f'{code}: no definite outcome')
    bad, n, und = {}, 0, None
    for a, b in (('u', 'v'), ('', '1'), ('0', '00'), ('x y', ' ')):
        asg = dict(x=a, y=b)
        w = want(a, b) if callable(want) else want
        got, unknown = [], None
        for s, vals in done:
            t = Term(W, s, asg)
            try:
                if not t.holds():
                    continue
                got.append(value(V_, t, vals[-1]))
            except Unknown as e:
                unknown = str(e)
            except Fails:
                pass
        if hard:
            got.append(FAILS)
        n += 1
        if unknown:
            und = f'{code}: {unknown}'
            continue
        if isinstance(w, tuple) and w[0] == 'wide':
            over = [x for x in got if not (isinstance(x, str) and x.lstrip('-').isdigit() and w[1] <= int(x) < w[2])]
            missing = [x for x in S(w[1], w[2] - 1) if x not in got]
        else:
            ws = {freeze(x) for x in w}
            gs = {freeze(x) for x in got}
            over = [x for x in got if freeze(x) not in ws]
            missing = [x for x in w if freeze(x) not in gs]
        ops = f' with a={show(a)}, b={show(b)}' if callable(want) else ''
        if over:
            bad.setdefault(f'{code}:over', (f'{code}:over', f'{code}{ops} can give {show(over[0])}', 'executeStatement, outcomes of all draws'))
        elif missing:
            bad.setdefault(f'{code}:missing', (f'{code}:missing', f'{code}{ops} never gives {show(missing[0])}', 'executeStatement, outcomes of all draws'))
    return dict(bad=list(bad.values()), n=n, undecided=und if not bad else None)


@prop('C44')
def random_results(rep):
    rep.explanation = ('Programs with RR, RC and SH are interpreted abstractly; every draw from the random generator (randrange, randint, choice, shuffle, sample) forks '
                       'into one path per outcome. The set of results over all paths must be exactly the set the operator promises: nothing outside it, and nothing in it unreachable. Operands a and b are opaque texts.')
    collect(rep, rand_task, [(i,) for i, (c, w) in enumerate(PROGRAMS) if w is not None], 'programs')
