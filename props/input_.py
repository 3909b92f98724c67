"""Reading standard input with q and random numbers with r: once for each evaluation of the name (C16)."""
import ast
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import record, events
from . import prop
from .eval_ import collect
from .vars_ import V, tab
from .lists_ import got_shape, plain, shape_text, unknown
from .unparse_ import reparse, build as build_tree


def statements(V_, code):
    """The parse trees of a program text, by the reference front end."""
    t = reparse(code)
    if t is None:
        return None
    W, E = V_.W, V_.W.E
    if not hasattr(V_, 'E'):
        V_.E = E
    return W.items(V_.st, build_tree(V_, V_.st, t))


def watch_input(W, lines):
    """input() gives these lines, then the end of input; random.random() numbered opaque numbers."""
    E = W.E

    def inp(E_, args, kw, st, node):
        n = sum(1 for e in events(st) if e[0] == 'input')
        record('input')(st, n)
        if n < len(lines):
            return [(st, K(lines[n]))]
        E_.raise_(st, 'EOFError', node)
        return []

    def rnd(E_, args, kw, st, node):
        n = sum(1 for e in events(st) if e[0] == 'draw')
        record('draw')(st, n)
        return [(st, K(n + 0.5))]

    def seed(E_, args, kw, st, node):
        record('seed')(st, args[0] if args else None)
        return [(st, NONE)]
    def readline(E_, args, kw, st, node):
        n = sum(1 for e in events(st) if e[0] == 'input')
        record('input')(st, n)
        return [(st, K(lines[n] + '\n' if n < len(lines) else ''))]
    E.intrinsics['builtins.input'] = inp
    E.intrinsics['sys.stdin.readline'] = readline
    E.intrinsics['random.random'] = rnd
    E.intrinsics['random.seed'] = seed
    E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(st, NONE)]


def run(V_, trees):
    """Execute the statements in order: [(state, values)], hard errors."""
    W = V_.W
    W.E.inline_eq = True
    W.E.dropped = 0
    cur, hard = [(V_.st.copy(), [])], []
    for t in trees:
        nxt = []
        for s, vals in cur:
            W.E.nsteps = 0
            res, raises = W.call('executeStatement', t, st=s)
            hard += [x for _, x in raises if not x[4]]
            nxt += [(s2, vals + [v]) for s2, v in res]
        cur = nxt
    return cur, hard


LINES = ['abc', '12', 'xyz', '7', '0']

# (code, value of the last statement, lines read); the lines are LINES
CASES = [
    ('[q@0|5;q]', ['a', 12], 2), ('[++q@1;q]', None, 2), ('[q@0?q@0 5;q]', [1, 'xyz'], 3), ('[q@1&q@1;q]', [2, 'xyz'], 3),
    ('(q|5)', 'abc', 1), ('[(q|5);q]', ['abc', 12], 2), ('x:q@2 [x;x]', ['c', 'c'], 1), ('x:[5;6] x@0::(q@1) [x;q]', [['b', 6], 12], 2),
    ('q', 'abc', 1), ('[q;q]', ['abc', 12], 2), ('[q;q;q]', ['abc', 12, 'xyz'], 3), ('[q;[q;q]]', ['abc', [12, 'xyz']], 3),
    ('x:q x', 'abc', 1), ('x:q [x;x]', ['abc', 'abc'], 1), ('x:q y:q [x;y]', ['abc', 12], 2), ('[x;y]:[q;q] [y;x]', [12, 'abc'], 2),
    ('l:[0;1] l@0:q l', ['abc', 1], 1), ('q@0', 'a', 1), ('q@1', 'b', 1), ('(q)@1', 'b', 1), ('@q', 'a', 1), ('[@q;q]', ['a', 12], 2),
    ('[q@0;q@0]', ['a', 1], 2), ('[q@<2;q]', ['ab', 12], 2), ('[q@>1;q]', ['bc', 12], 2), ('q.q', 'abc12', 2), ('q.q.q', 'abc12xyz', 3),
    ('[q;q;5+12]', ['abc', 12, 17], 2), ('[q-5;q-5]', [-5, 7], 2), ('[q*q;q*q]', [0, 0], 4), ('q?q q', 12, 2), ('0?q q', 'abc', 1),
    ('q&q', 12, 2), ('q|q', 'abc', 1), ('0&q', 0, 0), ('0|q', 'abc', 1), ('1&q', 'abc', 1), ('q&0&q', 0, 1), ('Y q [y;y;q]', ['abc', 'abc', 12], 2),
    ('[Y q;q]', ['abc', 12], 2), ('[P q;q]', ['abc', 12], 2), ('[O q;q]', ['abc', 12], 2), ('#q', 3, 1), ('[#q;#q]', [3, 2], 2),
    ('$.[q;q;q]', 'abc12xyz', 3), ('[RV q;q]', ['cba', 12], 2), ('q=q', 0, 2), ('q!=q', 1, 2), ('1<q<3', 0, 1), ('q<q<q', 0, 3),
    ('{[a;a]}V q', None, None), ('({[a;a]} q)', ['abc', 'abc'], 1), ('({[a;b;a]} q q)', ['abc', 12, 'abc'], 2), ('{[a;a]}Mq', [['a', 'a'], ['b', 'b'], ['c', 'c']], 1),
    ('h:{q} [(h 0);(h 0)]', ['abc', 12], 2), ('h:{[q;q]} (h 0)', ['abc', 12], 2), ('h:{x:q q} [(h 0);x]', [12, 'abc'], 2),
    ('{q}M,3', ['abc', 12, 'xyz'], 3), ('x:q x.:q x', 'abc12', 2), ('x:[1;2] x@0:q x', ['abc', 2], 1), ('l:[] l PU q l PB q l', ['abc', 12], 2),
    ('[++q;q]', None, 2), ('[--q;q]', None, 2), ('[PO q;q]', ['a', 12], 2), ('[DQ q;q]', ['c', 12], 2), ('[q PK 1;q]', ['b', 12], 2),
    ('[q PU 0;q]', None, 2), ('[q PB 0;q]', None, 2), ('[H q;q]', ['ab', 12], 2), ('[S q;q]', ['bc', 12], 2), ('[q H 1;q]', ['a', 12], 2),
    ('[q S 1;q]', ['c', 12], 2), ('q:5 q', 12, 2), ('[q;q]:[1;2] q', 'xyz', 3), ('x:0 x::q [x;q]', ['abc', 12], 2), ('q::(x) q', None, 2),
    ('q.:5 q', 12, 2), ('q@0:5 q', None, None), ('x:"q" [x;q]', ['q', 'abc'], 1), ('`q`.q', None, 1), ('{q} q', 'abc', 1), ('[{q};q]@1', 'abc', 1),
    ('I q x:q x', 12, 2), ('I 0 x:q x', None, 0), ('I 0 {x:1} EL {x:q} x', 'abc', 1), ('L 3 {x:q} x', 'xyz', 3), ('L q {x:5} q', 12, 2),
    ('F i q {x:i} [x;q]', ['c', 12], 2), ('F i,2 {x:q} x', 12, 2), ('W q {x:q} x', 7, 5), ('T q {x:5} [x;q]', None, 2), ('F i [q;q] {x:i.q} x', '127', 4),
    ('l:[4;5;6] l@q', 4, 1), ('l:[4;5;6] q l@q', 4, 2), ('x:q q q q [x;q]', ['abc', 0], 5), ('[q;r]', ['abc', '0.5'], 1),
    ('[q;q;q;q;q;q;q]', ['abc', 12, 'xyz', 7, 0, None, None], 7), ('q q q q q q', None, 6), ('q q q q q x:q [x;x;q]', [None, None, None], 7),
    ('q q q q q [q==();q]', None, 7), ('q q q q q q@0', None, 6), ('x:5 q q q q q x:q x', None, 6),
]
DRAWS = [('r', '0.5', 1), ('[r;r]', ['0.5', '1.5'], 2), ('x:r [x;x]', ['0.5', '0.5'], 1), ('({[a;a]} r)', ['0.5', '0.5'], 1), ('[Y r;r]', ['0.5', '1.5'], 2),
         ('[P r;r]', ['0.5', '1.5'], 2), ('[r@0;r@0]', [0, 1], 2), ('{r}M,2', ['0.5', '1.5'], 2), ('r?r r', '1.5', 2), ('0&r', 0, 0), ('r:5 r', '1.5', 2),
         ('[++r;r]', None, 2), ('x:0 x::r x', '0.5', 1), ('r+r', 2, 2), ('x:1 x+:r x', '1.5', 1)]


def conv(s):
    """Shapes written here: strings are texts."""
    if isinstance(s, list):
        return [conv(x) for x in s]
    return '"' + s if isinstance(s, str) else s


def case_task(task):
    what, event, code, want, reads = task[:5]
    lines = task[5] if len(task) > 5 else LINES
    V_ = V()
    W = V_.W
    trees = statements(V_, code)
    if trees is None:
        return dict(undecided=f'{code}: not understood', n=0)
    watch_input(W, lines)
    W.E.concrete_while = 12
    cur, hard = run(V_, trees)
    if W.E.dropped or not cur and not hard:
        return dict(undecided=f'{code}: no definite outcome', n=0)
    probs = []
    und = None
    for s, vals in cur:
        p = None
        n = sum(1 for e in events(s) if e[0] == event)
        if reads is not None and n != reads:
            p = (f'{event}:{code}', f'{code}: {n} {what} read instead of {reads}')
        v = vals[-1]
        if want is not None or reads == 6 and not p and event == 'input' and code.endswith(('q', ' x', 'q@0')):
            got = plain(got_shape(V_, s, v)) if v != NONE else 'no value'
            if got != plain(conv(want)):
                if unknown(got):
                    und = f'{code}: the value is not known exactly'
                else:
                    p = p or (f'value:{code}', f'{code}: the value is {shape_text(got) if got != "no value" else got}',
                              f'it should be {shape_text(plain(conv(want)))}, with the lines {lines}' if event == 'input' else '')
        probs.append(p)
    for x in hard:
        probs.append((f'fails:{code}', f'{code} fails with {x[1].split(".")[-1]}'))
    bad = [p for p in probs if p]
    if bad and (len(bad) < len(probs) or und):
        return dict(undecided=f'{code}: several outcomes: {bad[0][1]}', n=len(probs))
    return dict(bad=bad[:1], n=len(probs), undecided=und)


LAZY = {'OR', 'AND', 'IFTE', 'BLOCK'}


def row_task(task):
    """Every operator row with q as each of its operands: one line per q whose value is taken, in order."""
    i, j, name = task
    c = H.ctx()
    r = H.get_row(i)
    V_ = V()
    W = V_.W
    E = W.E
    watch_input(W, ['3', '4', '5', '6'])
    k = r.arity if r.handler not in ('LIST', 'SEND', 'CHAIN') else 3
    if j is not None and j >= k:
        return dict(n=0)
    args = [V_.name(name) if j is None or m == j else V_.build('"8' if r.handler != 'SEND' else '"9') for m in range(k)]
    if r.handler == 'CHAIN':
        args = [args[0], W.op(2, '<'), args[1 if j is None else (1 if j == 1 else 2)]]
        if args[1] is None:
            return dict(n=0)
    if r.handler == 'BLOCK':
        return dict(n=0)
    used = [m for m, a in enumerate(args) if W.get(V_.st, a, '_text') == K(name) and E.obj(V_.st, a).cls == 'tokens.Name']
    stub = c.has(r.flags, 'RVALS') and r.handler not in ('CHAIN',)
    if stub:
        def handler(E_, fi, a, kw, st, node):
            record('apply')(st, tuple(a[1:]))
            return [(st, E_.leaf(st, 'result', PIP, fresh=True))]
        E.intrinsics[P + r.handler] = handler
    event = 'input' if name == 'q' else 'draw'
    E.inline_eq = True
    E.dropped = 0
    tree = V_.tree(r.op, *args)
    res, raises = W.call('executeStatement', tree, st=V_.st.copy())
    what = f'operator {r} with {name} as operand {"s" if j is None else j + 1}'
    if E.dropped or not res:
        return dict(undecided=f'{what}: no definite outcome', n=0)
    probs = []
    for s, v in res:
        p = None
        n = sum(1 for e in events(s) if e[0] == event)
        lo = hi = len(used)
        if r.handler in LAZY:
            lo = 0
        if r.handler == 'BLOCK':
            hi = 0
        if r.handler == 'ASSIGN':
            lo = hi = 1 if 1 in used else 0
            if j == 0 or j is None:
                # the value of the assignment expression is the reference, read afterwards
                hi += 1
        if not lo <= n <= hi:
            p = (f'{event}:{r.handler}', f'{what}: {name} is read {n} times instead of {hi}')
        for e in events(s):
            if e[0] == 'apply' and stub and not p:
                for q, m in enumerate(used):
                    got = got_shape(V_, s, e[1][m]) if m < len(e[1]) else '?'
                    want = ['"' + x for x in (['3', '4', '5', '6'] if name == 'q' else ['0.5', '1.5', '2.5'])][q]
                    if plain(got) != plain(want) and not unknown(got):
                        p = (f'order:{r.handler}', f'{what}: operand {m + 1} gets {shape_text(plain(got))} instead of {shape_text(plain(want))}')
        probs.append(p)
    bad = [p for p in probs if p]
    if bad and len(bad) < len(probs):
        return dict(undecided=f'{what}: several outcomes', n=len(probs))
    return dict(bad=bad[:1], n=len(probs))


def seed_task(shape):
    """r:v seeds the generator with the text of v and draws nothing; nothing is stored."""
    V_ = V()
    W = V_.W
    watch_input(W, [])
    V_.st
    tree = V_.tree(V_.ASSIGN, V_.name('r'), V_.build(shape))
    W.E.inline_str = True
    before = V_.tables(V_.st)
    res, raises = W.call('evaluate', tree, st=V_.st.copy())
    if not res:
        return dict(undecided=f'r:{shape_text(shape)} has no outcome', n=0)
    bad = []
    for s, v in res:
        sd = [e for e in events(s) if e[0] == 'seed']
        if len(sd) != 1:
            bad.append(('seed:count', f'r:{shape_text(shape)} seeds the generator {len(sd)} times'))
        now = V_.tables(s)
        if now is not None and before is not None and set(now) != set(before):
            bad.append(('seed:stored', f'r:{shape_text(shape)} defines a variable'))
    if bad and len(bad) < len(res):
        return dict(undecided='several outcomes', n=len(res))
    return dict(bad=bad[:1], n=len(res))


# the value of an assignment is its target, which a statement reads
SEEDS = [('r:5', 1, 1, 0), ('r@0:5', 0, 1, 0), ('r@(-1)@2:5', 0, 1, 0), ('[r x]:[5 6]', 1, 1, 0), ('[x r]:[5 6]', 1, 1, 0),
         ('[r@0 x]:[5 6]', 0, 1, 0), ('r+:1', 1, 1, 0), ('r:r', 1, 2, 0), ('r:q', 1, 1, 1), ('q:5', 0, 0, 1), ('q@0:5', 0, 0, 1), ('[q x]:[5 6]', 0, 0, 1),
         ('q:r', 0, 1, 1), ('x:5', 0, 0, 0), ('Fr[5 6]x:1', 2, 0, 0), ('r:u', 1, 1, 0), ('r:[]', 1, 1, 0), ('Lr{x:r:a}', 0, 1, 0)]
VALUES = ['5', '"5 "', '"05"', '"5.0"', '50', '-5', '0.5', '0', '"a"', '"A"', '"ab"', '"ba"', '" a"', '"a "', '""', '[2;1]', '[1;2;3]',
          '["x"]', '12', '3', '4']


def seeding_task(task):
    """The number of seedings, draws and lines read of a program that assigns to r or q."""
    code, seeds, draws, lines = task
    V_ = V()
    watch_input(V_.W, ['l1', 'l2', 'l3'])
    V_.W.E.inline_str = True
    cur, hard = run(V_, statements(V_, code))
    if not cur or hard or V_.W.E.dropped:
        return dict(undecided=f'{code}: no outcome', n=0)
    bad = []
    for s, _ in cur:
        got = {k: sum(1 for e in events(s) if e[0] == k) for k in ('seed', 'draw', 'input')}
        for k, w, t in (('seed', seeds, 'the generator is seeded'), ('draw', draws, 'random numbers are drawn'), ('input', lines, 'lines are read')):
            if got[k] != w:
                bad.append((f'assigns:{code}', f'{code}: {t} {got[k]} times instead of {w}'))
    if len(cur) > 1:
        return dict(undecided=f'{code}: several outcomes', n=len(cur))
    return dict(bad=bad[:1], n=len(cur))


def distinct_task(task):
    """Different values seed the generator differently."""
    seen, bad, n = {}, [], 0
    for code in task:
        V_ = V()
        watch_input(V_.W, [])
        V_.W.E.inline_str = True
        cur, hard = run(V_, statements(V_, 'r:' + code))
        sd = [e[1] for s, _ in cur for e in events(s) if e[0] == 'seed']
        if len(cur) != 1 or hard or len(sd) != 1 or sd[0] is None or not isK(sd[0]):
            return dict(undecided=f'r:{code}: the seed is not known', n=n)
        n += 1
        # random.seed() takes equal numbers for the same seed, whatever their type
        k = sd[0][2]
        if k is None:
            bad.append((f'seed:none', f'r:{code} seeds the generator from the clock'))
        elif k in seen:
            bad.append((f'seed:equal', f'r:{code} seeds the generator like r:{seen[k]}'))
        seen[k] = code
    return dict(bad=bad[:1], n=n)


READS = ('sys.stdin', 'builtins.input', 'fileinput')


def readers(rep, E):
    """Functions that read standard input are reached only through the variable q and the command line."""
    direct = {}
    for fi in E.fns.values():
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Name) and x.id == 'input' and isinstance(x.ctx, ast.Load) and 'input' not in fi_locals(fi) or \
                    isinstance(x, ast.Attribute) and x.attr == 'stdin' and isinstance(x.value, ast.Name) and x.value.id == 'sys':
                direct.setdefault(fi.qual, x.lineno)
    # the function q reads through
    getter = None
    V_ = V()
    sv = V_.W.get(V_.st, V_.W.me, 'specialVars')
    if sv is not None:
        d = V_.W.dict(V_.st, sv) or {}
        g = V_.W.dict(V_.st, d['q']) if 'q' in d else None
        bm = (g or {}).get('get')
        if bm is not None and bm[0] == 'BM':
            getter = E.fns[bm[1][1]].qual
    if getter is None:
        rep.skip('the function that reads q is not found')
        return
    reach = {q for q in direct if not q.startswith('pip.')}
    names = {q.rsplit('.', 1)[1] for q in reach} - {getter.rsplit('.', 1)[1]}
    todo = set(names)
    while todo:
        nm = todo.pop()
        for fi in E.fns.values():
            if fi.qual in reach or fi.qual.startswith('pip.'):
                continue
            if any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == nm or
                                                isinstance(x.func, ast.Name) and x.func.id == nm) for x in ast.walk(fi.node)):
                reach.add(fi.qual)
                if fi.qual != getter:
                    n2 = fi.qual.rsplit('.', 1)[1]
                    if n2 not in names:
                        names.add(n2)
                        todo.add(n2)
    handlers = {P + r.handler for r in H.ctx().rows + H.ctx().pseudo} | {P + h for s, h, o in H.ctx().commands}
    bad = [q for q in reach if q != getter and (q in handlers or q in direct and q.startswith((P, 'ptypes.')) and
                                                 q.rsplit('.', 1)[1] not in called_by(E, getter))]
    for q in sorted(bad):
        rep.bad(f'reader:{q}', f'{q} reads standard input, which only the variable q should', f'line {direct.get(q, "?")}')
    # other calls of the getter
    gn = getter.rsplit('.', 1)[1]
    for fi in E.fns.values():
        if fi.qual in handlers:
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == gn:
                    rep.bad(f'reader:{fi.qual}', f'{fi.qual} reads a line of standard input', f'line {x.lineno}')
    rep.count('functions searched for reads of standard input', len(E.fns))


def called_by(E, q):
    fi = E.find(q)
    return {x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id for x in ast.walk(fi.node)
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name))}


def fi_locals(fi):
    return {a.arg for a in fi.node.args.args}


@prop('C16')
def reading(rep):
    rep.explanation = ('Programs that mention q and r in operands, targets, conditions, loop bodies and functions are evaluated '
                       'abstractly with stand-ins for input() and random(): the number of lines read, their order and the values '
                       'must be those of the evaluations of the name. Every operator row is run with q and r as each operand, and '
                       'every function is searched for other reads of standard input.')
    T = [('lines are', 'input', c, w, n) for c, w, n in CASES] + [('random numbers are', 'draw', c, w, n) for c, w, n in DRAWS]
    T += [('lines are', 'input', '[q;q;q;q]', ['x\r', '\x0b', '\ufeff\x00', '\\n\x1f'], 4, ['x\r', '\x0b', '\ufeff\x00', '\\n\x1f']),
          ('lines are', 'input', '[q;q;q;q]', ['  a b\t', '', ' 7 ', None], 4, ['  a b\t', '', ' 7 ']),
          ('lines are', 'input', 'x:q q x', '', 2, ['', 'b']), ('lines are', 'input', '[#q;#q]', [0, 2], 2, ['', '  ']),
          ('lines are', 'input', '[q@0;q]', [None, 'b'], 2, ['', 'b']), ('lines are', 'input', '[q;r;q]', ['"x"', '0.5', '{y}'], 2, ['"x"', '{y}'])]
    probe = case_task(('', 'input', 'q', 'abc', 1))
    if any('0  read' in str(b) for b in probe.get('bad', ())):
        rep.skip('how q reads its line is not understood')
        return
    collect(rep, case_task, T, 'programs')
    T = [(i, j, nm) for i in H.row_list() for j in (None, 0, 1, 2) for nm in 'qr']
    collect(rep, row_task, T, 'operators with q and r as operands')
    collect(rep, seed_task, [5, '"text', ['p', 'q'], None, (1, 4)], 'seeds')
    collect(rep, seeding_task, SEEDS, 'programs that assign to r or q')
    collect(rep, distinct_task, [VALUES], 'seed values')
    readers(rep, H.ctx().E)
