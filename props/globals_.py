"""Global variables and program execution: initial values and their restoration (C28), running a whole program (C33)."""
import math
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import World, record, events
from . import prop
from .eval_ import nores, collect
from .vars_ import V, diff, ABSENT
from .commands_ import Cmd
from .scope_ import aliased
from .print_ import watch_print, stdout_of, shown, same_text, join, show

LOW = 'abcdefghijklmnopqrstuvwxyz'
CONS = 'bcdfghjklmnpqrstvwxyz'
# the pre-initialised variables and their values: ('s', text) scalar, ('p', regex, flags) pattern, [] list, None nil,
# ('f', name) a function that returns the value of a name
INITIAL = {
    '_': ('f', 'a'), 'h': ('s', '100'), 'i': ('s', '0'), 'k': ('s', ', '), 'l': [], 'm': ('s', '1000'), 'n': ('s', '\n'),
    'o': ('s', '1'), 'p': ('s', '()'), 's': ('s', ' '), 't': ('s', '10'), 'u': None, 'v': ('s', '-1'), 'w': ('p', r'\s+', 0),
    'x': ('s', ''), 'y': ('s', ''), 'z': ('s', LOW), 'B': ('f', 'b'), 'G': ('f', 'g'), 'AZ': ('s', LOW.upper()), 'CZ': ('s', CONS),
    'PA': ('s', ''.join(map(chr, range(32, 127)))), 'PI': ('s', str(math.pi)), 'VW': ('s', 'aeiou'), 'VY': ('s', 'aeiouy'),
    'XA': ('p', '[a-z]', 2), 'XC': ('p', f'[{CONS}]', 0), 'XD': ('p', r'\d', 0), 'XI': ('p', r'-?\d+', 0), 'XL': ('p', '[a-z]', 0),
    'XN': ('p', r'-?\d+(?:\.\d+)?', 0), 'XU': ('p', '[A-Z]', 0), 'XV': ('p', '[aeiou]', 0), 'XW': ('p', r'\w', 0),
    'XX': ('p', '.', 0), 'XY': ('p', '[aeiouy]', 0)}
USER = ['A', 'C', 'D', 'E', 'AA', 'ZZ', '$0', '$$', "$'", 'NEW', 'j', 'FOO']


def is_initial(W, st, v, want):
    """True / False / None (not known): the value is the initial one."""
    E = W.E
    if v is None:
        return False
    ty = E.types(st, v)
    if ty is None or len(ty) != 1:
        return None
    cls = next(iter(ty))
    if want is None:
        return cls == NIL
    if want == []:
        it = W.items(st, v)
        return cls == LIST and (None if it is None else it == [])
    if want[0] == 's':
        x = W.field(st, v, '_value', SCALAR) if cls == SCALAR else None
        return cls == SCALAR and (x[2] == want[1] if x is not None and x[0] == 'K' else None)
    if want[0] == 'p':
        if cls != PATTERN:
            return False
        raw, fl = W.field(st, v, '_raw', PATTERN), W.field(st, v, '_flags', PATTERN)
        if raw is None or raw[0] != 'K':
            return None
        if raw[2] != want[1]:
            return False
        if fl is not None and fl[0] == 'K':
            return fl[2] == want[2]
        return None if want[2] else True
    if want[0] == 'f':
        if cls != BLOCK:
            return False
        ss, r = W.get(st, v, '_statements'), W.get(st, v, '_returnExpr')
        it = W.items(st, ss) if ss is not None else None
        t = W.text(st, r) if r is not None else None
        return None if it is None or t is None else it == [] and t == want[1]


def check_initial(W, s, what, key, out):
    g = W.dict(s, W.get(s, W.me, 'vars'))
    if g is None:
        return f'{what}: the variable table is not known'
    unknown = None
    for k, want in INITIAL.items():
        ok = is_initial(W, s, g.get(k), want)
        if ok is False:
            out.append((f'{key}:{k}', f'{what}: variable {k} is {W.show(s, g[k]) if k in g else "undefined"} instead of its initial value {want!r}'))
        elif ok is None:
            unknown = f'{what}: the value of {k} is not known'
    for k in USER:
        if k in g:
            out.append((f'{key}:user', f'{what}: {k} is still defined'))
    vals = [(k, v) for k, v in g.items()]
    for i, (k, v) in enumerate(vals):
        for k2, v2 in vals[:i]:
            if aliased(W, s, v, v2):
                out.append((f'{key}:shared', f'{what}: variables {k2} and {k} share one object'))
    return unknown


def globals_task(t):
    how, nargs, main = t
    c = V()
    W, st = c.W, c.st
    E = W.E
    out = []
    if how == 'new':
        u = check_initial(W, st, 'a new interpreter state', 'initial', out)
        return dict(bad=out, n=1, undecided=u)
    args = [c.build(x) for x in (['p', ['q']], 'r', (1, 4), None, 's', 't')[:nargs]]
    W.setfield(st, W.me, 'args', W.plist(st, args))
    block = W.inst(st, BLOCK, W.plist(st, []), W.name(st, 'a')) if main else NONE
    W.setfield(st, W.me, 'mainFunction', block)
    wipe = next((o for s_, h, o in W.c.commands if h == 'WIPEGLOBALS'), None)
    tree = c.tree(wipe)
    loc = {}
    for nm in ('a', 'c', 'f', '$_', '$__'):
        c.set(nm, ['loc_' + nm] if nm == 'c' else 'loc_' + nm)

    def spoil(s):
        """Modify every global in place, reassign some, define others."""
        g = W.dict(s, W.get(s, W.me, 'vars'))
        for k, v in list(g.items()):
            it = W.items(s, v)
            ty = E.types(s, v)
            if v[0] == 'R' and it and ty == frozenset([LIST]):
                b = W.get(s, v, '_value')
                s.heap[b[1]] = E.obj(s, b).rep(elems=(W.inst(s, SCALAR, K('more')),) + tuple(it)[1:], static=False)
            elif v[0] == 'R' and ty == frozenset([SCALAR]) and W.get(s, v, '_value') != K(''):
                s.heap[v[1]] = E.obj(s, v).rep(fields={**E.obj(s, v).fields, '_value': K('changed in place')}, static=False)
        for k in list(g)[::2]:
            g[k] = W.inst(s, SCALAR, K('changed'))
        for k in list(g)[1::6]:
            del g[k]
        for k in USER:
            g[k] = W.inst(s, SCALAR, K('user'))
        W.setdict(s, W.get(s, W.me, 'vars'), g)
    n = 0
    states = [st]
    for rnd in (1, 2):
        nxt = []
        for s in states:
            spoil(s)
            before = {k: v for k, v in c.tables(s).items() if k[0] == 'local'}
            depth = (W.get(s, W.me, 'callDepth'), W.get(s, W.me, 'localScope'), W.items(s, W.get(s, W.me, 'scopes')))
            base = s.copy()
            res, raises = W.call('executeStatement', tree, st=s)
            what = f'WG with {nargs} arguments' + (', the second time' if rnd == 2 else '')
            x = nores(W, res, raises, what, 'wipe')
            if x:
                return x
            for s2, v in res:
                n += 1
                u = check_initial(W, s2, what, 'wiped', out)
                if u:
                    return dict(undecided=u, n=n, bad=out)
                g = W.dict(s2, W.get(s2, W.me, 'vars'))
                for i, nm in enumerate('abcde'):
                    a = g.get('\\' + nm)
                    if i >= nargs:
                        if a is not None:
                            out.append(('args:extra', f'{what}: \\{nm} is defined'))
                    elif not W.same(s2, a, args[i]):
                        out.append(('args:value', f'{what}: \\{nm} is {W.show(s2, a)} instead of argument {i + 1}'))
                    elif aliased(W, s2, a, args[i]):
                        out.append(('args:shared', f'{what}: \\{nm} shares an object with the argument, so it is not restored the next time'))
                gl = W.items(s2, g.get('\\g'))
                if gl is None or len(gl) != nargs or not all(W.same(s2, x, y) for x, y in zip(gl, args)):
                    out.append(('args:list', f'{what}: \\g is {W.show(s2, g.get(chr(92) + "g"))} instead of the list of arguments'))
                elif any(aliased(W, s2, g['\\g'], y) for y in args):
                    out.append(('args:shared', f'{what}: \\g shares an object with the arguments, so it is not restored the next time'))
                f = g.get('\\f')
                if main and f != block or not main and (f is None or E.types(s2, f) != frozenset([NIL])):
                    out.append(('args:function', f'{what}: \\f is not the main program'))
                now = {k: v for k, v in c.tables(s2).items() if k[0] == 'local'}
                if set(now) != set(before) or not all(W.same(s2, now[k], before[k]) for k in now):
                    out.append(('locals', f'{what} changes local variables'))
                if depth != (W.get(s2, W.me, 'callDepth'), W.get(s2, W.me, 'localScope'), W.items(s2, W.get(s2, W.me, 'scopes'))):
                    out.append(('scopes', f'{what} changes the call stack'))
                nxt.append(s2)
        states = nxt
    return dict(bad=out, n=n)


@prop('C28')
def initial_globals(rep):
    rep.explanation = ('The interpreter state is constructed abstractly and every global compared with its documented initial '
                       'value; then all globals are modified in place, reassigned, removed and new ones defined, WG is executed '
                       '(twice), and the table compared again: initial values, copies of the program arguments in \\a..\\e and \\g, '
                       'the main program in \\f, no other variable, locals and call stack untouched, no object shared.')
    collect(rep, globals_task, [('new', 0, False)] + [('wg', n, m) for n in range(7) for m in (True, False)], 'variable tables')


# ------------------------------------------------------------------------------------------------- C33
PROGS = [('e',), ('c',), ('e', 'e'), ('c', 'e'), ('e', 'c'), ('c', 'c'), ('e', 'e', 'e'), ('e', 'c', 'e'), ('c', 'e', 'c'), ('e', 'e', 'c'), ('e',) * 5]


def is_return(W, st, ret, want):
    return ret == want if want is not None else ret == NONE or ret is None or W.E.types(st, ret) == frozenset([NIL])


def program_task(t):
    kinds, nargs, result = t
    c = Cmd()
    W, st = c.W, c.st
    E = W.E
    watch_print(W)
    last_expr = kinds[-1] == 'e'
    sts, names = [], []
    for i, k in enumerate(kinds):
        nm = f's{i + 1}'
        names.append(nm)
        if k == 'e':
            sts.append(c.stmt(nm))
        else:
            x = c.tree(next(o for s_, h, o in W.c.commands if h == 'IF'), c.name('cond_' + nm), c.tree(), c.tree())
            c.marks[x] = nm
            c.values[nm] = NONE
            sts.append(x)
    value = None
    if last_expr:
        value = {'scalar': lambda: W.sym(st, 'value', SCALAR), 'nil': lambda: c.build(None), 'list': lambda: c.build(['p', ['q']]),
                 'range': lambda: c.build((2, 5)), 'pattern': lambda: W.sym(st, 'value', PATTERN)}[result]()
        c.values[names[-1]] = value
    tree = W.plist(st, sts)
    args = None
    if nargs is not None:
        args = [c.build(x) for x in (['p', ['q']], 'r', 's', None, 't', 'v')[:nargs]]
    # leftovers of the evaluation of arguments: globals set before the program starts
    c.set('x', 'left_x')
    c.set('NEW', 'left_new')
    c.watch = ['x', 'NEW', 'a', 'b', 'e', 'f', 'g', '\\a', '\\e', '\\f', '\\g', '$_', '$__']
    res, raises = W.call('executeProgram', tree, *([] if args is None else [W.plist(st, args)]), st=st)
    what = f'a program of {"/".join({"e": "expression", "c": "command"}[k] for k in kinds)} with {"no" if args is None else nargs} arguments'
    x = nores(W, res, raises, what, 'program')
    if x:
        return x
    n = len(res)
    args = args or []
    out = []
    for s, v in res:
        got = [e for e in events(s) if e[0] == 'run']
        if [e[1] for e in got] != names:
            out.append(('steps', f'{what}: executes {" ".join(e[1] for e in got) or "nothing"} instead of {" ".join(names)}'))
            continue
        text = stdout_of(W, s)
        want = [] if not last_expr or result == 'nil' else join(*(shown(W, s, value) or [None]), '\n')
        if text is None or None in want:
            return dict(undecided=f'{what}: the text printed is not known', n=n)
        if not same_text(W, s, text, want):
            out.append(('output', f'{what} whose value is a {result} prints {show(text)} instead of {show(want)}'))
        order = [e[0] for e in events(s) if e[0] in ('run', 'print', 'write')]
        if 'run' in order and any(o != 'run' for o in order[:len(names)]):
            out.append(('output', f'{what}: prints before all statements have run'))
        vals = dict(got[0][2])
        s0 = got[0][3].st
        if is_initial(W, s0, vals['x'], INITIAL['x']) is False or vals['NEW'] is not None:
            out.append(('globals', f'{what}: globals set before the program are not reset when it starts'))
        for i, nm in ((0, 'a'), (1, 'b'), (4, 'e'), (0, '\\a'), (4, '\\e')):
            if i < len(args):
                if not W.same(s0, vals[nm], args[i]):
                    out.append(('args', f'{what}: {nm} is {W.show(s0, vals[nm])} instead of argument {i + 1}'))
            elif vals[nm] is not None:
                out.append(('args', f'{what}: {nm} is defined without an argument'))
        for nm in ('g', '\\g'):
            it = W.items(s0, vals[nm])
            if it is None or len(it) != len(args) or not all(W.same(s0, p, q) for p, q in zip(it, args)):
                out.append(('args', f'{what}: {nm} is {W.show(s0, vals[nm])} instead of the list of arguments'))
        if aliased(W, s0, vals['a'], vals['\\a']) or aliased(W, s0, vals['g'], vals['\\g']):
            out.append(('args', f'{what}: local and global argument variables share an object'))
        for nm in ('f', '\\f'):
            f = vals[nm]
            if f is None or E.types(s0, f) != frozenset([BLOCK]):
                out.append(('main', f'{what}: {nm} is {W.show(s0, f)} instead of the main program'))
                continue
            body, ret = W.items(s0, W.get(s0, f, '_statements')), W.get(s0, f, '_returnExpr')
            if body != (sts[:-1] if last_expr else sts) or not is_return(W, s0, ret, sts[-1] if last_expr else None):
                out.append(('main', f'{what}: {nm} is a function with other statements'))
        if vals['$_'] is not None or vals['$__'] is not None:
            out.append(('history', f'{what}: the history is not empty when it starts'))
    return dict(bad=out, n=n)


def empty_program(t):
    c = Cmd()
    W, st = c.W, c.st
    watch_print(W)
    c.set('x', 'left_x')
    before = c.tables(st)
    res, raises = W.call('executeProgram', W.plist(st, []), W.plist(st, [c.build('p')] if t else []), st=st)
    x = nores(W, res, raises, 'an empty program', 'empty')
    if x:
        return x
    out = []
    for s, v in res:
        if stdout_of(W, s) != []:
            out.append(('empty:output', 'an empty program prints something'))
    return dict(bad=out, n=len(res))


def block_task(t):
    """{...} with these statements: the function it makes."""
    kinds = t
    c = Cmd()
    W, st = c.W, c.st
    sts = []
    for i, k in enumerate(kinds):
        if k == 'e':
            sts.append(c.tree(c.ASSIGN, c.name('x'), c.name('y')) if i % 2 else c.name(f'e{i}'))
        else:
            sts.append(c.tree(next(o for s_, h, o in W.c.commands if h == 'IF'), c.name('n'), c.tree(), c.tree()))
    b = next((r.op for r in W.c.pseudo if r.handler == 'BLOCK'), None)
    if b is None:
        return dict(undecided='no block operator', n=0)
    W.E.intrinsics.clear()
    res, raises = W.call('evaluate', c.tree(b, W.plist(st, sts)), st=st)
    what = f'a function literal of {"/".join({"e": "expression", "c": "command"}[k] for k in kinds) or "nothing"}'
    x = nores(W, res, raises, what, 'block')
    if x:
        return x
    out = []
    last = bool(kinds) and kinds[-1] == 'e'
    for s, v in res:
        if W.E.types(s, v) != frozenset([BLOCK]):
            out.append(('block', f'{what} is not a function'))
            continue
        body, ret = W.items(s, W.get(s, v, '_statements')), W.get(s, v, '_returnExpr')
        if body != (sts[:-1] if last else sts) or not is_return(W, s, ret, sts[-1] if last else None):
            out.append(('block', f'{what} has statements {W.show(s, W.get(s, v, "_statements"))} and return expression {W.show(s, ret)}'))
        if events(s):
            out.append(('block', f'{what} runs something when it is made'))
    return dict(bad=out, n=len(res))


def dispatch(t):
    return globals()[t[0]](t[1])


@prop('C33')
def programs(rep):
    rep.explanation = ('executeProgram is run abstractly on programs of 0-5 opaque expression and command statements with 0-6 opaque '
                       'arguments: on every path the statements run once in order with a..g and \\a..\\g bound to copies of the '
                       'arguments, f to the whole program and globals reset, and exactly the display text of the value of a final '
                       'expression is printed, once, afterwards. Function literals split their last expression off as return value.')
    tasks = [('program_task', (k, n, r)) for k in PROGS for n in (None, 0, 1, 2, 5, 6) for r in ('scalar', 'nil', 'list', 'range', 'pattern')
             if r == 'scalar' or (n == 1 and k[-1] == 'e')]
    tasks += [('empty_program', x) for x in (0, 1)]
    tasks += [('block_task', k) for k in PROGS + [()]]
    collect(rep, dispatch, tasks, 'programs')
