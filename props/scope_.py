"""Checks on function calls, scopes, variables and assignment, on abstract worlds with opaque values."""
import itertools
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import World, record, events
from . import prop
from .eval_ import recorder, nores, collect, results, scalar_text

ERRORS = ['errors.FatalError', 'ValueError', 'RecursionError', 'KeyboardInterrupt', 'TypeError', 're.error', 'SystemExit']


def command(W, name):
    for s, f, o in W.c.commands:
        if f == name:
            return o
    return None


def scope_state(W, st):
    me = W.me
    sc = W.get(st, me, 'scopes')
    loc = W.get(st, me, 'localScope')
    it = W.items(st, sc)
    return (None if it is None else tuple(it), loc, W.get(st, me, 'callDepth'))


def scope_vars(W, st, loc):
    d = W.dict(st, W.get(st, loc, 'vars')) if loc is not None else None
    return d


def snapshot(W, st, d):
    return None if d is None else {k: W.show(st, v) for k, v in d.items()}


def call_world(nargs, stmts, ret, err_at=None, err=None, arg_kind='scalar', depth=0):
    """A world ready for functionCall(block, args). stmts: string of 'e' (expression) / 'c' (command)."""
    W = World()
    E = W.E
    st = W.state()
    # the caller is itself a function with local variables
    caller = W.inst(st, BLOCK, W.plist(st, []), W.name(st, 'callerexpr'))
    for j in range(depth):
        if E.find(P + 'openScope') is not None:
            res, _ = W.call('openScope', caller, W.plist(st, [W.sym(st, f'outer{j}', SCALAR)]), st=st)
            if len(res) == 1:
                st = res[0][0]
    cv = [W.sym(st, 'callerA', SCALAR), W.sym(st, 'callerHist', SCALAR)]
    W.setvar(st, 'a', cv[0])
    W.setvar(st, '$_', cv[1])
    args = []
    for j in range(nargs):
        v = W.sym(st, f'arg{j + 1}', SCALAR)
        if arg_kind == 'list':
            v = W.List(st, [v, W.List(st, [W.sym(st, f'inner{j + 1}', SCALAR)])])
        elif arg_kind == 'var':
            W.setvar(st, f'v{j}', v, local=False)
            v = W.lval(st, f'v{j}')
        elif arg_kind == 'item':
            # an item of a list variable
            W.vals = getattr(W, 'vals', []) + [v]
            W.setvar(st, f'v{j}', W.List(st, [W.sym(st, f'other{j + 1}', SCALAR), v]), local=False)
            v = W.inst(st, LVAL, W.inst(st, LVAL, W.name(st, f'v{j}')), K(1))
        args.append(v)
    markers, values, tree = [], [], []
    for j, k in enumerate(stmts):
        if k == 'e':
            m = W.name(st, f'statement{j + 1}')
            markers.append(m)
            values.append(W.sym(st, f'value{j + 1}', SCALAR))
            tree.append(m)
        else:
            tree.append(W.plist(st, [command(W, 'WIPEGLOBALS')]))
    m = None
    if ret:
        m = W.name(st, 'returnexpr')
        markers.append(m)
        rv = W.sym(st, 'returnvalue', SCALAR)
        if ret == 'lval':
            # the return expression is a local variable of the function
            values.append(W.lval(st, 'e'))
            args += [W.sym(st, f'extra{j}', SCALAR) for j in range(nargs, 4)] + [rv]
        else:
            values.append(rv)
    block = W.inst(st, BLOCK, W.plist(st, tree), m if ret else NONE)
    me = W.me
    n = [0]

    def observe(st, what):
        record(what[0])(st, *what[1:], scope_state(W, st), snapshot(W, st, scope_vars(W, st, W.get(st, me, 'localScope'))))

    def evaluate(E_, fi, a, kw, st, node):
        x = a[1] if len(a) > 1 else None
        if x in markers:
            i = markers.index(x)
            observe(st, ('run', i, W.get(st, me, 'localScope'), dict(scope_vars(W, st, W.get(st, me, 'localScope')) or {})))
            if err_at == i:
                E_.raise_(st, err, node)
                return []
            return [(st, values[i])]
        return None

    def wipe(E_, fi, a, kw, st, node):
        observe(st, ('run', 'c', W.get(st, me, 'localScope'), dict(scope_vars(W, st, W.get(st, me, 'localScope')) or {})))
        if err_at == 'c':
            E_.raise_(st, err, node)
            return []
        return [(st, NONE)]
    E.intrinsics[P + 'evaluate'] = evaluate
    def getrval(E_, fi, a, kw, st, node):
        if len(a) < 2 or a[1] not in markers:
            return None
        out = []
        for s, v in evaluate(E_, fi, a, kw, st, node):
            if E_.types(s, v) == frozenset([LVAL]):
                out += E_.call_fn(fi, [a[0], v], {}, s, node)
            else:
                out.append((s, v))
        return out
    E.intrinsics[P + 'getRval'] = getrval
    E.intrinsics[P + 'WIPEGLOBALS'] = wipe
    W.rv = rv if ret else None
    W.block, W.args, W.markers, W.values, W.caller = block, args, markers, values, cv
    return W, st


def balance_task(task):
    nargs, stmts, ret, err_at, err, depth = task
    W, st = call_world(nargs, stmts, ret, err_at, err, depth=depth)
    E = W.E
    before = scope_state(W, st)
    vars0 = snapshot(W, st, scope_vars(W, st, before[1]))
    n, out = 0, []
    what = f'a function with statements {stmts or "none"}' + (f' ending with {err.split(".")[-1]} in statement {err_at}' if err else '')
    exits = []
    res, raises = W.call('functionCall', W.block, W.plist(st, W.args), st=st)
    exits = [(s, 'returns') for s, v in res] + [(s, f'ends with {x[1].split(".")[-1]}') for s, x in raises if not x[4]]
    if not exits or E.dropped:
        return dict(undecided=f'{what}: no outcome', n=0)
    for s, how in exits:
        n += 1
        after = scope_state(W, s)
        if after[0] is None or before[0] is None:
            return dict(undecided=f'{what}: the scope stack is not known', n=n)
        if after != before:
            out.append((f'scope-left:{"error" if err else "return"}', f'after {what} (which {how}) the caller\'s scope is not current again',
                        f'scopes: {len(after[0])} instead of {len(before[0])}, call depth {W.show(s, after[2])} instead of '
                        f'{W.show(s, before[2])}, local scope {"restored" if after[1] == before[1] else "not restored"}'))
        elif snapshot(W, s, scope_vars(W, s, after[1])) != vars0:
            out.append((f'caller-vars', f'{what} changes its caller\'s local variables', str(snapshot(W, s, scope_vars(W, s, after[1])))))
        for e in events(s):
            if e[0] == 'run' and (e[2] == before[1] or e[2] is None):
                out.append(('own-scope', f'{what}: statements run in the caller\'s scope'))
            elif e[0] == 'run' and e[4][0] is not None and (not e[4][0] or e[4][0][-1] != e[2] or len(e[4][0]) != len(before[0]) + 1):
                out.append(('own-scope', f'{what}: the current scope is not on top of the scope stack while statements run'))
    return dict(bad=out, n=n)


SCOPE_FIELDS = ('localScope', 'scopes', 'callDepth')


def scope_writers(task):
    """Writes to the scope fields outside a function call."""
    kind, x = task
    found = []

    def setup(c, *rest):
        E = c.E

        def setattr_(E_, node, st, d):
            if d['attr'] in SCOPE_FIELDS and E_.types(st, d['obj']) == frozenset([H.PS]):
                found.append((d['attr'], E_.fstack[-1].qual, getattr(node, 'lineno', 0)))

        def mutate(E_, node, st, d):
            v = d['obj']
            if v[0] == 'S' and v[1][0] == 'd' and v[1][1] == 'f' and v[1][3] in ('scopes',):
                found.append(('scopes', E_.fstack[-1].qual, getattr(node, 'lineno', 0)))
        E.hooks.setdefault('setattr', []).append(setattr_)
        E.hooks.setdefault('mutate', []).append(mutate)
    r = H.analyse_row(x, setup=setup) if kind == 'row' else H.analyse_fn(x, setup=setup)
    return dict(found=found, row=r.get('row'), missing=r.get('missing'))


@prop('C07')
def balance(rep):
    rep.explanation = ('functionCall is interpreted abstractly for functions of every combination of up to three expression / '
                       'command statements and an optional return expression, where any one of them ends with any of a set of '
                       'exceptions; on every exit path the scope stack, the current scope and the call depth are those of the '
                       'caller, whose variables are unchanged. All other functions must leave those fields alone.')
    tasks = []
    m = 4 if rep.thorough else 3
    for k in range(m):
        for stmts in map(''.join, itertools.product('ec', repeat=k)):
            for ret in (False, True):
                tasks += [(2, stmts, ret, None, None, d) for d in range(3)]
                n_e = stmts.count('e') + (1 if ret else 0)
                for at in list(range(n_e)) + (['c'] if 'c' in stmts else []):
                    for err in ERRORS:
                        tasks += [(1, stmts, ret, at, err, d) for d in ((0, 1, 2) if err == ERRORS[0] or rep.thorough else (0,))]
    collect(rep, balance_task, tasks, 'call shapes')
    for t, r, err, dt in H.pmap(scope_writers, [('row', i) for i in H.row_list()] + [('fn', t) for t in H.fn_list()]):
        if err:
            rep.skip(f'{t}: {err.splitlines()[-1]}')
            continue
        rep.count('functions checked for scope changes')
        for attr, fn, line in r['found']:
            if fn.split('.')[-1] in ('__init__', 'openScope', 'closeScope', 'functionCall'):
                continue
            rep.bad(f'scope-write:{fn}:{attr}', f'{fn} changes {attr} outside a function call (line {line})', f'analysing {r["row"]}')


# ---------------------------------------------------------------- arguments and history (C27, C31)
def args_task(task):
    nargs, kind = task
    W, st = call_world(nargs, 'e', True, arg_kind=kind)
    E = W.E
    vals = []
    for a in W.args:
        if kind == 'var':
            a = W.var(st, W.get(st, a, 'base')[2], False)
        elif kind == 'item':
            a = W.vals[len(vals)]
        vals.append(a)
    shown = [W.show(st, v) for v in vals]
    what = f'a call with {nargs} {kind} arguments'
    heap0 = set(st.heap)
    res, raises = W.call('functionCall', W.block, W.plist(st, W.args), st=st)
    no = nores(W, res, raises, what, 'call')
    if no:
        return no
    out, n = [], 0
    for s, v in res:
        n += 1
        runs = [e for e in events(s) if e[0] == 'run']
        if [e[1] for e in runs] != [0, 1]:
            out.append(('sequence', f'{what}: statement and return expression are not each run once in order'))
            continue
        if v != W.values[-1] and not W.same(s, v, W.values[-1]):
            out.append(('returned', f'{what}: the result is not the value of the return expression', W.show(s, v)))
        d = runs[0][3]
        for j, name in enumerate('abcde'):
            if j < nargs:
                if not W.same(s, d.get(name), vals[j]):
                    out.append((f'arg', f'{what}: local variable {name} is not argument {j + 1} when the function starts',
                                f'{name}: {W.show(s, d.get(name))}'))
                elif aliased(W, s, d.get(name), vals[j]):
                    out.append((f'arg-alias', f'{what}: local variable {name} is the caller\'s own list, not a copy'))
            elif name in d:
                out.append(('extra-arg', f'{what}: local variable {name} is set', W.show(s, d[name])))
        g = W.items(s, d.get('g'))
        if g is None or E.types(s, d['g']) != frozenset([LIST]) or len(g) != nargs or not all(map(lambda a, b: W.same(s, a, b), g, vals)):
            out.append(('args-list', f'{what}: local variable g is not the list of all arguments', W.show(s, d.get('g'))))
        elif any(aliased(W, s, a, b) for a, b in zip(g, vals)) or any(
                aliased(W, s, a, d[nm]) for a, nm in zip(g, 'abcde') if nm in d):
            out.append(('args-alias', f'{what}: local variable g holds the caller\'s (or another variable\'s) own list, not a copy'))
        if d.get('f') != W.block and not W.same(s, d.get('f'), W.block):
            out.append(('function', f'{what}: local variable f is not the function', W.show(s, d.get('f'))))
        if set(d) - set('abcdefg'):
            out.append(('leftover', f'{what}: other local variables exist at the start', ', '.join(set(d) - set('abcdefg'))))
        if [W.show(s, x) for x in vals] != shown:
            out.append(('changed', f'{what}: an argument is changed'))
    return dict(bad=out, n=n)


def return_task(task):
    nargs, ret, lval = task
    W, st = call_world(nargs, 'c', 'lval' if lval else ret)
    what = f'a function returning {"a local variable" if lval else "an expression" if ret else "nothing"}'
    res, raises = W.call('functionCall', W.block, W.plist(st, W.args), st=st)
    no = nores(W, res, raises, what, 'return')
    if no:
        return no
    out = []
    for s, v in res:
        if ret and not W.same(s, v, W.rv):
            out.append(('returned', f'{what}: the result of the call is not that value', W.show(s, v)))
        elif not ret and W.E.types(s, v) != frozenset([NIL]):
            out.append(('returned', f'{what}: the result of the call is not nil', W.show(s, v)))
    return dict(bad=out, n=len(res))


def aliased(W, st, v, w):
    """v and w share an object that an indexed assignment can change: a list or text that is not empty."""
    def objs(x, acc, d=0):
        if x is None or d > 6:
            return acc
        if x[0] == 'R':
            o = W.E.obj(st, x)
            if o.kind == 'inst' and o.cls == SCALAR and o.fields.get('_value') != K(''):
                acc.add(x[1])
            if o.kind == 'list' and o.elems != ():
                acc.add(x[1])
            if o.kind == 'inst' and o.cls == LIST and W.items(st, x) != []:
                acc.add(x[1])
                objs(o.fields.get('_value'), acc, d + 1)
            for e in (o.elems or ()) if o.kind == 'list' else ():
                objs(e, acc, d + 1)
        elif x[0] == 'S':
            ty = W.E.types(st, x)
            if ty and ty & {SCALAR, LIST}:
                acc.add(x)
        return acc
    return bool(objs(v, set()) & objs(w, set()))


HIST = ['$_', '$__', '$___']


def history_task(stmts):
    W, st = call_world(0, stmts, True)
    E = W.E
    what = f'a function with statements {stmts}'
    res, raises = W.call('functionCall', W.block, W.plist(st, []), st=st)
    no = nores(W, res, raises, what, 'history')
    if no:
        return no
    out, n = [], 0
    for s, v in res:
        n += 1
        runs = [e for e in events(s) if e[0] == 'run']
        done, i = [], 0
        kinds = list(stmts) + ['e']
        if len(runs) != len(kinds):
            out.append(('sequence', f'{what}: {len(runs)} statements run'))
            continue
        for k, e in zip(kinds, runs):
            for h, name in enumerate(HIST):
                want = done[-1 - h] if len(done) > h else None
                got = e[3].get(name)
                if want is None and got is not None or want is not None and not W.same(s, got, want):
                    out.append((f'history:{name}', f'{what}: after {len(done)} expression statements {name} is not '
                                + (f'the value of the one {h + 1} back' if want is not None else 'undefined'),
                                f'{name}: {W.show(s, got)}'))
            if k == 'e':
                done.append(W.values[i])
                i += 1
    return dict(bad=out, n=n)


@prop('C27')
def arguments(rep):
    rep.explanation = ('functionCall is interpreted abstractly with 0 to 7 opaque, nested-list and variable arguments; when its '
                       'first statement runs, the local variables must be exactly: the first five arguments as a to e (copies), '
                       'f the function, g a list of copies of all arguments; the result is the value of the return expression.')
    collect(rep, args_task, [(k, kind) for k in range(8) for kind in ('scalar', 'list', 'var', 'item')], 'argument lists')
    collect(rep, return_task, [(k, ret, lval) for k in range(4) for ret, lval in ((True, False), (True, True), (False, False))],
            'results')


@prop('C31')
def history(rep):
    rep.explanation = ('functionCall is interpreted abstractly for all sequences of up to four (thorough: six) expression and command '
                       'statements with opaque values; before each of them $_, $__ and $___ must be the values of the last three '
                       'expression statements of this call, undefined while there are fewer.')
    m = 7 if rep.thorough else 5
    collect(rep, history_task, [''.join(x) for k in range(m) for x in itertools.product('ec', repeat=k)], 'statement sequences')
