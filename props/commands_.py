"""Commands (C32): which branch runs, how often and with which loop variable values the body runs."""
import re
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import World, record, events
from . import prop
from .eval_ import nores, collect
from .vars_ import V


class Snap:
    """The heap at the time of an event."""

    def __init__(self, st):
        self.st = st.copy()


class Cmd(V):
    """A world in which conditions and statements are opaque names whose execution is recorded."""

    def __init__(self):
        super().__init__()
        self.marks, self.seqs = {}, {}
        E = self.W.E
        self.watch = []
        self.hook = None

        def mark_of(x):
            return self.marks.get(x)

        def next_value(st, m):
            n = sum(1 for e in events(st) if e[0] == 'cond' and e[1] == m)
            seq = self.seqs[m]
            v = seq[min(n, len(seq) - 1)]
            record('cond')(st, m)
            return v

        def step(E_, args, st):
            x = args[1] if len(args) > 1 else None
            m = mark_of(x)
            if m is None:
                return None
            if m in self.seqs:
                return [(st, next_value(st, m))]
            record('run')(st, m, tuple((w, self.W.var(st, w)) for w in self.watch), Snap(st) if self.watch else None)
            if self.hook:
                self.hook(st, m)
            return [(st, self.values[m])]

        def evaluate(E_, fi, args, kw, st, node):
            return step(E_, args, st)

        for f in ('executeStatement', 'evaluate', 'getRval'):
            E.intrinsics[P + f] = evaluate
        self.values = {}

    def cond(self, nm, *shapes):
        """A condition whose successive evaluations give these values (the last one from then on)."""
        x = self.name(nm)
        self.marks[x] = nm
        self.seqs[nm] = [self.build(s) for s in shapes]
        return x

    def stmt(self, nm):
        x = self.name(nm)
        self.marks[x] = nm
        self.values[nm] = self.W.sym(self.st, 'value_' + nm, SCALAR)
        return x

    def body(self, *names):
        return self.tree(*[self.stmt(n) for n in names])

    def command(self, handler):
        for s, h, o in self.W.c.commands:
            if h == handler:
                return s, o
        return None, None

    def go(self, handler, args, what, want, late=None):
        """Execute the command on these arguments; want: function(state) -> expected list of events."""
        sym, o = self.command(handler)
        if o is None:
            return dict(undecided=f'no command {handler}', n=0)
        W = self.W
        res, raises = W.call('executeStatement', self.tree(o, *args), st=self.st)
        x = nores(W, res, raises, what, f'{handler}:fails')
        if x:
            return x
        out, clean = [], 0
        for s, v in res:
            n0 = len(out)
            got = [e for e in events(s) if e[0] in ('cond', 'run')]
            if late:
                late(s, got, out)
            exp = want(s) if callable(want) else want
            g = [e[1] for e in got]
            if exp is not None and g != exp:
                out.append((f'{handler}:steps', f'{what}: the steps are {" ".join(g) or "none"} instead of {" ".join(exp) or "none"}'))
            if v != NONE and not (v[0] == 'R' and W.E.types(s, v) == frozenset(['NoneType'])):
                out.append((f'{handler}:value', f'{what}: a command has a value, which would enter the history'))
            clean += len(out) == n0
        if out and clean:
            # everything that decides the steps is known here, so several outcomes are the analysis's own doing
            return dict(undecided=f'{what}: several outcomes', n=len(res))
        return dict(bad=out, n=len(res))


TRUE = [1, '"a', [0], (0, 2), '{}', '"0.5', -1]
FALSE = [0, '"', [], None, '"00', '"0.0', (3, 3)]


def if_task(t):
    shape, truth = t
    c = Cmd()
    return c.go('IF', [c.cond('condition', shape), c.body('then1', 'then2'), c.body('else1', 'else2')],
                f'I with {"true" if truth else "false"} condition {shape!r}',
                ['condition'] + (['then1', 'then2'] if truth else ['else1', 'else2']))


def empty_if(t):
    shape, truth = t
    c = Cmd()
    return c.go('IF', [c.cond('condition', shape), c.body() if truth else c.body('then1'), c.body('else1') if truth else c.body()],
                f'I with condition {shape!r} and an empty branch', ['condition'])


def loop_cond(t):
    handler, n, true, false = t
    c = Cmd()
    go_on, stop = (true, false) if handler == 'WHILE' else (false, true)
    seq = [go_on] * n + [stop]
    want = []
    for i in range(n):
        want += ['condition', 's1', 's2']
    return c.go(handler, [c.cond('condition', *seq), c.body('s1', 's2')], f'{handler} whose condition holds {n} times ({go_on!r})',
                want + ['condition'])


COUNTS = [(0, 0), (1, 1), (3, 3), (-2, 0), ('"2.7', 2), ('"', 0), ('"abc', 0), (None, 0), ([], 0), ([5], 1), ([7, 0, None], 3), ((2, 5), 3),
          ((4, 4), 0)]


def loop_count(t):
    shape, n = t
    c = Cmd()
    return c.go('LOOP', [c.cond('count', shape), c.body('s1', 's2')], f'L with count {shape!r}', ['count'] + ['s1', 's2'] * n)


ITERS = [([], []), (['p'], ['p']), (['p', ['q', 'r'], None], ['p', ['q', 'r'], None]), ((2, 5), [2, 3, 4]), ((3, 3), []),
         ('"abc', ['"a', '"b', '"c']), ('"', []), (120, [1, 2, 0]),
         ([['p', 'q'], ['r'], [], ['s', 't', 'u']], [['p', 'q'], ['r'], [], ['s', 't', 'u']])]


def for_task(t):
    k, target = t
    shape, items = ITERS[k]
    c = Cmd()
    W = c.W
    c.watch = ['x', 'y', 'l']
    c.set('x', 'old_x')
    c.set('y', 'old_y')
    c.set('l', ['l0', 'l1'])
    if target == 'name':
        var, exp = c.name('x'), lambda it: {'x': it}
    elif target == 'list':
        var = c.tree(c.LISTOP, c.name('x'), c.name('y'))
        exp = lambda it: ({'x': it[0] if it else None, 'y': it[1] if len(it) > 1 else None} if isinstance(it, list) else None)
    else:
        var, exp = c.at('l', 1), lambda it: {'l': ['l0', it]}
    src = c.cond('items', shape)
    if target == 'self':
        # the loop variable is the list being looped over
        c.set('l', shape if not isinstance(shape, tuple) else list(items))
        var, exp, src = c.name('l'), lambda it: {'l': it}, c.name('l')
    what = f'F over {shape!r} with {target} loop variable'

    def late(s, got, out):
        runs = [e for e in got if e[0] == 'run' and e[1] == 's1']
        for e, it in zip(runs, items):
            for v, want in (exp(it) or {}).items():
                now = dict(e[2])[v]
                if not c.match(e[3].st, now, want):
                    out.append(('FOR:variable', f'{what}: variable {v} is {W.show(e[3].st, now)} instead of {want!r} while the body runs'))
        final = exp(items[-1]) if items else {}
        for v, want in (final or {}).items():
            if not c.match(s, W.var(s, v), want):
                out.append(('FOR:after', f'{what}: variable {v} is {W.show(s, W.var(s, v))} instead of {want!r} after the loop'))
    return c.go('FOR', [var, src, c.body('s1', 's2')], what,
                ([] if target == 'self' else ['items']) + ['s1', 's2'] * len(items), late)


def for_mutating(t):
    """The body changes the list being looped over, and the loop variable."""
    c = Cmd()
    W = c.W
    c.watch = ['x']
    c.set('l', ['p', 'q'])

    def hook(st, m):
        if m != 's1':
            return
        old = W.var(st, 'l')
        o = W.E.obj(st, old)
        v = o.fields.get('_value')
        b = W.E.obj(st, v)
        if t == 'append':
            st.heap[v[1]] = b.rep(elems=b.elems + (W.inst(st, SCALAR, K('new')),))
        else:
            st.heap[v[1]] = b.rep(elems=())
        W.setvar(st, 'x', W.inst(st, SCALAR, K('other')))
    c.hook = hook

    def late(s, got, out):
        for e, want in zip([e for e in got if e[0] == 'run' and e[1] == 's1'], ('p', 'q')):
            if not c.match(e[3].st, dict(e[2])['x'], want):
                out.append(('FOR:variable', f'F over a list that the body changes ({t}): the loop variable is {W.show(s, dict(e[2])["x"])} instead of {want}'))
    return c.go('FOR', [c.name('x'), c.name('l'), c.body('s1', 's2')], f'F over a list that the body changes ({t})',
                ['s1', 's2', 's1', 's2'], late)


def nested(t):
    """Conditions inside conditions: statements that are commands run as commands."""
    outer, inner = t
    c = Cmd()
    W = c.W
    sym, o = c.command('IF')
    inner_cmd = c.tree(o, c.cond('inner', 1 if inner else 0), c.body('a'), c.body('b'))
    body = W.plist(c.st, [c.stmt('first'), inner_cmd, c.stmt('last')])
    steps = ['first', 'inner', 'a' if inner else 'b', 'last']
    if outer == 'IF':
        return c.go('IF', [c.cond('condition', 1), body, c.body()], 'a command inside a branch', ['condition'] + steps)
    if outer == 'ELSE':
        return c.go('IF', [c.cond('condition', 0), c.body(), body], 'a command inside an else branch', ['condition'] + steps)
    if outer == 'FOR':
        return c.go('FOR', [c.name('x'), c.cond('items', ['p', 'q']), body], 'a command inside a loop', ['items'] + steps * 2)
    if outer == 'LOOP':
        return c.go('LOOP', [c.cond('count', 2), body], 'a command inside a loop', ['count'] + steps * 2)
    if outer == 'LOOPREGEX':
        rx = W.inst(c.st, PATTERN, K('a.'))
        return c.go('LOOPREGEX', [rx, c.build('"abac'), body], 'a command inside a loop', steps * 2)
    one = [0, 1] if outer == 'TILL' else [1, 0]
    return c.go(outer, [c.cond('condition', *one), body], 'a command inside a loop', ['condition'] + steps + ['condition'])


MATCHES = [('a.', 'abacxa', 'ab ac'), ('x', 'abc', ''), ('[a-c]', 'abxc', 'a b c'), ('b*', '', ' '), ('aa', 'aaaaa', 'aa aa'), ('.', 'xyz', 'x y z')]


def regex_task(t):
    k, order = t
    rx, text, found = MATCHES[k]
    c = Cmd()
    W = c.W
    c.watch = ['$0', '$1', '$(', '$)', '$`', "$'"]
    pat = W.inst(c.st, PATTERN, K(rx))
    txt = W.inst(c.st, SCALAR, K(text))
    a = [c.cond('regex', 0), c.cond('string', 0)]
    c.seqs['regex'], c.seqs['string'] = [pat], [txt]
    if order == 'swapped':
        c.seqs['regex'], c.seqs['string'] = [txt], [pat]
    elif order == 'text':
        c.seqs['regex'] = [W.inst(c.st, SCALAR, K(rx))]
        if any(ch in rx for ch in '.*[+'):
            return dict(n=0)
    hits = [m for m in (found.split(' ') if found else [])]
    if rx == 'b*':
        hits = ['']
    what = f'LR {rx!r} over {text!r}' + (f' ({order})' if order else '')

    def late(s, got, out):
        for e, m in zip([e for e in got if e[0] == 'run' and e[1] == 's1'], re.compile(rx).finditer(text)):
            for nm, want in (('$0', m.group()), ('$1', None), ('$(', m.start()), ('$)', m.end()), ('$`', text[:m.start()]), ("$'", text[m.end():])):
                now = dict(e[2])[nm]
                if want is None and now is not None and W.E.types(e[3].st, now) == frozenset([NIL]):
                    continue
                x = W.get(e[3].st, now, '_value') if now is not None and now[0] == 'R' else None
                if x is None or x[0] != 'K' or str(x[2]) != str(want):
                    out.append(('LOOPREGEX:match', f'{what}: {nm} is {W.show(e[3].st, now)} instead of {want!r} while the body runs'))
    return c.go('LOOPREGEX', [*a, c.body('s1', 's2')], what, ['regex', 'string'] + ['s1', 's2'] * len(hits), late)


def dispatch(t):
    f, a = t
    return globals()[f](a)


@prop('C32')
def commands(rep):
    rep.explanation = ('Every command is executed abstractly on opaque statements and conditions (values enumerated by kind and '
                       'truth); on every path the recorded steps must be exactly: the condition, then the statements of the branch '
                       'it selects; for loops the statements once per item, count or match in order with the loop variable or match '
                       'variables set, or condition and statements alternating.')
    tasks = [('if_task', (s, True)) for s in TRUE] + [('if_task', (s, False)) for s in FALSE]
    tasks += [('empty_if', (1, True)), ('empty_if', (0, False))]
    tasks += [('loop_cond', (h, n, a, b)) for h in ('WHILE', 'TILL') for n in (0, 1, 3) for a, b in ((1, 0), ([0], []), ('"a', None), ((0, 2), '"0.0'))]
    tasks += [('loop_count', x) for x in COUNTS]
    tasks += [('for_task', (k, t)) for k in range(len(ITERS)) for t in ('name', 'list', 'index', 'self')
              if not (t == 'self' and isinstance(ITERS[k][0], (str, int))) and not (t == 'list' and k in (1, 2))]
    tasks += [('for_mutating', t) for t in ('append', 'clear')]
    tasks += [('nested', (o, i)) for o in ('IF', 'ELSE', 'FOR', 'LOOP', 'LOOPREGEX', 'TILL', 'WHILE') for i in (0, 1)]
    tasks += [('regex_task', (k, o)) for k in range(len(MATCHES)) for o in ('', 'swapped', 'text')]
    collect(rep, dispatch, tasks, 'command executions')
