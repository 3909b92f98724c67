"""Printing operators, program execution and its output (C14, C33)."""
import harness as H
from harness import P
from values import *
from engine_consts import *
from texts import parts
from world import World, record, events
from . import prop

TYPES = (SCALAR, PATTERN, LIST, RANGE, BLOCK, NIL)


def watch_print(W):
    def pr(E_, node, st, d):
        record('print')(st, tuple(d['args']), tuple(sorted(d['kw'].items())))

    def ext(E_, node, st, d):
        if d['name'].startswith(('sys.stdout.write', 'sys.stdout.writelines')) or d['name'] == 'os.write':
            record('write')(st, tuple(d['args']))
    W.E.hooks.setdefault('print', []).append(pr)
    W.E.hooks.setdefault('ext', []).append(ext)


def shown(W, st, v):
    """The pieces of text of a value that is printed."""
    import models
    saved = W.E.fstack
    W.E.fstack = saved or [next(iter(W.E.fns.values()))]
    o = models.strof(W.E, v, st, W.E.fstack[-1].node)
    W.E.fstack = saved
    return parts(o[0][1]) if len(o) == 1 else None


def stdout_of(W, st):
    """Pieces of text a path writes to standard output, or None when not known."""
    out = []
    for e in events(st):
        if e[0] == 'write':
            args, end, sep = e[1], '', ''
        elif e[0] == 'print':
            kw = dict(e[2])
            if 'file' in kw and 'stderr' in str(kw['file']):
                continue
            if 'file' in kw and 'stdout' not in str(kw['file']) and kw['file'] != NONE:
                return None
            end, sep = kw.get('end', K('\n')), kw.get('sep', K(' '))
            if end == NONE:
                end = K('\n')
            if sep == NONE:
                sep = K(' ')
            if end[0] != 'K' or sep[0] != 'K':
                return None
            args, end, sep = e[1], end[2], sep[2]
        else:
            continue
        for i, a in enumerate(args):
            if a[0] == 'Star':
                return None
            if i:
                out.append(sep)
            t = shown(W, st, a)
            if t is None:
                return None
            out += t
        out.append(end)
    res = []
    for x in out:
        if isinstance(x, str):
            if not x:
                continue
            if res and isinstance(res[-1], str):
                res[-1] += x
                continue
        res.append(x)
    return res


def join(*xs):
    res = []
    for x in xs:
        if isinstance(x, str):
            if not x:
                continue
            if res and isinstance(res[-1], str):
                res[-1] += x
                continue
        res.append(x)
    return res


def print_task(task):
    sym, t, as_var = task
    W = World()
    st = W.state()
    v = W.sym(st, 'v', t)
    arg = v
    if as_var:
        if t == LIST:
            v = W.List(st, [W.sym(st, 'v1', SCALAR), W.List(st, [W.sym(st, 'v2', SCALAR)])])
        elif t == RANGE:
            v = W.inst(st, RANGE, K(2), K(5))
        elif t == NIL:
            v = W.inst(st, NIL)
        W.setvar(st, 'x', v)
        arg = W.name(st, 'x')
    watch_print(W)
    op = W.op(1, sym)
    if op is None:
        return dict(undecided=f'no operator {sym}', n=0)
    want = [] if t == NIL else join(*(shown(W, st, v) or [None]), '\n' if sym == 'P' else '')
    res, raises = W.call('evaluate', W.plist(st, [op, arg]), st=st)
    out = []
    what = f'{sym} of a {t.split(".")[-1]}' + (' variable' if as_var else '')
    for s, x in raises:
        if not x[4]:
            out.append((f'fails:{sym}', f'{what} fails with {x[1]}'))
    for s, r in res:
        got = stdout_of(W, s)
        if got is None or None in want:
            return dict(undecided=f'{what}: the text printed is not known', n=len(res))
        if not same_text(W, s, got, want):
            out.append((f'printed:{sym}:{t}', f'{what} writes {show(got)} instead of {show(want)}'))
        rr, _ = W.run(P + 'getRval', [W.me, r], s.copy())
        for s2, y in rr:
            if not W.same(s2, y, v):
                out.append((f'value:{sym}', f'{what}: the value of the expression is not the operand'))
    return dict(bad=out, n=len(res))


def same_text(W, st, a, b):
    def norm(x):
        if not isinstance(x, str) and x[0] == 'S' and x[1][0] == 'd' and x[1][1] == 'str' and len(x[1]) == 3:
            return ('text of', x[1][2])
        return x
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = norm(x), norm(y)
        if x == y:
            continue
        if isinstance(x, str) or isinstance(y, str):
            return False
        if x[0] == 'text of' and y[0] == 'text of' and W.same(st, x[1], y[1]):
            continue
        return False
    return True


def show(ps):
    return repr(' '.join(x if isinstance(x, str) else '<' + name(x) + '>' for x in ps)) if ps else 'nothing'


def name(x):
    if x[0] == 'S':
        k = x[1]
        if k[0] == 'p':
            return str(k[1])
        if k[0] == 'd':
            return f'{k[1]} ' + ' '.join(name(y) for y in k[2:] if isinstance(y, tuple) and y and y[0] in 'SRK')
        return str(k[-1])
    return str(x[2]) if x[0] == 'K' else x[0]


def printing(rep):
    for t, r, err, dt in H.pmap(print_task, [(s, t, v) for s in ('P', 'O') for t in TYPES for v in (False, True)
                                             if not (v and t in (PATTERN, BLOCK))]):
        if err:
            rep.skip(f'{t}: {err.splitlines()[-1]}')
            continue
        rep.count('printing operators x operand types')
        if r.get('undecided'):
            rep.skip(r['undecided'])
        for b in r.get('bad', ()):
            rep.bad(*b)
