"""Functions shown as code: unparse gives text that scans and parses back to the same tree (C29)."""
import itertools
import harness as H
from values import *
from engine_consts import *
from . import prop
from .eval_ import collect
from .front_ import (Parser, OPS, COMMANDS, Incomplete, Bad, Ref, N, O, S, C, known_ops, level_reps, text, showtree, alphabet,
                     reference, sane)
from .lexer_ import tokens as scan


def strip(t):
    """Tree without grouping parentheses."""
    if t[0] == 'op':
        if t[1] == 'PAREN' and t[4] is not None:
            return strip(t[4][0])
        if t[1] == 'BLOCK' and t[4] is not None:
            return t[:4] + (tuple(strip(x) if x[0] != 'prog' else ('prog', tuple(strip(y) for y in x[1])) for x in t[4]),)
        return t[:4] + (None if t[4] is None else tuple(strip(x) for x in t[4]),)
    if t[0] == 'prog':
        return ('prog', tuple(strip(x) for x in t[1]))
    if t[0] == 'cmd':
        return t[:2] + (tuple(strip(x) for x in t[2]),)
    return t


def reparse(code):
    """Tree of a program text by the reference scanner and parser; escaped strings with interpolations are expanded."""
    import re
    toks = scan(code)
    if toks == 'incomplete':
        return None
    out = []
    for k, x in toks:
        if k == 'EscapedString':
            p = re.split(r'\\([a-z_]|[A-Z]{1,2})', x[2:-2])
            if len(p) > 1:
                k, x = 'Interpolated', '|'.join(p)
        out.append((k, x))
    r = reference(out)
    return r[1] if r[0] == 'ok' and r[2] == 1 else None


def build(p, st, t):
    """The parse tree with this shape."""
    W, E = p.W, p.E
    if t[0] == 'prog':
        return W.plist(st, [build(p, st, x) for x in t[1]])
    if t[0] == 'tok':
        return W.inst(st, 'tokens.' + t[1], *([] if t[1] == 'Nil' else [K(t[2])]))
    if t[0] == 'cmd':
        return W.plist(st, [next(o for s, h, o in H.ctx().commands if s == t[1])] + [build(p, st, x) for x in t[2]])
    op = next((r.op for r in H.ctx().pseudo if r.symbol == t[1]), None) if t[1].isalpha() and len(t[1]) > 2 else None
    if op is None:
        op = W.op(2 if {'fold', 'scan'} & set(t[3]) else t[2], t[1])
    if t[3]:
        op = W.copy_op(st, op, **{m: True for m in t[3]})
        if {'fold', 'scan'} & set(t[3]):
            W.setfield(st, op, 'arity', K(1))
    return op if t[4] is None else W.plist(st, [op] + [build(p, st, x) for x in t[4]])


def without_parens(p, toks, want):
    """The same tree without its grouping parentheses, such as composing functions gives."""
    W, E = p.W, p.E
    st = p.st0.copy()
    tree = build(p, st, want)
    return shown(p, st, tree, want, 'the composed code ' + showtree(want), 'composed ' + ' '.join(
        x if k in ('Symbol', 'Command') else k for k, x in toks))


def shown(p, s, tree, want, what, shape):
    W, E = p.W, p.E
    E.dropped = 0
    res, raises = W.run('parsing.unparse', [tree], s)
    if E.dropped or len(res) + len(raises) != 1:
        return f'{what}: {"paths cut off" if E.dropped else "several outcomes"} of unparse'
    if raises:
        return [(f'unparse:{shape}', f'showing {what} fails with {raises[0][1][1].split(".")[-1]}')]
    v = res[0][1]
    if not isK(v):
        return f'{what}: text not known'
    got = reparse(v[2])
    if got is not None and strip(got) == want:
        return []
    return [(f'unparse:{shape}', f'{what}, which is {showtree(want)}, is shown as {v[2]!r}',
             'which ' + ('is ' + showtree(strip(got)) if got is not None else 'does not parse'))]


def compare(p, toks):
    W, E = p.W, p.E
    st = p.st0.copy()
    lst = E.newlist(st, [p.token(st, t) for t in toks] + [NONE])
    E.dropped = 0
    res, raises = W.run('parsing.parse', [lst], st)
    if len(res) != 1 or E.dropped:
        return None if not res else f'{text(toks)}: several parses'
    s, tree = res[0]
    if W.items(s, tree) is None:
        return f'{text(toks)}: tree not known'
    want = strip(('prog', tuple(p.tree(s, x) for x in W.items(s, tree))))
    shape = ' '.join(x if k in ('Symbol', 'Command') else k for k, x in toks)
    r = shown(p, s, tree, want, 'the code ' + text(toks), shape)
    if isinstance(r, str) or r or ('Symbol', '(') not in toks and not any(k == 'Interpolated' for k, _ in toks):
        return r
    return without_parens(p, toks, want)


def task(i):
    p = Parser()
    bad, und, n = [], None, 0
    for toks in H._unparse_batches[i]:
        r = compare(p, toks)
        if r is None:
            continue
        n += 1
        if isinstance(r, str):
            und = und or r
        elif r:
            bad += r
            if len(bad) >= 3:
                break
    return dict(bad=bad, undecided=und, n=n)


@prop('C29')
def shown_code(rep):
    rep.explanation = ('The parser and unparse are interpreted one after the other on programs that put every operator, with '
                       'every meta-operator, as operand of and around every kind of construct, and every command with its '
                       'optional parts; the text it gives, read by a reference scanner and parser, must be the same tree up to '
                       'grouping parentheses.')
    why = sane()
    if why:
        rep.skip(why)
        return
    k = known_ops()
    b, u, t = k[2], k[1], k[3]
    br, ur = level_reps(k, 2), level_reps(k, 1)
    A, B, X = N('a'), N('b'), N('ZQ')
    seqs = [[]]
    for x in b:
        seqs += [[A, O(x), B], [A, O(x), O(':'), B], [S('('), A, O(x), B, S(')')], [A, O(x), S('{'), B, S('}')],
                 [S('['), A, O(x), B, S(';'), A, S(']')], [S('('), A, S(';'), B, O(x), A, S(')')],
                 [C('I'), A, O(x), B, S('{'), A, O(x), B, S('}')]]
        for m in ('$', '\\$'):
            seqs += [[S(m), O(x), A], [S(m), O(x), O('*'), A], [S(m), O(x), O(':'), A], [S(m), O(x), O('*'), O(':'), A],
                     [A, O('+'), S(m), O(x), B], [S(m), O(x), A, O('+'), B]]
        for y in br:
            seqs += [[A, O(x), B, O(y), X], [A, O(y), B, O(x), X], [S('('), A, O(y), B, S(')'), O(x), X],
                     [A, O(x), S('('), B, O(y), X, S(')')], [A, O(x), B, O(y), O(':'), X]]
        for y in ur:
            seqs += [[O(y), A, O(x), B], [O(y), S('('), A, O(x), B, S(')')], [S('('), O(y), A, S(')'), O(x), B]]
        seqs += [[S('('), A, O('<'), B, O('<'), X, S(')'), O(x), A], [A, O(x), S('('), A, O('<'), B, S(')')],
                 [S('('), A, O(x), O(':'), B, S(')'), O(x), A], [A, O(x), S('('), A, O('?'), B, X, S(')')]]
    for x in u:
        seqs += [[O(x), A], [O(x), O('*'), A], [O(x), O(':'), A], [O(x), O('*'), O(':'), A], [O(x), O(x), A],
                 [O(x), S('['), A, S(']')], [O(x), S('{'), A, S('}')], [O(x), S('('), A, B, S(')')], [O(x), ('Number', '1')],
                 [A, O('+'), O(x), B], [S('['), O(x), A, S(';'), O(x), O('*'), B, S(']')], [A, S(';'), O(x), B]]
        for y in br:
            seqs += [[A, O(y), O(x), B], [A, O(y), O(x), O('*'), B], [A, O(y), O(x), O(':'), B]]
        for y in ur:
            seqs += [[O(x), O(y), A], [O(x), O('*'), O(y), O('*'), A], [O(y), O(x), O(':'), A]]
    for q in t:
        seqs += [[A, O(q), B, X], [A, O(q), O('-'), B, S(';'), O('-'), X], [A, O(q), B, O(q), A, B, X],
                 [S('('), A, O(q), B, X, S(')'), O(q), A, B], [A, O(q), S('['), S(']'), S('{'), S('}')]]
        for y in br:
            seqs += [[A, O(y), B, O(q), B, X], [A, O(q), B, O(y), X, A], [A, O(q), B, X, O(y), A]]
    cmps = [s for s in b if OPS[2][s].assoc == 'C']
    for x, y in itertools.product(cmps, cmps):
        seqs += [[A, O(x), B, O(y), X], [S('('), A, O(x), B, S(')'), O(y), X], [A, O(x), S('('), B, O(y), X, S(')')],
                 [O('!'), A, O(x), B, O(y), X], [A, O(x), O('!'), B], [A, O(x), B, O('+'), X, O(y), A]]
    lits = [('Number', '1'), ('Number', '1.5'), ('String', '"s"'), ('String', '"; "'), ('Pattern', '`p`'), ('Char', "';"), ('Char', "' "),
            ('Char', "'\n"), ('Char', "'}"), ('EscapedString', '\\"e"\\"'), ('Interpolated', 'a|x|b|ZQ|'), N('_'), N('$0'), N('$abc'), N('$__'),
            N('\\a'), N('PIP'), N('ZQ')]
    for l in lits:
        for m in lits[:6] + lits[10:]:
            seqs += [[l, O('.'), m], [S('['), l, S(';'), m, S(']')], [l, S(';'), m], [S('('), l, S(';'), m, S(')')], [l, O('?'), m, S(';'), l]]
        seqs += [[l], [O('-'), l], [S('{'), l, S('}')], [S('['), l, S(']')], [C('I'), l, l], [C('F'), A, l, l], [C('LR'), l, l, l],
                 [C('I'), l, l, S('EL'), l], [C('W'), l, S('{'), l, S(';'), l, S('}')], [l, O('@'), l, S(';'), O('-'), l]]
    bodies = [[A], [S('{'), S('}')], [S('{'), A, S(';'), O('-'), B, S('}')], [C('I'), A, B], [S('{'), C('W'), A, B, S('}')]]
    for c_, args in COMMANDS.items():
        if c_ not in {x[0] for x in H.ctx().commands}:
            continue
        opts = []
        for a in args:
            opts.append({'EXPR': [[A], [A, O('+'), B, S(';')], [O('-'), B, S(';')], [S('['), A, S(']')], [S('('), A, S(')')]],
                         'LOOPVAR': [[X], [S('['), A, B, S(']')], [S('['), S('['), A, S(']'), B, S(']')]],
                         'CODE': bodies, 'ELSE': [[]] + [[S('EL')] + y for y in bodies + [[C('I'), A, B, S('EL'), X]]]}[a])
        for combo in itertools.product(*opts):
            s = [C(c_)] + [x for y in combo for x in y]
            seqs += [s, s + [A], [A, S(';')] + s + [S(';'), B], [S('{')] + s + [S('}')]]
    al = alphabet()
    seqs += [list(s) for n in (1, 2) for s in itertools.product(al, repeat=n)]
    seqs += [list(s) for s in itertools.product(alphabet(True), repeat=3)]
    if rep.thorough:
        seqs += [list(s) for s in itertools.product(alphabet(True), repeat=4)]
    n = max(1, len(seqs) // 300)
    H._unparse_batches = [seqs[i::n] for i in range(n)]
    collect(rep, task, range(n), 'groups of programs')
