"""Scanner: which tokens a program text is split into (C03)."""
import re, itertools
import harness as H
import lexdfa
from values import *
from engine_consts import *
from . import prop
from .eval_ import collect
from .front_ import Parser, OPS, COMMANDS, Incomplete

OPERATORS = sorted({s for a in OPS for s in OPS[a]}, key=len, reverse=True)
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOWER = 'abcdefghijklmnopqrstuvwxyz'


def one(code):
    """Length of the token at the start of code, or 0 (written without regular expressions)."""
    c = code[0]

    def run(i, ok, most=None):
        n = i
        while n < len(code) and code[n] in ok and (most is None or n - i < most):
            n += 1
        return n
    if c in UPPER:
        return run(0, UPPER)
    if c in LOWER + '_' and c != 'j':
        return 1
    if c == '$' and len(code) > 1:
        d = code[1]
        if d in "][()$`'0123456789":
            return 2
        if d in LOWER:
            return run(1, LOWER + '0123456789_')
        if d == '_':
            return run(1, '_', 3)
    if c == '\\' and len(code) > 1 and code[1] in 'abcdefg':
        return 2
    if c == '"':
        n = code.find('"', 1)
        if n > 0:
            return n + 1
    if c == '`':
        i = 1
        while i < len(code) and code[i] != '`':
            if code[i] == '\\':
                if i + 1 >= len(code) or code[i + 1] == '\n':
                    i = len(code)
                    break
                i += 1
            i += 1
        if i < len(code):
            return i + 1
    if c == "'" and len(code) > 1:
        return 2
    if code[:2] == '\\"':
        i = 2
        while i < len(code) and code[i:i + 2] != '\\"':
            i += 2 if code[i] == '\\' else 1
        if i < len(code):
            return i + 2
    if c.isdecimal():
        i = 1
        while i < len(code) and code[i].isdecimal():
            i += 1
        if i + 1 < len(code) and code[i] == '.' and code[i + 1].isdecimal():
            i += 2
            while i < len(code) and code[i].isdecimal():
                i += 1
        return i
    if c in '][(){};$':
        return 1
    if code[:2] == '\\$':
        return 2
    for o in OPERATORS:
        if code.startswith(o):
            return len(o)
    return 0


def kind(t):
    if t in OPERATORS:
        return 'Operator'
    if t in COMMANDS:
        return 'Command'
    if t[0] == "'":
        return 'Char'
    if t[0] == '"':
        return 'String'
    if t[:2] == '\\"':
        return 'EscapedString'
    if t[0] == '`':
        return 'Pattern'
    if t in list('][(){};$') + ['\\$', 'EL']:
        return 'Symbol'
    if t[0].isdecimal():
        return 'Number'
    return 'Name'


def tokens(code):
    """[(kind, text)] or 'incomplete'."""
    code = '\n' + code + '\n'
    out = []
    while code:
        n = 0
        while n < len(code) and code[n].isspace():
            n += 1
        if '\n' in code[:n] and code[n:n + 1] == ';' or code[:2] == '  ':
            i = code.find('\n', n if '\n' in code[:n] and code[n:n + 1] == ';' else 2)
            code = code[i:] if i >= 0 else ''
        elif code[:2] == '{;':
            i = code.find(';}', 2)
            if i < 0:
                return 'incomplete'
            code = code[i + 2:]
        elif n:
            code = code[n:]
        else:
            n = one(code)
            if not n:
                if code[0] in '"`\'' or code[:2] == '\\"':
                    return 'incomplete'
                code = code[1:]
                continue
            t = code[:n]
            if t[0] in UPPER:
                t = 'PIP' if t == 'PIP' else t[:2 - n % 2]
                n = len(t)
                if t == 'EI':
                    t, n = 'EL', 1
            out.append((kind(t), t))
            code = code[n:]
    return out


def compare(p, code):
    W = p.W
    st = p.st0.copy()
    W.E.dropped = 0
    res, raises = W.run('scanning.scan', [K(code)], st)
    got = []
    for s, v in res:
        it = W.items(s, v)
        if it is None:
            return f'{code!r}: token list not known'
        got.append([(lambda t: t[1:] if t[0] == 'tok' else ('Operator', t[1]) if t[0] == 'op' else None if t == ('none',) else t)
                    (p.tree(s, x)) for x in it])
    for s, x in raises:
        got.append('incomplete' if x[1].endswith('IncompleteSyntax') else x[1].split('.')[-1])
    want = tokens(code)
    if want != 'incomplete':
        want = want + [None]
    if W.E.dropped or len(got) != 1:
        return f'{code!r}: {"paths cut off" if W.E.dropped else "several outcomes"}'
    if got[0] == want:
        return []
    if '?' in repr(got[0]) and '?' not in code:
        return f'{code!r}: tokens not known'
    show = lambda x: x if isinstance(x, str) else ' '.join(f'{t[1]}({t[0]})' if t else 'end' for t in x)
    return [(f'scan:{"".join("x" if ch in LOWER else "9" if ch.isdigit() else ch for ch in code)!r}',
             f'the program text {code!r} is scanned as {show(got[0])}', f'it should be {show(want)}')]


def scan_task(i):
    p = Parser()
    p.E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(st, NONE)]
    bad, und, n = [], None, 0
    for code in H._lexer_batches[i]:
        r = compare(p, code)
        n += 1
        if isinstance(r, str):
            und = und or r
        elif r:
            bad += r
            if len(bad) >= 3:
                break
    return dict(bad=bad, undecided=und, n=n)


REFERENCE = {
    'tokenRgx': ('|'.join([r"[A-Z]+|[a-ik-z_]|\$(?:[\]\[()$`'0-9]|[a-z][a-z0-9_]*|__?_?)|\\[a-g]", r'"[^"]*"', r'`(?:\\.|[^\\`])*`',
                           r"'[\s\S]", r'\\"(?:[^\\]|\\[^"])*\\"', r'\d+(?:\.\d+)?', r'[\[\](){};$]|\\\$|EL']
                          + [re.escape(o) for o in OPERATORS]), 0),
    'lineCommentRgx': (r'(?:\s*\n\s*;|  )[^\n]*', 0),
    'blockCommentRgx': (r'\{;[\s\S]*?;\}', 0),
    'whitespaceRgx': (r'\s+', 0),
}


@prop('C03')
def scanner(rep):
    rep.explanation = ('(1) The regular expressions of the scanner, as module initialisation computes them, are compared with '
                       'reference expressions by building ordered automata and comparing them state by state: they match the '
                       'same prefix of every text. (2) The scanner is interpreted on every text of up to three characters '
                       '(four with --thorough) over one representative per character class, on every operator and command next '
                       'to every class, and on literals and comments, against a reference scanner without regular expressions.')
    c = H.ctx()
    g = c.E.mods['scanning'].globals if 'scanning' in c.E.mods else {}
    for name, (pat, fl) in REFERENCE.items():
        v = g.get(name)
        if v is None or v[0] != 'Rx':
            rep.skip(f'no compiled expression {name} in the scanner')
            continue
        try:
            d = lexdfa.differ(v[1], v[2] if len(v) > 2 and isinstance(v[2], int) else 0, pat, fl)
            rep.count('automaton comparisons')
        except lexdfa.Unsupported as e:
            rep.skip(f'{name}: {e}')
            continue
        if d:
            rep.bad(f'regex:{name}', f'{name} {"matches" if d[1] == 1 else "does not match"} the text {d[0]!r}',
                    'the reference expression ' + ('does not' if d[1] == 1 else 'does'))
    try:
        p = Parser()
        p.E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(st, NONE)]
        for code in ('a', 'a b'):
            if compare(p, code):
                rep.skip(f'scanner not usable as scan(text): {compare(p, code)}')
                return
    except Exception as e:
        rep.skip(f'scanner not usable as scan(text): {e!r}')
        return
    al = list('ajAEILPRW"`\'\\$19.;{}( \n+<=:?_*') + ['é', '\t']
    seqs = [''.join(s) for n in range(4 if not rep.thorough else 5) for s in itertools.product(al if n < 4 else al[:-6], repeat=n)]
    ops = [o for o in OPERATORS]
    sym = [o for o in ops if not o[0].isalpha()]
    reps = ['a', 'A', 'AB', '1', '"s"', "'c", '`p`', '$', ';', '(', ' ', '\n', '\\', 'Q']
    for o in ops + list(COMMANDS) + ['EL', 'EI', 'PIP', 'XPIP', 'PIPX', 'IEI', 'EIF', 'XEI']:
        seqs += [o] + [o + r for r in reps] + [r + o for r in reps]
    seqs += [a + b for a in sym for b in sym]
    lits = ['"a;b"', '"a  b"', '"a\n;b"', '"', '"a\\"', "'\n", "''", "'''", '`a\\`b`', '`a\\\\`', '`\\', '`a\nb`', '`a\\\nb`',
            '\\"a\\"', '\\"a"b\\"', '\\"a\\xb\\"', '\\"\\"', '\\"a\\\\"', '\\"a\\\\\\"', '\\"a\nb\\"', '\\"', '\\"a"', '"a\\"b',
            'a  b', 'a  b\nc', 'a ;b', 'a\n;b\nc', 'a\n  ;b\nc', 'a\n\n;b', 'a \n ;b\n;c\nd', ';a\nb', ' ;a\nb', '  a\nb', '\t;a\nb',
            '\t\tx', 'a\t\tb', 'a\n  b', 'a\n   b  c', '{;a;}b', '{;a\nb;}c', '{;a;}b;}c', '{;;}a', '{;}a;}b', '{;a', '{;;a', '{a;}',
            '{ ;a;}', 'a{;b;}c', '  {;a\n;}b', '1.5', '1.', '.5', '1..5', '1.5.2', '12.34x', '1.a', '1 .5', '٠٣', '1٠',
            '$abc', '$a1_b', '$A', '$_', '$__', '$___', '$____', '$1', '$12', '$$', '$$$', '$(', '$)', '$[', "$'", '$`', '$ a', '\\a',
            '\\h', '\\$', '\\$+a', '\\g\\a', 'ABCD', 'ABCDE', 'ABCDEF', 'EIEI', 'EIEIO', 'EIEIEIEI', 'ELEI', 'PIPS', 'PIPPIP',
            'aPIP', 'PIP PIP', 'PIPa', 'WGWG', 'LRL', 'j', 'ja', 'aj', '~', 'a~b', '\x00', 'ÄB', 'aÄ', 'Éa', '\u00a0a', '\u2028;a',
            '@*', '@ *', '-*:', '+:', '===', '=>', '<=>', '<>', '>=', '!=', '!!', '++x', '+++x', '--x', '->', '...', '::', ':::',
            '//', '///', '**', '***', '%%', '?!', '~~', ',,', '^^', '||', '&&', '##', '(a)(b)', '[1;2]', 'Fi,9{Pi}', 'I a{b}EI c{d}EL{e}']
    seqs += lits + [x + y for x in lits for y in ('a', ' a', '\n;z\nb')] + ['a' + x for x in lits] + ['x\n' + x for x in lits]
    seen = set()
    seqs = [s for s in seqs if not (s in seen or seen.add(s))]
    n = max(1, len(seqs) // 800)
    H._lexer_batches = [seqs[i::n] for i in range(n)]
    collect(rep, scan_task, range(n), 'groups of program texts')
