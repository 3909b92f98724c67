"""What literals, interpolated texts and list literals denote (C46)."""
import functools
import itertools
from values import *
from engine_consts import *
from . import prop
from .eval_ import collect
from .terms_ import T, Term, Unknown, Fails, value, show, close, FAILS, text
from .vars_ import LOCAL_NAMES


def front(V_, code, st):
    """[(state, statement trees)] by the scanner and parser of the source, and the failures."""
    W = V_.W
    out, hard = [], []
    res, raises = W.run('scanning.scan', [K(code + '\n')], st)
    hard += [x for _, x in raises]
    for s, toks in res:
        r2, raises = W.run('parsing.parse', [toks], s)
        hard += [x for _, x in raises]
        for s2, tree in r2:
            ts = W.items(s2, tree)
            if ts is None:
                raise Unknown('statements')
            out.append((s2, ts))
    return out, hard


def outcomes(V_, code, st):
    """[(state, value of the last statement)], failures."""
    W, E = V_.W, V_.W.E
    E.reclimit, E.depthlimit, E.concrete_while = 60, 400, 400
    E.nsteps = E.dropped = 0
    E.inline_eq = True
    done = []
    trees, hard = front(V_, code, st)
    for s, ts in trees:
        cur = [(s, None)]
        for t in ts:
            nxt = []
            for s1, _ in cur:
                E.nsteps = 0
                r, x = W.call('executeStatement', t, st=s1)
                nxt += r
                hard += [y for _, y in x]
            cur = nxt
        done += cur
    return done, hard, E.dropped


X, Y = 'u v', '-7.50'


def quoted():
    for n in range(4):
        for cs in itertools.product(['a', '\\', ' ', '`', "'", ';', '\n', '{', '5'] if n < 3 else ['a', '\\', ' ', '\n'], repeat=n):
            t = ''.join(cs)
            yield 'text', f'"{t}"', t
    for c in 'aZ5 "`\\;{}\'\n,~ü':
        yield 'character', f"'{c}", c
        yield 'character', f"['{c};'{c}]", [c, c]
    for n in ('0', '7', '42', '007', '1.50', '0.0', '00.10', '10', '12345678901234567890', '3.14159265358979323846', '100.', '1000000', '0.1'):
        if not n.endswith('.'):
            yield 'number', n, n
            yield 'number', f'[{n} {n};{n}]', [n, n, n]
            yield 'number', f'({n})', n
            yield 'number', f'-{n}', None if n else None


def patterns():
    atoms = {'a': 'a', '.': '.', '\\`': '`', '\\\\': '\\\\', '\\d': '\\d', '"': '"', ' ': ' ', '\n': '\n', '\\n': '\\n', "'": "'"}
    for n in (1, 2, 3):
        for cs in itertools.product(atoms if n < 3 else ['a', '\\`', '\\\\', '\\d'], repeat=n):
            yield 'pattern', '`' + ''.join(cs) + '`', ('pattern', ''.join(atoms[c] for c in cs))


def escaped():
    """Atoms of an escaped text: the text they stand for (functions: of the variables)."""
    atoms = {'x': 'x', '"': '"', ' ': ' ', '\n': '\n', '1': '1', '`': '`', "'": "'", '{': '{', '\\\\': '\\', '\\a': 'A', '\\b': 'B', '\\n': '', '\\k': 'K', '\\m': 'M',
             '\\1': '\\1', '\\ ': '\\ ', '\\.': '\\.', '\\PI': 'PI', '\\P': 'P1', ',': ',', '$': '$'}
    for n in (0, 1, 2, 3):
        for cs in itertools.product(atoms if n < 3 else ['x', '"', '\\\\', '\\a', '\\b', '\\n'], repeat=n):
            s = ''.join(cs)
            # a backslash before a letter and two-letter names are only taken where the splitting is certain
            if any(c == '\\\\' and d[:1].isalpha() for c, d in zip(cs, cs[1:] + ('',))) or any(
                    c == '\\P' and d[:1].isalpha() and d[:1].isupper() for c, d in zip(cs, cs[1:] + ('',))):
                continue
            if s.endswith('\\') and not s.endswith('\\\\') or '\\"' in s.replace('\\\\', ''):
                continue
            yield 'interpolated text', f'\\"{s}\\"', [atoms[c] for c in cs]


PARTS = {'A': lambda a, b: a, 'B': lambda a, b: b, 'K': lambda a, b: '12', 'M': lambda a, b: '0', 'PI': lambda a, b: '3.141592653589793', 'P1': lambda a, b: ''}
LISTS = [   # list literals, grouping
    ('[a;b]', lambda a, b: [a, b]), ('[a b]', lambda a, b: [a, b]), ('[a;b;]', lambda a, b: [a, b]), ('[]', lambda a, b: []), ('[[]]', lambda a, b: [[]]), ('[a]', lambda a, b: [a]), ('[[a]]', lambda a, b: [[a]]),
    ('()', lambda a, b: None), ('(a)', lambda a, b: a), ('((a))', lambda a, b: a), ('[()]', lambda a, b: [None]), ('[a;();b]', lambda a, b: [a, None, b]), ('[a;[b;[a;b]];b]', lambda a, b: [a, [b, [a, b]], b]),
    ('[a.b;b]', lambda a, b: [a + b, b]), ('[(a)(b)]', None), ('[a;(b)]', lambda a, b: [a, b]), ('[a"x"b]', lambda a, b: [a, 'x', b]), ("[a'x b]", lambda a, b: [a, 'x', b]), ('[1"x"2]', lambda a, b: ['1', 'x', '2']),
    ('["x""y"]', lambda a, b: ['x', 'y']), ('[1 2 3;4]', lambda a, b: ['1', '2', '3', '4']), ('[a\nb]', lambda a, b: [a, b]), ('[a ;b ]', lambda a, b: [a, b]), ('[1 -1]', lambda a, b: ['0']), ('[1;-1]', lambda a, b: ['1', '-1']),
    ('[a;{;c;}b]', lambda a, b: [a, b]), ('[a  comment\nb]', lambda a, b: [a, b]), ('[a\n;comment\nb]', lambda a, b: [a, b]), ('a b', lambda a, b: b), ('a;b', lambda a, b: b), ('a\nb', lambda a, b: b),
    ('[1,3;b]', lambda a, b: [('range', 1, 3), b]), ('[,2]', lambda a, b: [('range', None, 2)]), ('[\\"\\a.\\b\\";a]', lambda a, b: [a + '.' + b, a]), ('\\"\\a\\".\\"\\b\\"', lambda a, b: a + b), ('\\"x\\"\\"y\\"', lambda a, b: 'y'),
    ('c:"q" \\"\\c\\c\\"', lambda a, b: 'qq'), ('c:[a;b] \\"<\\c>\\"', lambda a, b: '<' + a + b + '>'), ('c:3,6 \\"<\\c>\\"', None), ('c:() \\"<\\c>\\"', lambda a, b: '<>'), ('c:2+3 \\"<\\c>\\"', lambda a, b: '<5>'), ('\\"\\a\\"="x"', None),
    ('({\\"\\a\\b\\"}b a)', lambda a, b: b + a), ('({\\"\\a\\"}MJ["p";"q"])', None), ('{\\"\\a!\\"}M["p";"q"]', lambda a, b: ['p!', 'q!']), ('\\"\\AZ\\"@<3', lambda a, b: 'ABC'), ('y:a \\"\\y\\"', lambda a, b: a),
    ('zz', lambda a, b: 'abcdefghijklmnopqrstuvwxyz'), ('[x;a]', lambda a, b: ['', a]), ('$0', None), ('i', lambda a, b: '0'), ('o.t.s', lambda a, b: '110 '), ('c', lambda a, b: None), ('[c;d]', lambda a, b: [None, None]),
]


def concat(parts, a, b):
    return ''.join(PARTS[p](a, b) if p in PARTS else p for p in parts)


def lit_task(task):
    bad, n, und = {}, 0, None
    for kind, code, want in [cases()[task[0]]]:
        V_ = T()
        W = V_.W
        for nm, sh in zip('ab', 'xy'):
            W.setvar(V_.st, nm, V_.build(sh))
        for nm, sh in (('k', '"12'), ('m', '"0'), ('n', None)):
            W.setvar(V_.st, nm, V_.build(sh), local=False)
        try:
            done, hard, dropped = outcomes(V_, code, V_.st.copy())
        except Unknown as e:
            und = f'{code}: {e}'
            continue
        if dropped or not done and not hard:
            und = f'{code}: no definite outcome'
            continue
        for a, b in ((X, Y), ('', '0')):
            w = want(a, b) if callable(want) else concat(want, a, b) if kind == 'interpolated text' else want
            got, unknown = [], None
            for s, v in done:
                t = Term(W, s, dict(x=a, y=b))
                try:
                    if not t.holds():
                        continue
                    if kind == 'pattern':
                        o = W.E.obj(s, v) if v is not None and v[0] == 'R' else None
                        f = o.fields.get('_raw', o.fields.get('_value')) if o is not None and o.cls == PATTERN else None
                        got.append(('pattern', f[2]) if f is not None and f[0] == 'K' else '?')
                        if got[-1] == '?':
                            raise Unknown('pattern')
                    else:
                        got.append(None if v is None else value(V_, t, v))
                except Unknown as e:
                    unknown = str(e)
                except Fails:
                    pass
            if hard:
                got.append(FAILS)
            n += 1
            if unknown or not got:
                und = f'{code}: {unknown or "no path"}'
                continue
            if not any(g == w for g in got):
                g = got[0]
                sh = (lambda z: z[1] if isinstance(z, tuple) and z[:1] == ('pattern',) else show(z))
                bad.setdefault(kind, (f'{kind}:{code!r}', f'{code!r} denotes {sh(g)!r} instead of {sh(w)!r}' + (f' with a={a!r}, b={b!r}' if callable(want) or kind.startswith('inter') else ''),
                                      'scanning.scan, parsing.parse, executeStatement'))
    return dict(bad=list(bad.values()), n=n, undecided=und if not bad else None)


@functools.cache
def cases():
    cs = [(k, c, w) for k, c, w in itertools.chain(quoted(), patterns(), escaped()) if w is not None]
    cs += [('list or grouping', c, w) for c, w in LISTS if w is not None]
    return cs


@prop('C46')
def literals(rep):
    rep.explanation = ('Scanner, parser and evaluator are interpreted abstractly on every literal built from representatives of the character classes its syntax distinguishes; '
                       'variables spliced into escaped texts are opaque texts. The value found must be the text written.')
    collect(rep, lit_task, [(i,) for i in range(len(cases()))], 'literals')
