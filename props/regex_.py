"""Operators that match patterns, and the match variables they set (C22); operators that build patterns (C38)."""
import re
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import record, events
from . import prop
from .eval_ import collect
from .vars_ import V
from .tables_ import table
from .lists_ import run_cases, got_shape, plain, shape_text, unknown
import lexdfa

OLD = '$0 $1 $2 $9 $$ $( $) $` $\' $[ $]'.split()
VARS = [f'${i}' for i in range(10)] + ['$$', '$(', '$)', '$`', "$'", '$[', '$]']
RX = [('b', 0), ('a.', 0), ('(a)(b)?', 0), ('(x)|(b)', 0), ('b*', 0), ('(.)\\1', 0), ('A', re.IGNORECASE), ('^b', re.MULTILINE), ('a.b', re.DOTALL),
      ('(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)', 0), ('((.)(b))', 0), ('$', 0), ('a|b', 0), ('(?:ab)+', 0), ('(a*)(b|c)', re.IGNORECASE)]
TEXTS = ['', 'b', 'abc', 'abacbab', 'aab\nbba', 'xAbBa', 'abcdefghijkl', 'xbx', 'ccc']
LITERALS = [('.', 'a.b.'), ('b', 'abab'), ('(', 'x(y)'), ('ab', 'xabab'), ('\\', 'a\\b')]


ANSWERS = ['"<0>', '"<1>', 7, '"', '"<4>', 0, None, '"\\1&'] * 4


def shown(x):
    return '' if x is None else str(x).lstrip('"')


def txt(s):
    return '"' + s


def rxs(r):
    return ('rx', r[0], r[1])


def grp(x):
    return None if x is None else txt(x)


def var_ref(m):
    """The match variables after match m."""
    g = list(m.groups())
    out = {f'${i}': None for i in range(10)}
    out['$0'] = txt(m.group())
    for i, x in enumerate(g[:9]):
        out[f'${i + 1}'] = grp(x)
    out['$$'] = [grp(x) for x in g]
    out['$('], out['$)'] = m.start(), m.end()
    out['$`'], out["$'"] = txt(m.string[:m.start()]), txt(m.string[m.end():])
    out['$['] = [m.start(i + 1) for i in range(len(g))]
    out['$]'] = [m.end(i + 1) for i in range(len(g))]
    return out


def call_args(m):
    return [txt(m.group())] + [grp(x) for x in m.groups()]


def template(new, m):
    """Replacement by a pattern: & and \\0-free group references, \\& a literal ampersand."""
    out, i = '', 0
    while i < len(new):
        c = new[i]
        if c == '&':
            out += m.group()
        elif c == '\\' and i + 1 < len(new):
            i += 1
            d = new[i]
            if d.isdigit():
                if new[i + 1:i + 2].isdigit():
                    i += 1
                    d += new[i]
                out += m.group(int(d)) or ''
            elif d in '&\\':
                out += d
            else:
                out += {'n': '\n', 't': '\t'}[d]
        else:
            out += c
        i += 1
    return out


def strip_ref(rx, s, left, right):
    p = re.compile(rx[0], rx[1])
    head, tail = re.compile(rf'\A(?:{rx[0]})', rx[1]), re.compile(rf'(?:{rx[0]})\Z', rx[1])
    old = None
    while left and s != old:
        old, s = s, head.sub('', s)
    old = None
    while right and s != old:
        old, s = s, tail.sub('', s)
    return s


def case(sym, args, result, matches, calls=None, vars_set=True):
    return (sym, args, result, matches, calls, vars_set)


def cases(thorough):
    for r in RX:
        p = re.compile(r[0], r[1])
        for s in TEXTS:
            ms = list(p.finditer(s))
            first = p.search(s)
            full = p.fullmatch(s)
            one = [first] if first else []
            for args in ([txt(s), rxs(r)], [rxs(r), txt(s)]):
                yield case('~', args, txt(first.group()) if first else None, one)
                yield case('~=', args, 1 if full else 0, [full] if full else [])
            yield case('N', [rxs(r), txt(s)], len(ms), ms)
            yield case('NI', [rxs(r), txt(s)], 0 if ms else 1, None)
            yield case('@', [txt(s), rxs(r)], [txt(m.group()) for m in ms], ms)
            yield case('@?', [txt(s), rxs(r)], first.start() if first else None, one)
            yield case('@*', [txt(s), rxs(r)], [m.start() for m in ms], ms)
            yield case('MR', ['F', rxs(r), txt(s)], [f'r{i}' for i in range(len(ms))], ms, [call_args(m) for m in ms])
            yield case('MR', [rxs(r), txt(s), 'F'], [f'r{i}' for i in range(len(ms))], ms, [call_args(m) for m in ms])
            yield case('MR', [rxs(r), 'F', txt(s)], [f'r{i}' for i in range(len(ms))], ms, [call_args(m) for m in ms])
            yield case('MR', [txt(s), rxs(r), 'F'], [f'r{i}' for i in range(len(ms))], ms, [call_args(m) for m in ms])
            yield case('MR', ['F', txt(s), rxs(r)], [f'r{i}' for i in range(len(ms))], ms, [call_args(m) for m in ms])
            for i, new in enumerate(('-', '', 'a\\b&')):
                yield case('R', [txt(s), rxs(r), txt(new)], txt(p.sub(lambda m: new, s)), None)
            yield case('R', [txt(s), rxs(r), None], txt(p.sub('', s)), None)
            for new in ('[&]', '\\&&\\\\', '&&-') + (('<\\1>',) if p.groups else ()) + (('\\2\\1&',) if p.groups > 1 else ()):
                yield case('R', [txt(s), rxs(r), ('rx', new, 0)], txt(p.sub(lambda m: template(new, m), s)), None)
            answers = ANSWERS
            it = iter(answers)
            yield case('R', [txt(s), rxs(r), 'G'], txt(p.sub(lambda m: shown(next(it)), s)), ms, [call_args(m) for m in ms])
            for pre in (('^',), ('RM',), ('^', 'RM')):
                # the pattern in a variable that was used before and copied since
                yield case('@', [txt(s), rxs(r)], [txt(m.group()) for m in ms], ms) + (pre,)
                yield case('R', [txt(s), rxs(r), txt('-')], txt(p.sub('-', s)), None) + (pre,)
                yield case('^', [txt(s), rxs(r)], [grp(x) for x in p.split(s)], None) + (pre,)
            yield case('RM', [txt(s), rxs(r)], txt(p.sub('', s)), None)
            yield case('^', [txt(s), rxs(r)], [grp(x) for x in p.split(s)], None)
            if p.match('') is None:
                yield case('||', [txt(s), rxs(r)], txt(strip_ref(r, s, True, True)), None)
                yield case('|>', [txt(s), rxs(r)], txt(strip_ref(r, s, True, False)), None)
                yield case('<|', [txt(s), rxs(r)], txt(strip_ref(r, s, False, True)), None)
    for lit, s in LITERALS:
        p = re.compile(re.escape(lit))
        ms = list(p.finditer(s))
        first = p.search(s)
        yield case('~', [txt(s), txt(lit)], txt(first.group()), [first])
        yield case('~=', [txt(s), txt(lit)], 1 if s == lit else 0, [])
        yield case('~=', [txt(lit), txt(lit)], 1, [p.fullmatch(lit)])
        yield case('R', [txt(s), txt(lit), 'G'], txt(''.join(x + (['<0>', '<1>', '7', '', '<4>'][i] if i < len(ms) else '') for i, x in enumerate(s.split(lit)))),
                   ms, [call_args(m) for m in ms])
        yield case('MR', [txt(s), txt(lit), 'F'], [f'r{i}' for i in range(len(ms))], ms, [call_args(m) for m in ms])
        yield case('MR', ['F', txt(lit), txt(s)], [f'r{i}' for i in range(len(ms))], ms, [call_args(m) for m in ms])
    ten = ('(a)(b)(c)(d)(e)(f)(g)(h)(i)(.)\\10', 0)
    p = re.compile(*ten)
    for s in ('abcdefghijj', 'abcdefghijz', 'abcdefghiabcdefghijjx'):
        ms = list(p.finditer(s))
        yield case('@', [txt(s), rxs(ten)], [txt(m.group()) for m in ms], ms)
        for new in ('\\10\\1', '[\\9&]'):
            yield case('R', [txt(s), rxs(ten), ('rx', new, 0)], txt(p.sub(lambda m: template(new, m), s)), None)
    yield case('R', [txt('ab'), [txt('a'), txt('b')], txt('ba')], txt('baaba'), None)
    p = re.compile('(a)(b)?')
    ms = [list(p.finditer(s)) for s in ('abc', 'xx', 'aab')]
    yield case('@', [[txt('abc'), txt('xx'), txt('aab')], ('rx', '(a)(b)?', 0)], [[txt(m.group()) for m in x] for x in ms], ms[0] + ms[2])
    yield case('R', [[txt('abc'), txt('xx')], ('rx', '(a)(b)?', 0), txt('-')], [txt('-c'), txt('xx')], None)
    yield case('R', [txt('abcabc'), [txt('b'), ('rx', 'c(.)', 0)], [txt('x'), ('rx', '[\\1]', 0)]], txt('ax[a]xc'), None)
    yield case('R', [txt('abcabc'), [txt('b'), ('rx', 'c', 0), txt('a')], [txt('x'), txt('yy')]], txt('xyyxyy'), None)
    yield case('~=', [[txt('ab'), txt('b')], ('rx', 'a?b', 0)], 1, [re.fullmatch('a?b', 'b')])
    yield case('~=', [[txt('ab'), txt('c')], ('rx', 'a?b', 0)], 0, None)


class Run:
    def __init__(self, sym, args, pre=()):
        self.V = V_ = V()
        W = V_.W
        E = W.E
        self.op = W.op(len(args), sym)
        if self.op is None:
            return
        for n in VARS:
            V_.set(n, 'old_' + n)
        self.block = None
        answers = [V_.build(x) for x in ANSWERS]

        def call(E_, fi, a, kw, st, node):
            k = sum(1 for e in events(st) if e[0] == 'call')
            lst = a[2] if len(a) > 2 else kw.get('argList', next(iter(kw.values()), None))
            its = E_.contents(lst, st) if lst is not None else None
            record('call')(st, tuple(freeze(plain(got_shape(V_, st, x))) for x in its[0]) if its and its[0] is not None else None, freeze(self.vars(st)))
            return [(st, answers[k] if 'G' in args else W.sym(st, f'r{k}', SCALAR))]
        E.intrinsics[P + 'functionCall'] = call
        E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(record('warn')(st), (st, NONE))[1]]
        E.inline_eq = True
        E.dropped = 0
        vals = [self.build(a) for a in args]
        sts, raises = [V_.st], []
        if pre:
            i = next(i for i, a in enumerate(args) if isinstance(a, tuple))
            steps = [V_.tree(V_.ASSIGN, V_.name('y'), vals[i])] + [V_.tree(W.op(2, o), V_.build('"aXbxb'), V_.name('y')) for o in pre] + [V_.tree(V_.ASSIGN, V_.name('z'), V_.name('y'))]
            vals[i] = V_.name('z')
        last = V_.tree(self.op, *vals)
        sts = [V_.st.copy()]
        for t in steps if pre else ():
            nxt = []
            for s in sts:
                r, x = W.call('evaluate', t, st=s)
                nxt += [s2 for s2, _ in r]
                raises += x
            sts = nxt[:4]
        res = []
        for s in sts:
            r, x = W.call('evaluate', last, st=s)
            res += r
            raises += x
        self.hard = [x for _, x in raises if not x[4]]
        self.dropped = E.dropped
        self.outs = [(plain(got_shape(V_, s, v)), self.vars(s), [(e[1], e[2]) for e in events(s) if e[0] == 'call']) for s, v in res]

    def vars(self, st):
        t = self.V.tables(st)
        return None if t is None else {n: plain(got_shape(self.V, st, v)) for (_, n), v in t.items() if n in VARS}

    def build(self, a):
        W = self.V.W
        if a in ('F', 'G'):
            return W.inst(self.V.st, BLOCK, W.plist(self.V.st, []), W.name(self.V.st, 'a'))
        if isinstance(a, tuple) and a[0] == 'rx':
            return W.inst(self.V.st, PATTERN, K(a[1]), K(a[2]))
        if isinstance(a, list):
            return W.List(self.V.st, [self.build(x) for x in a])
        return self.V.build(a)


def freeze(x):
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(v)) for k, v in x.items()))
    return tuple(map(freeze, x)) if isinstance(x, list) else x


def show(a):
    if isinstance(a, tuple) and a and a[0] == 'rx':
        return ''.join(c for f, c in ((re.ASCII, 'A'), (re.IGNORECASE, '-'), (re.MULTILINE, ','), (re.DOTALL, '.')) if a[2] & f) + f'`{a[1]}`'
    if isinstance(a, list):
        return '[' + ' '.join(map(show, a)) + ']'
    if a in ('F', 'G'):
        return 'a function'
    return shape_text(a).replace('\n', '\\n')


def check(c):
    sym, args, result, matches, calls, _, *pre = c
    r = Run(sym, args, *pre)
    if r.op is None:
        return dict(n=0, undecided=f'no operator {sym}/{len(args)}')
    what = f'{show(args[0])} {sym} ' + ' '.join(map(show, args[1:]))
    key = f'{sym}/{len(args)}'
    if pre:
        what += f' (with the pattern copied from a variable after it was used by {" and ".join(pre[0])})'
        key += ':copy'
    if r.dropped or not r.outs and not r.hard:
        return dict(n=0, undecided=f'{what}: no definite outcome')
    want = plain(result)
    probs, und = [], None
    for out, vs, cs in r.outs:
        p = None
        if unknown(out):
            und = f'{what}: result not known exactly'
        elif out != want:
            p = (key, f'{what} gives {show(out)}', f'it should give {show(want)}')
        if matches is not None:
            refs = [{k: plain(v) for k, v in var_ref(m).items()} for m in matches]
            final = refs[-1] if refs else {n: 'old_' + n for n in VARS}
            if vs is None:
                und = f'{what}: variables not known'
            else:
                p = p or differ_vars(key, what, vs, final, 'afterwards')
                if any(unknown(x) for x in vs.values()):
                    und = f'{what}: match variables not known exactly'
        if calls is not None:
            if len(cs) != len(calls):
                p = p or (key + ':calls', f'{what} calls the function {len(cs)} times', f'it should call it {len(calls)} times')
            else:
                for i, ((a, v), w) in enumerate(zip(cs, calls)):
                    w = freeze([plain(x) for x in w])
                    if a is None or v is None:
                        und = f'{what}: call not known'
                        continue
                    if a != w:
                        p = p or (key + ':arguments', f'{what}: call {i + 1} gets the arguments {" ".join(map(show, a))}', f'they should be {" ".join(map(show, w))}')
                    p = p or differ_vars(key, what, dict(v), {k: freeze(x) for k, x in refs[i].items()}, f'in call {i + 1}')
        probs.append(p)
    for x in r.hard:
        probs.append((key + ':fails', f'{what} fails with {x[1].split(".")[-1]}', f'it should give {show(want)}'))
    bad = [p for p in probs if p]
    if bad and (len(bad) < len(probs)):
        return dict(n=len(probs), undecided=f'{what}: several outcomes: {bad[0][1]}')
    if bad:
        return dict(n=len(probs), bad=bad[:1])
    return dict(n=len(probs), undecided=und)


def differ_vars(key, what, got, want, when):
    for n in VARS:
        g = got.get(n, 'undefined')
        if not unknown(list(g) if isinstance(g, tuple) else g) and g != want[n]:
            return (f'{key}:{n if not n[1:].isdigit() or n == "$0" else "$1-$9"}', f'{what}: {n} is {show(list(g) if isinstance(g, tuple) else g)} {when}',
                    f'it should be {show(list(want[n]) if isinstance(want[n], tuple) else want[n])}')


def regex_task(i):
    out, und, n = [], [], 0
    for c in H._regex_batches[i]:
        r = check(c)
        n += r['n']
        out += r.get('bad', [])
        if r.get('undecided'):
            und.append(r['undecided'])
    return dict(bad=out, undecided=(f'{und[0]}' + (f' (and {len(und) - 1} more)' if len(und) > 1 else '')) if und else None, n=n)


@prop('C22')
def matching(rep):
    rep.explanation = ('Every operator that matches a pattern is evaluated abstractly on constant patterns and texts that cover groups '
                       '(nested, optional, more than nine, none), flags, empty and adjacent matches, with all match variables holding '
                       'opaque old values and function calls recorded; results, calls (arguments and match variables at that time) and '
                       'the variables afterwards must be those of the reference.')
    cs = list(cases(rep.thorough))
    n = max(1, len(cs) // 30)
    H._regex_batches = [cs[i::n] for i in range(n)]
    collect(rep, regex_task, range(n), 'groups of matching operations')
    run_cases(rep, table('C22'))


# ---------------------------------------------------------------- building patterns
PARTS = [('a', 0), ('ab', 0), ('a|b', 0), ('', 0), ('a*', 0), ('[ab]c', 0), ('(a)|b', 0), ('a', re.IGNORECASE), ('.b|c', re.DOTALL), ('a|bc', re.MULTILINE | re.ASCII)]
WORDS = ['', 'a', 'a.b', '(x', 'a|b', '\\d', 'a b-c', '[^', '$5', 'ab*']


def build_cases(thorough):
    """(operator, arguments, reference pattern, reference flags, capture groups)"""
    def wrap(r):
        return f'(?:{r})'

    def g(*rs):
        return sum(re.compile(r).groups for r in rs)
    for p in PARTS:
        r, f = p
        for q in PARTS:
            s, h = q
            yield '+', [rxs(p), rxs(q)], wrap(r) + wrap(s), f | h, g(r, s)
            yield ',', [rxs(p), rxs(q)], f'{wrap(r)}|{wrap(s)}', f | h, g(r, s)
            yield '.', [rxs(p), rxs(q)], r + s, f | h, g(r, s)
        for n in (0, 1, 2, 3):
            if r:
                yield '*', [rxs(p), n], wrap(r) + '{%d}' % n, f, g(r)
                yield '*', [n, rxs(p)], wrap(r) + '{%d}' % n, f, g(r)
            yield 'X', [rxs(p), n], r * n, f, g(r) * n
        if r and re.match(r, '') is None:
            yield 'K', [rxs(p)], wrap(r) + '*', f, g(r)
            yield '+', [rxs(p)], wrap(r) + '+', f, g(r)
        yield 'C', [rxs(p)], f'({r})', f, g(r) + 1
        yield 'X', [rxs(p)], r, f, g(r)
        yield '-', [rxs(p)], r, f ^ re.IGNORECASE, g(r)
        yield 'A', [rxs(p)], r, f ^ re.ASCII, g(r)
        yield ',', [rxs(p)], r, f ^ re.MULTILINE, g(r)
        yield '.', [rxs(p)], r, f ^ re.DOTALL, g(r)
        yield '.', [rxs(p), txt('bc')], r + 'bc', f, g(r)
        yield '.', [txt('bc'), rxs(p)], 'bc' + r, f, g(r)
        yield 'WR', [rxs(p), txt('x')], f'x{r}x', f, g(r)
        yield 'WR', [txt('x'), rxs(p)], f'{r}x{r}', f, 2 * g(r)
    for w in WORDS:
        yield 'X', [txt(w)], re.escape(w), 0, 0
        if w:
            yield 'K', [txt(w)], wrap(re.escape(w)) + '*', 0, 0
    yield 'X', [42], '42', 0, 0
    yield 'X', [(2, 5)], '2|3|4', 0, 0
    yield 'K', [(9, 12)], '(?:9|10|11)*', 0, 0
    for ws in (['a.b', 'ab', 'c'], ['ab', 'a', 'a|c'], ['a'], ['x*', '(']):
        yield 'X', [[txt(w) for w in ws]], '|'.join(map(re.escape, ws)), 0, 0
    yield 'X', [[txt('a.'), [txt('b'), txt('c+')]]], '|'.join([re.escape('a.'), 'b', re.escape('c+')]), 0, 0
    yield 'X', [[txt('a.'), ('rx', 'b|c+', 0)]], re.escape('a.') + '|b|c+', 0, 0


def check_build(c, nested=False):
    sym, args, ref, flags, groups = c
    V_ = V()
    W = V_.W
    E = W.E
    op = W.op(len(args), sym)
    if op is None:
        return dict(n=0, undecided=f'no operator {sym}/{len(args)}')
    def build(a):
        if isinstance(a, tuple) and a and a[0] == 'rx':
            return W.inst(V_.st, PATTERN, K(a[1]), K(a[2]))
        if isinstance(a, list):
            return W.List(V_.st, [build(x) for x in a])
        return V_.build(a)
    E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(record('warn')(st), (st, NONE))[1]]
    E.inline_eq = True
    E.dropped = 0
    vals = [build(a) for a in args]
    res, raises = W.call('evaluate', V_.tree(op, *vals), st=V_.st.copy())
    what = (f'{show(args[0])} {sym} ' + ' '.join(map(show, args[1:]))) if len(args) > 1 else f'{sym} {show(args[0])}'
    key = f'{sym}/{len(args)}'
    if E.dropped or not res and not raises:
        return dict(n=0, undecided=f'{what}: no definite outcome')
    probs, und = [], None
    for _, x in raises:
        if not x[4]:
            probs.append((key + ':fails', f'{what} fails with {x[1].split(".")[-1]}'))
    for s, v in res:
        t = E.types(s, v)
        if t is None or len(t) > 1:
            und = f'{what}: result not known'
            continue
        if t != frozenset([PATTERN]):
            probs.append((key, f'{what} gives {show(plain(got_shape(V_, s, v)))}', f'it should give a pattern equivalent to `{ref}`'))
            continue
        # what it matches: the regular expression it compiles to
        r2, x2 = W.run('ptypes.Pattern.asRegex', [v], s.copy()) if E.find('ptypes.Pattern.asRegex') else ([], [])
        raw, fl = W.get(s, v, '_raw'), W.get(s, v, '_flags')
        rx = [rv for _, rv in r2]
        if raw is None or fl is None or raw[0] != 'K' or fl[0] != 'K' or len(rx) != 1 or rx[0][0] != 'Rx':
            und = f'{what}: pattern not known exactly'
            continue
        p = None
        try:
            n = re.compile(rx[0][1]).groups - 1
            d = lexdfa.differ(rx[0][1], (rx[0][2] or 0) & re.DOTALL, ref, flags & re.DOTALL)
        except lexdfa.Unsupported as e:
            und = f'{what}: {e}'
            continue
        except re.error as e:
            probs.append((key + ':invalid', f'{what} gives `{raw[2]}`, which is no valid pattern'))
            continue
        if d:
            p = (key, f'{what} gives `{raw[2]}`, which {"matches" if d[1] == 1 else "does not match"} {d[0]!r}', f'it should match what `{ref}` matches')
        elif (rx[0][2] or 0) & ~re.UNICODE != flags:
            p = (key + ':flags', f'{what} gives a pattern with flags {show(("rx", "", rx[0][2] or 0))[:-2] or "none"}', f'they should be {show(("rx", "", flags))[:-2] or "none"}')
        elif n != groups:
            p = (key + ':groups', f'{what} gives `{raw[2]}` with {n} capture groups', f'it should have {groups}')
        probs.append(p)
    bad = [p for p in probs if p]
    if bad and (len(bad) < len(probs) or und):
        return dict(n=len(probs), undecided=f'{what}: several outcomes: {bad[0][1]}')
    return dict(n=len(probs), bad=bad[:1], undecided=und)


def build_task(i):
    out, und, n = [], [], 0
    for c in H._build_batches[i]:
        r = check_build(c)
        n += r['n']
        out += r.get('bad', [])
        if r.get('undecided'):
            und.append(r['undecided'])
    return dict(bad=out, undecided=(f'{und[0]}' + (f' (and {len(und) - 1} more)' if len(und) > 1 else '')) if und else None, n=n)


@prop('C38')
def building(rep):
    rep.explanation = ('Every operator that builds a pattern from patterns, texts, numbers, ranges or lists is evaluated abstractly; the '
                       'regular expression the result compiles to is compared with the reference by building ordered automata: equal '
                       'matches in every text, same flags, same number of capture groups.')
    cs = list(build_cases(rep.thorough))
    n = max(1, len(cs) // 20)
    H._build_batches = [cs[i::n] for i in range(n)]
    collect(rep, build_task, range(n), 'groups of pattern expressions')
