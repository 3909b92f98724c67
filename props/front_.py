"""Front end: the operator and command tables (C02), grouping and statement shapes of the parser (C04), what the parser
accepts and how it fails (C05)."""
import os, json, itertools
import harness as H
from values import *
from engine_consts import *
from world import World
from . import prop
from .eval_ import collect

LANG = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa', 'language.json')))


# reference language ---------------------------------------------------------------------------------------------
class Op:
    def __init__(self, sym, arity, prec, assoc, default, flags):
        self.sym, self.arity, self.prec, self.assoc, self.default, self.flags = sym, arity, prec, assoc, default, flags


OPS = {1: {}, 2: {}, 3: {}}
for _p, (_a, _s, _es) in enumerate(LANG['levels']):
    for _e in _es:
        OPS[_a][_e[0]] = Op(_e[0], _a, _p, _s, _e[2], frozenset(_e[3]))
ASSIGN = OPS[2][':']
COMMANDS = {c[0]: c[2] for c in LANG['commands']}


class Incomplete(Exception):
    pass


class Bad(Exception):
    pass


class Ref:
    """Reference parser by precedence climbing, independent of how the parser under analysis rearranges its trees.
    Tokens are (kind, text); None ends the program. Trees: ('tok', kind, text) | ('op', text, arity, meta, children)."""

    def __init__(self, toks):
        self.t = list(toks) + [None]

    def at(self, text):
        return self.t[0] is not None and self.t[0][1] == text

    def program(self):
        out = []
        while self.t[0] is not None and not self.at('}'):
            out.append(self.statement())
        return ('prog', tuple(out))

    def statement(self):
        if self.t[0] is None:
            raise Incomplete
        if self.t[0][0] == 'Command':
            name = self.t.pop(0)[1]
            args = []
            for a in COMMANDS[name]:
                if a == 'ELSE':
                    if self.at('EL'):
                        self.t.pop(0)
                        args.append(self.block())
                    else:
                        args.append(('prog', ()))
                elif a == 'CODE':
                    args.append(self.block())
                elif a == 'LOOPVAR':
                    args.append(self.names())
                else:
                    args.append(self.expr())
            out = ('cmd', name, tuple(args))
        else:
            out = self.expr()
        self.semi()
        return out

    def semi(self):
        if self.at(';'):
            self.t.pop(0)

    def names(self):
        if self.t[0] is None:
            raise Incomplete
        if self.t[0][0] == 'Name':
            out = ('tok', 'Name', self.t.pop(0)[1])
        elif self.at('['):
            self.t.pop(0)
            xs = []
            while not self.at(']'):
                xs.append(self.names())
            self.t.pop(0)
            if not xs:
                raise Bad
            out = ('op', 'LIST', 1, (), tuple(xs))
        else:
            raise Bad
        self.semi()
        return out

    def block(self):
        if self.at('{'):
            self.t.pop(0)
            out = self.program()
            if self.t[0] is None:
                raise Incomplete
            self.t.pop(0)
            return out
        return ('prog', (self.statement(),))

    def binary(self):
        t = self.t[0]
        if t is None or t[0] != 'Operator':
            return None, None
        op = OPS[2].get(t[1]) or OPS[3].get(t[1])
        if op is None:
            return None, None
        n = self.t[1]
        return op, n is not None and n[1] == ':'

    def expr(self, minp=-1):
        left = self.operand()
        while True:
            op, assign = self.binary()
            if op is None:
                break
            prec, assoc = (ASSIGN.prec, ASSIGN.assoc) if assign else (op.prec, op.assoc)
            if prec < minp:
                break
            self.t.pop(0)
            meta = ()
            if assign:
                self.t.pop(0)
                meta = ('assign',)
            if assoc == 'C':
                right = self.expr2(prec + 1)
                o = ('op', op.sym, 2, (), None)
                if left[0] == 'op' and left[1] == 'CHAIN':
                    left = left[:4] + (left[4] + (o, right),)
                else:
                    left = ('op', 'CHAIN', 2, (), (left, o, right))
                continue
            mid = (self.expr(),) if op.arity == 3 else ()
            right = self.expr2(prec if assoc == 'R' else prec + 1)
            left = ('op', op.sym, op.arity, meta, (left,) + mid + (right,))
        if minp == -1:
            self.semi()
        return left

    def expr2(self, minp):
        return self.expr(max(minp, 0))

    def operand(self):
        t = self.t[0]
        if t is None:
            raise Incomplete
        k, x = t
        if k == 'Interpolated':
            self.t.pop(0)
            parts = x.split('|')
            xs = [('tok', 'EscapedString', '\\"' + parts[0] + '\\"')]
            for nm, lit in zip(parts[1::2], parts[2::2]):
                xs += [('op', 'ST', 1, (), (('tok', 'Name', nm),)), ('tok', 'EscapedString', '\\"' + lit + '\\"')]
            return ('op', 'PAREN', 1, (), (('op', 'J', 1, (), (('op', 'LIST', 1, (), tuple(xs)),)),))
        if k in ('Name', 'Number', 'String', 'Pattern', 'Char', 'EscapedString'):
            self.t.pop(0)
            return ('tok', k, x)
        if x == '(':
            self.t.pop(0)
            xs = []
            while not self.at(')'):
                if self.t[0] is None:
                    raise Incomplete
                xs.append(self.expr())
            self.t.pop(0)
            if not xs:
                return ('tok', 'Nil', '()')
            return ('op', 'PAREN' if len(xs) == 1 else 'SEND', 1, (), tuple(xs))
        if x == '[':
            self.t.pop(0)
            xs = []
            while not self.at(']'):
                if self.t[0] is None:
                    raise Incomplete
                xs.append(self.expr())
            self.t.pop(0)
            return ('op', 'LIST', 1, (), tuple(xs))
        if x == '{':
            return ('op', 'BLOCK', 1, (), (self.block(),))
        if k == 'Operator' and x in OPS[1] or x in ('$', '\\$'):
            self.t.pop(0)
            meta = []
            if x in ('$', '\\$'):
                n = self.t[0]
                if n is None:
                    raise Incomplete
                if n[0] != 'Operator' or n[1] not in OPS[2]:
                    raise Bad
                self.t.pop(0)
                op = OPS[2][n[1]]
                meta.append('fold' if x == '$' else 'scan')
            else:
                op = OPS[1][x]
            prec = op.prec
            if self.at('*'):
                self.t.pop(0)
                meta.append('map')
            if self.at(':'):
                self.t.pop(0)
                meta.append('assign')
                prec = ASSIGN.prec
            return ('op', op.sym, 1, tuple(sorted(meta)), (self.expr2(prec + 1),))
        raise Bad


def reference(toks):
    """('ok', tree, tokens left) | ('incomplete',) | ('bad',)"""
    r = Ref(toks)
    try:
        t = r.program()
        return ('ok', t, len(r.t))
    except Incomplete:
        return ('incomplete',)
    except Bad:
        return ('bad',)


# the parser under analysis ----------------------------------------------------------------------------------------
class Parser:
    def __init__(self):
        self.W = W = World()
        self.E = W.E
        W.E.concrete_while = 40
        W.E.reclimit = 14
        self.st0 = W.state()
        self.toks = {}

    def token(self, st, t):
        if t is None:
            return NONE
        k, x = t
        if k == 'Interpolated':
            p = x.split('|')
            x = '\\"' + p[0] + ''.join('\\' + a + b for a, b in zip(p[1::2], p[2::2])) + '\\"'
            k = 'EscapedString'
        return self.W.inst(st, 'tokens.' + k, K(x))

    def parse(self, toks, fn='parsing.parse'):
        """Outcomes [(('ok', tree, left) | ('incomplete',) | ('bad',) | ('other', text))], undecided reason."""
        W, E = self.W, self.E
        st = self.st0.copy()
        lst = E.newlist(st, [self.token(st, t) for t in toks] + [NONE])
        E.dropped = 0
        res, raises = W.run(fn, [lst], st)
        out = []
        for s, v in res:
            left = W.items(s, lst)
            out.append(('ok', ('prog', tuple(self.tree(s, x) for x in W.items(s, v))) if W.items(s, v) is not None else None,
                        None if left is None else len(left)))
        for s, x in raises:
            out.append(('incomplete',) if x[1].endswith('IncompleteSyntax') else ('bad',) if x[1].endswith('BadSyntax') else
                       ('other', x[1].split('.')[-1]))
        return out, 'paths cut off' if E.dropped else None

    def tree(self, st, v):
        W, E = self.W, self.E
        if v[0] == 'K' and v[2] is None:
            return ('none',)
        if v[0] != 'R':
            return ('?', W.show(st, v))
        o = E.obj(st, v)
        if o.kind == 'inst':
            t = o.fields.get('_text')
            text = t[2] if t is not None and t[0] == 'K' else W.show(st, t) if t is not None else '?'
            if o.cls == 'operators.Operator':
                return self.op(o, None)
            return ('tok', o.cls.split('.')[-1], text)
        it = W.items(st, v)
        if it is None:
            return ('?',)
        if not it:
            return ('prog', ())
        h = E.obj(st, it[0]) if it[0][0] == 'R' else None
        if h is not None and h.kind == 'inst' and h.cls == 'operators.Operator':
            return self.op(h, tuple(self.tree(st, x) for x in it[1:]))
        if h is not None and h.kind == 'inst' and h.cls == 'operators.Command':
            return ('cmd', h.fields['_text'][2], tuple(self.tree(st, x) for x in it[1:]))
        return ('prog', tuple(self.tree(st, x) for x in it))

    def op(self, o, children):
        f = o.fields
        g = lambda k: f[k][2] if k in f and f[k][0] == 'K' else '?'
        meta = tuple(sorted(m for m in ('assign', 'map', 'fold', 'scan') if g(m)))
        out = ('op', g('_text'), g('arity'), meta, children)
        if children and out[1] == 'BLOCK':
            ch = tuple(('prog', x[1]) if x[0] == 'prog' else ('prog', (x,)) if False else x for x in children)
            out = out[:4] + (ch,)
        return out


def text(toks):
    out = []
    for k, x in toks:
        if k == 'Interpolated':
            p = x.split('|')
            x = '\\"' + p[0] + ''.join('\\' + a + b for a, b in zip(p[1::2], p[2::2])) + '\\"'
        out.append(x)
    return ' '.join(out)


def showtree(t):
    if t is None:
        return '?'
    if t[0] == 'prog':
        return '{' + '; '.join(map(showtree, t[1])) + '}'
    if t[0] == 'cmd':
        return t[1] + ' ' + ' '.join(map(showtree, t[2]))
    if t[0] == 'op':
        m = ''.join({'assign': ':', 'map': '*', 'fold': '$', 'scan': '\\$'}[x] for x in t[3])
        return f'{t[1]}{m}' if t[4] is None else f'{t[1]}{m}(' + ', '.join(map(showtree, t[4])) + ')'
    return str(t[-1])


def showout(o):
    return {'ok': lambda: 'parses as ' + showtree(o[1]) + (f' leaving {o[2] - 1} tokens' if o[2] and o[2] > 1 else ''),
            'incomplete': lambda: 'is rejected as incomplete', 'bad': lambda: 'is rejected as bad syntax',
            'other': lambda: f'fails with {o[1]}'}[o[0]]()


def N(x):
    return ('Name', x)


def O(x):
    return ('Operator', x)


def S(x):
    return ('Symbol', x)


def C(x):
    return ('Command', x)


def compare(p, toks, rule):
    """One token sequence: [] when the parser does what the reference does; (key, text..) when not; str when undecided."""
    want = reference(toks)
    got, und = p.parse(toks)
    got = [g if want[0] != 'ok' or g[0] != 'ok' or g[2] is not None else g[:2] + (want[2],) for g in got]
    if want in got and len(got) > 1 or not got or und:
        return f'{text(toks)}: {und or "several outcomes"}'
    wrong = [g for g in got if g != want]
    if not wrong:
        return []
    if any('?' in repr(g) for g in wrong if g[0] == 'ok') and not any('?' in t[1] for t in toks):
        return f'{text(toks)}: tree not fully known'
    shape = ' '.join(x if k in ('Symbol', 'Command') else k for k, x in toks)
    return [(f'{rule}:{shape}', f'the program {text(toks) or "(empty)"} {showout(wrong[0])}', 'it should be: ' + showout(want))]


def sane():
    """The parser is reachable the way this check uses it."""
    try:
        p = Parser()
        for t in ([], [N('a')], [N('a'), N('b')]):
            got, und = p.parse(t)
            if und or [g[:2] for g in got] != [reference(t)[:2]]:
                return f'parser not usable as parse(token list): {text(t)!r} {[showout(g) for g in got]}'
    except Exception as e:
        return f'parser not usable as parse(token list): {e!r}'
    return None


def batch_task(task):
    rule, seqs = task
    p = Parser()
    bad, und, n = [], None, 0
    for toks in seqs:
        r = compare(p, toks, rule)
        n += 1
        if isinstance(r, str):
            und = und or r
        elif r:
            bad += r
            if len(bad) >= 4:
                break
    return dict(bad=bad, undecided=und, n=n)


def run_batches(rep, rule, seqs, size=250):
    why = sane()
    if why:
        rep.skip(why)
        return
    seqs = list(seqs)
    seqs = [(rule, seqs[i::max(1, len(seqs) // size)]) for i in range(max(1, len(seqs) // size))]
    import hashlib
    H._front_batches = seqs
    collect(rep, indexed, range(len(seqs)), 'groups of token sequences')


def indexed(i):
    return batch_task(H._front_batches[i])


def known_ops():
    """Reference operators that the tree under analysis has, at the same arities."""
    have = {(r.arity, r.symbol) for r in H.ctx().rows}
    return {a: [s for s in OPS[a] if (a, s) in have] for a in OPS}


def level_reps(known, arity):
    """One symbol per precedence level; prefer one that exists in this arity only."""
    out = {}
    for s in known[arity]:
        out.setdefault(OPS[arity][s].prec, []).append(s)
    other = {1: (2, 3), 2: (1,), 3: (1,)}[arity]
    return [sorted(v, key=lambda s: any(s in OPS[o] for o in other))[0] for _, v in sorted(out.items())]


@prop('C04')
def grouping(rep):
    rep.explanation = ('The parser is interpreted abstractly on expressions made of every operator in the table next to a '
                       'representative of every precedence level, in both orders, on triples of levels, under unary, ternary, '
                       'fold, scan, map and compute-and-assign forms; the tree must be the one that a precedence-climbing '
                       'reference gives for the reference table.')
    k = known_ops()
    b, u, t = k[2], k[1], k[3]
    br, ur = level_reps(k, 2), level_reps(k, 1)
    lead = lambda s: [] if s not in OPS[1] else []
    seqs = []
    A, B, C_, D = N('a'), N('b'), N('c'), N('d')
    for x in b:
        seqs += [[A, O(x), B], [A, O(x), O(':'), B]]
        for y in br:
            seqs += [[A, O(x), B, O(y), C_], [A, O(y), B, O(x), C_], [A, O(x), O(':'), B, O(y), C_],
                     [A, O(y), B, O(x), O(':'), C_]]
    for x, y, z in itertools.product(br, br, br):
        seqs.append([A, O(x), B, O(y), C_, O(z), D])
    for x in u:
        seqs += [[O(x), A], [O(x), O('*'), A], [O(x), O(':'), A], [O(x), O('*'), O(':'), A], [S('('), O(x), A, S(')')],
                 [O(x), O(x), A]]
        for y in br:
            seqs += [[O(x), A, O(y), B], [A, O(y), O(x), B], [O(x), O('*'), A, O(y), B], [O(x), O(':'), A, O(y), B]]
    for x in ur:
        for y, z in itertools.product(br, br):
            seqs += [[A, O(y), O(x), B, O(z), C_], [O(x), A, O(y), B, O(z), C_]]
        for y in ur:
            seqs += [[O(x), O(y), A], [O(x), O('*'), O(y), A, O('+'), B]]
    for x in b:
        for m in ('$', '\\$'):
            seqs += [[S(m), O(x), A], [S(m), O(x), O('*'), A], [S(m), O(x), O(':'), A], [S(m), O(x), A, O('+'), B],
                     [A, O(x), S(m), O(x), B]]
    for x in br:
        for m in ('$', '\\$'):
            for y in br:
                seqs += [[S(m), O(x), A, O(y), B], [S(m), O(x), O('*'), A, O(y), B], [S(m), O(x), O('*'), O(':'), A, O(y), B]]
    for q in t:
        seqs += [[A, O(q), B, C_], [A, O(q), B, C_, O(q), D, A], [A, O(q), B, O(q), C_, D, A], [A, O(q), B, S(';'), C_],
                 [A, O(q), O(':'), B, C_], [S('('), A, O(q), B, C_, S(')'), O('+'), D]]
        for x in br:
            seqs += [[A, O(x), B, O(q), C_, D], [A, O(q), B, O(x), C_, D], [A, O(q), B, C_, O(x), D]]
            for y in br:
                seqs.append([A, O(x), B, O(q), C_, D, O(y), A])
        for x in ur:
            seqs += [[O(x), A, O(q), B, C_], [A, O(q), O(x), B, S(';'), O(x), C_]]
    cmps = [s for s in b if OPS[2][s].assoc == 'C']
    for x, y in itertools.product(cmps, cmps):
        seqs += [[A, O(x), B, O(y), C_], [A, O(x), B, O(y), C_, O(x), D], [S('('), A, O(x), B, S(')'), O(y), C_],
                 [A, O(x), S('('), B, O(y), C_, S(')')]]
        for z in br:
            seqs += [[A, O(x), B, O(z), C_, O(y), D]]
    run_batches(rep, 'group', seqs)


def alphabet(small=False):
    k = known_ops()
    out = [N('x'), ('Number', '1'), S('('), S(')'), S('['), S(']'), S('{'), S('}'), S(';'), S('$'), S('EL'), C('I'), C('F'),
           C('WG'), O(':'), O('*'), O('!'), O('-'), O('?'), O('<'), N('y')]
    if small:
        return [t for t in out if t[0] != 'Operator' or t[1] in sum(k.values(), [])][:-1]
    out += [('String', '"s"'), ('Pattern', '`p`'), ('Char', "'c"), ('EscapedString', '\\"e\\"'), ('Interpolated', 'a|x|b|ZQ|'),
            S('\\$'), C('W'), C('L'), C('LR'), C('T'), O('+'), O('**'), O('::')]
    return [t for t in out if t[0] != 'Operator' or t[1] in sum(k.values(), [])]


@prop('C05')
def acceptance(rep):
    rep.explanation = ('The parser is interpreted abstractly on every sequence of up to three token kinds (four with '
                       '--thorough), and on every truncation and one-token change of a set of programs that use every '
                       'construct. On each: same verdict as the reference grammar (tree, incomplete or bad), never another '
                       'exception, never a read past the end marker.')
    al, sm = alphabet(), alphabet(True)
    seqs = [list(s) for n in range(3) for s in itertools.product(al, repeat=n)]
    seqs += [list(s) for s in itertools.product(sm, repeat=3)]
    if rep.thorough:
        seqs += [list(s) for s in itertools.product(sm, repeat=4)] + [list(s) for s in itertools.product(al, repeat=3)]
    A, B, X = N('x'), N('y'), N('z')
    progs = [
        [C('I'), A, S('{'), B, S('}'), S('EL'), C('I'), X, S('{'), S('}'), S('EL'), S('{'), A, S(';'), B, S('}')],
        [C('F'), S('['), A, S('['), B, X, S(']'), S(']'), S('['), A, B, S(']'), S('{'), O('-'), A, S(';'), O('!'), B, S('}')],
        [C('F'), A, S(';'), B, S('('), X, A, S(')')],
        [C('W'), A, O('<'), B, O('<'), X, S('{'), A, O('*'), O(':'), B, S('}')],
        [C('T'), A, C('L'), B, C('LR'), A, B, C('WG')],
        [S('{'), S('{'), A, S('}'), O('*'), S('{'), S('}'), S('}')],
        [S('('), S('{'), A, O('+'), B, S('}'), A, S('['), B, S(';'), O('-'), X, S(']'), S(')'), S(';'), B],
        [S('$'), O('*'), O('*'), S('['), A, B, S(']'), O('?'), S('('), S(')'), S(';'), S('['), S(']')],
        [A, O('?'), S('{'), B, S('}'), S('\\$'), O('-'), X, S(';'), O('!'), ('Interpolated', 'a|x|b|ZQ|')],
        [A, O(':'), B, O(':'), O('-'), O(':'), X, S(';'), S(';')],
        [S('('), A, S(';'), B, S(';'), S(')'), A, S(')')],
    ]
    for p in progs:
        for i in range(len(p) + 1):
            seqs.append(p[:i])
            for t in (sm if i < len(p) else []):
                seqs.append(p[:i] + [t] + p[i + 1:])
                if rep.thorough:
                    seqs.append(p[:i] + [t] + p[i:])
            seqs.append(p[:i] + p[i + 1:])
    seqs += [[('Interpolated', x)] for x in ('|x|', 'ab|ZQ|', '|_|b|Z|c', 'a|ZQ|X b', 'a|Q|bc', '|x|y', '|_|_', 'a|x||y|b', '%s|x|%')]
    seqs += [[S('{')] * n + [A] + [S('}')] * m for n in range(5) for m in range(5)]
    seen = set()
    seqs = [s for s in seqs if not (tuple(s) in seen or seen.add(tuple(s)))]
    run_batches(rep, 'accept', seqs)


@prop('C02')
def tables(rep):
    rep.explanation = ('The operator and command tables, as the module initialisation computes them, are compared with the '
                       'reference table: same operators, order of the precedence levels, associativity, fold default, operand '
                       'mode, itemwise mode and lambda building; each entry names a method of the interpreter that can be '
                       'called with exactly the operands the table promises.')
    c = H.ctx()
    E = c.E
    cls = E.classes.get(H.PS)
    if cls is None or not c.rows:
        rep.skip('operator table not found')
        return
    base = E.base_heap
    fld = lambda r, n: base[r.op[1]].fields.get(n)
    have = {(r.arity, r.symbol): r for r in c.rows}
    want = {(a, s): o for a in OPS for s, o in OPS[a].items()}
    byname = {(a, e[0]): e[1] for lev in LANG['levels'] for a in [lev[0]] for e in lev[2]}

    def val(v):
        if v is None:
            return '?'
        if v[0] == 'K':
            return v[2]
        if v[0] == 'R' and base.get(v[1]) is not None and base[v[1]].kind == 'list' and base[v[1]].elems == ():
            return []
        return '?'

    def callable_with(handler, n):
        m = E.clsattr(H.PS, handler)
        fi = E.fns.get(H.P + handler) or E.find(H.P + handler)
        if m is None and fi is None:
            return 'is not a method of the interpreter'
        if fi is None:
            return None
        a = fi.node.args
        need = len(a.args) + len(a.posonlyargs) - 1 - len(a.defaults)
        most = 99 if a.vararg else len(a.args) + len(a.posonlyargs) - 1
        if any(d is None for d in a.kw_defaults):
            return 'needs keyword arguments'
        if not need <= n <= most:
            return f'takes {need if need == most else f"{need} to {most}"} operands, but {n} are given to it'
        return None
    for key in sorted(want.keys() | have.keys()):
        a, s = key
        rep.count('operator entries')
        if key not in have:
            rep.bad(f'missing:{a}:{s}', f'operator {s} with {a} operand(s) is not in the table')
            continue
        r = have[key]
        why = callable_with(r.handler, a)
        if why:
            rep.bad(f'handler:{a}:{s}', f'operator {s} with {a} operand(s): {r.handler} {why}')
        if key not in want:
            continue   # a new operator
        w = want[key]
        for n in ('VALS', 'RVALS', 'LIST_EACH', 'RANGE_EACH', 'IN_LAMBDA'):
            if bool(c.has(r.flags, n)) != (n in w.flags):
                rep.bad(f'flag:{n}:{a}:{s}', f'operator {s} with {a} operand(s): {n} is {"off" if n in w.flags else "on"}')
        for f, x in (('associativity', w.assoc), ('default', w.default)):
            v = val(fld(r, f))
            if v != '?' and (v != x or type(v) is not type(x)):
                rep.bad(f'{f}:{a}:{s}', f'operator {s} with {a} operand(s): {f} is {v!r} instead of {x!r}')
        for m in ('assign', 'map', 'fold', 'scan'):
            if val(fld(r, m)) not in (False, '?'):
                rep.bad(f'{m}:{a}:{s}', f'operator {s} with {a} operand(s) has {m} set in the table')
        if r.handler != byname[key] and E.clsattr(H.PS, byname[key]) is not None:
            rep.bad(f'name:{a}:{s}', f'operator {s} with {a} operand(s) performs {r.handler} instead of {byname[key]}')
    # levels: same order
    for a in (1, 2, 3):
        for b in (1, 2, 3):
            pass
    ps = [(w.prec, val(fld(have[k], 'precedence')), k) for k, w in want.items() if k in have]
    if all(isinstance(p[1], (int, float)) for p in ps):
        levels = {}
        for p, q, k in ps:
            levels.setdefault(p, []).append((q, k))
        import collections as co
        mode = {p: co.Counter(q for q, _ in v).most_common(1)[0][0] for p, v in levels.items()}
        for p, v in levels.items():
            for q, k in v:
                if q != mode[p]:
                    rep.bad(f'level:{k[0]}:{k[1]}', f'operator {k[1]} with {k[0]} operand(s) is not on the precedence level of '
                            f'{", ".join(x[1] for y, x in v if y == mode[p])[:60]}')
        order = sorted(mode)
        for x, y in zip(order, order[1:]):
            if not mode[x] < mode[y]:
                f = lambda p: '/'.join(k[1] for _, k in levels[p][:4])
                rep.bad(f'order:{levels[x][0][1][1]}', f'operators {f(x)} do not bind less tightly than {f(y)}')
        top = max(mode.values())
        for r in c.pseudo:
            q = val(fld(r, 'precedence'))
            cm = next((val(fld(have[k], 'precedence')) for k, w in want.items() if w.assoc == 'C' and k in have), None)
            if r.symbol == 'CHAIN':
                if q != cm:
                    rep.bad('level:CHAIN', 'the chaining comparison does not have the precedence of the comparison operators')
            elif isinstance(q, int) and q < top:
                rep.bad(f'level:{r.symbol}', f'{r.symbol} does not bind most tightly')
    # commands
    cw = {x[0]: x for x in LANG['commands']}
    ch = {s: (h, o) for s, h, o in c.commands}
    for s in sorted(cw.keys() | ch.keys()):
        rep.count('command entries')
        if s not in ch:
            rep.bad(f'missing:command:{s}', f'command {s} is not in the table')
            continue
        h, o = ch[s]
        at = base[o[1]].fields.get('argtypes')
        args = [x[2] for x in base[at[1]].elems] if at is not None and at[0] == 'R' and base[at[1]].elems is not None else None
        if s in cw and args is not None and args != cw[s][2]:
            rep.bad(f'args:command:{s}', f'command {s} takes {args} instead of {cw[s][2]}')
        if args is not None:
            why = callable_with(h, len(args))
            if why:
                rep.bad(f'handler:command:{s}', f'command {s}: {h} {why}')
        if s in cw and h != cw[s][1] and E.clsattr(H.PS, cw[s][1]) is not None:
            rep.bad(f'name:command:{s}', f'command {s} performs {h} instead of {cw[s][1]}')
