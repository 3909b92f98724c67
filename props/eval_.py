"""Checks on the evaluator: order and number of operand evaluations, item-wise application, lambda building,
meta-operators, short-circuiting. Each runs `evaluate` abstractly on concrete tree shapes with symbolic operands; the
operator's handler is replaced by a recorder, so the obligation is about the evaluator for every operand value."""
import itertools
import harness as H
from harness import P
from values import *
from engine_consts import *
from engine import F0
from world import World, record, events
from . import prop


def recorder(W, handlers, markers, values, result=PIP):
    """Install recording intrinsics: evaluation of marker expressions and calls of operator handlers."""
    E = W.E

    def evaluate(E_, fi, args, kw, st, node):
        x = args[1] if len(args) > 1 else None
        if x in markers:
            i = markers.index(x)
            record('eval')(st, i)
            return [(st, values[i])]
        return None

    def getRval(E_, fi, args, kw, st, node):
        x = args[1] if len(args) > 1 else None
        if x in markers:
            i = markers.index(x)
            record('eval')(st, i)
            v = values[i]
            if E_.types(st, v) == frozenset([LVAL]):
                return None if False else getlval(E_, fi, [args[0], v], kw, st, node)
            return [(st, v)]
        return None

    def getlval(E_, fi, args, kw, st, node):
        fi2 = E_.find(P + 'getRval')
        h = E_.intrinsics.pop(P + 'getRval')
        try:
            return E_.call_fn(fi2, args, kw, st, node)
        finally:
            E_.intrinsics[P + 'getRval'] = h

    def handler(E_, fi, args, kw, st, node):
        if len(E_.fstack) and E_.fstack[-1].qual.startswith(P) and E_.fstack[-1].name in handlers_direct:
            return None
        n = sum(1 for e in events(st) if e[0] == 'apply')
        r = result(st, n) if callable(result) else E_.leaf(st, f'result{n}', result, fresh=True)
        record('apply')(st, fi.name, tuple(args[1:]), r)
        return [(st, r)]
    handlers_direct = ()
    E.intrinsics[P + 'evaluate'] = evaluate
    E.intrinsics[P + 'getRval'] = getRval
    for h in handlers:
        E.intrinsics[P + h] = handler


def evs(W, st):
    out = []
    for e in events(st):
        if e[0] == 'apply':
            out.append(f"{e[1]}({', '.join(W.show(st, a) for a in e[2])})")
        else:
            out.append(f'evaluate operand {e[1] + 1}')
    return '; '.join(out) or 'nothing'


def rows(c):
    seen = set()
    for r in c.rows + c.pseudo:
        k = (r.handler, r.arity, r.flags)
        if k not in seen:
            seen.add(k)
            yield r


def order_row(i):
    """Every operand of the operator is evaluated exactly once, left to right, before the operation is applied to the
    results in the same positions; an operator without evaluation flags gets its operands unevaluated."""
    c = H.ctx()
    r = H.get_row(i)
    out, n = [], 0
    vals = c.has(r.flags, 'VALS') or c.has(r.flags, 'RVALS')
    arities = [r.arity] if r.handler not in ('LIST', 'SEND', 'CHAIN') else [1, 2, 3]
    if r.handler == 'CHAIN':
        arities = [3]
    for k in arities:
        W = World()
        E = W.E
        st = W.state()
        ms = [W.name(st, f'x{j}') for j in range(k)]
        vs = [W.sym(st, f'value{j}', SCALAR) for j in range(k)]
        if r.handler == 'CHAIN':
            ms[1] = W.op(2, '<') or ms[1]
            vs[1] = ms[1]
        recorder(W, {r.handler}, ms, vs)
        tree = W.plist(st, [r.op] + ms)
        res, raises = W.call('evaluate', tree, st=st)
        no = nores(W, res, raises, f'operator {r}', f'{r.handler}/{r.arity}')
        if no:
            return no
        for s, v in res:
            n += 1
            ev = [e for e in events(s)]
            want = [('eval', j) for j in range(k)] if vals else []
            got = [e[:2] for e in ev if e[0] == 'eval']
            ap = [e for e in ev if e[0] == 'apply']
            if got != want:
                out.append((f'order:{r.handler}/{r.arity}', f'operator {r}: operands are not evaluated exactly once from left '
                            'to right', evs(W, s)))
            elif len(ap) != 1 or ev[-1][0] != 'apply':
                out.append((f'apply:{r.handler}/{r.arity}', f'operator {r}: the operation is not performed exactly once after '
                            'its operands are evaluated', evs(W, s)))
            elif list(ap[0][2]) != (vs if vals else ms):
                out.append((f'operands:{r.handler}/{r.arity}', f'operator {r}: applied to something other than its operands in order',
                            evs(W, s)))
            elif v != ap[0][3]:
                out.append((f'result:{r.handler}/{r.arity}', f'operator {r}: the value of the expression is not the result of the '
                            'operation', W.show(s, v)))
    return dict(bad=out, n=n)


def nores(W, res, raises, what, key):
    """Violations / undecided outcome for an evaluation that has no result or can fail; None when fine."""
    hard = [x for s, x in raises if not x[4]]
    if hard and not W.E.dropped:
        x = hard[0]
        return dict(bad=[(f'fails:{key}', f'{what} fails with {x[1].split(".")[-1]} ({x[3][3] or x[2]}) raised at {x[3][1]} line {x[3][2]}')], n=1)
    if not res or W.E.dropped:
        return dict(undecided=f'{what}: evaluation has no result', n=0)
    return None


def collect(rep, f, tasks, what):
    for t, r, err, dt in H.pmap(f, tasks):
        if err:
            rep.skip(f'{t}: {err.splitlines()[-1]}')
            continue
        rep.count(what)
        rep.count('paths', r.get('n', 0))
        if r.get('undecided'):
            rep.skip(r['undecided'])
        for b in r.get('bad', ()):
            rep.bad(*b)


@prop('C10')
def order(rep):
    rep.explanation = ('For every row of the operator table the evaluator is run abstractly on a tree of that operator with '
                       'opaque operands; the recorded history on every path must be: each operand once, left to right, then one '
                       'application to those values, whose result is returned.')
    collect(rep, order_row, H.row_list(), 'operators')
    for f in (short_circuit, chains):
        f(rep)


def chains(rep):
    """a<b<c compares neighbours from left to right and stops at the first false comparison."""
    c = H.ctx()
    row = next((r for r in c.pseudo if r.handler == 'CHAIN'), None)
    cmps = [r for r in c.rows if W0(c, r)]
    if row is None or not cmps:
        rep.skip('no chaining operator')
        return
    for r in cmps:
        for k in (2, 3, 4):
            W = World()
            E = W.E
            st = W.state()
            xs = [W.sym(st, f'x{j + 1}', SCALAR) for j in range(k)]
            tree = [row.op, xs[0]]
            for x in xs[1:]:
                tree += [r.op, x]
            recorder(W, {r.handler}, [], [], frozenset([SCALAR]))
            result_truth(W)
            res, raises = W.call('evaluate', W.plist(st, tree), st=st)
            rep.count('chains')
            no = nores(W, res, raises, f'chain of {k} operands of {r}', f'chain:{r.handler}')
            for b in (no or {}).get('bad', ()):
                rep.bad(*b)
            if no and 'undecided' in no:
                rep.skip(no['undecided'])
            for s, v in res if not no else ():
                rep.count('paths')
                ap, rs = applied(s), results(s)
                pairs = list(zip(xs, xs[1:]))
                if not ap or ap != pairs[:len(ap)]:
                    rep.bad('chain-order', f'a chain of {k} operands of operator {r} does not compare neighbours from left to right',
                            evs(W, s))
                elif len(ap) < len(pairs) and s.mon.get(('truth', rs[-1])) is not False:
                    rep.bad('chain-early', f'a chain of {k} operands of operator {r} stops although the comparison was true', evs(W, s))
                elif any(s.mon.get(('truth', q)) is not True for q in rs[:-1]):
                    rep.bad('chain-late', f'a chain of {k} operands of operator {r} goes on although a comparison was false', evs(W, s))
                elif not W.same(s, v, rs[-1]):
                    rep.bad('chain-result', f'the value of a chain of operator {r} is not that of its last comparison', W.show(s, v))


# ---------------------------------------------------------------- short-circuit operators
def truthy(st, E, v):
    """Truth of v decided on this path: True, False or None."""
    return st.mon.get(('truth', v))


def truth_recorder(W):
    """Make the truth of an opaque value a recorded path decision."""
    def h(E, fi, args, kw, st, node):
        v = args[0]
        if v[0] != 'S' or v[1][0] != 'p':
            return None
        t = st.mon.get(('truth', v))
        if t is not None:
            return [(st, K(t))]
        a, b = st, st.copy()
        a.mon[('truth', v)] = True
        record('test')(a, v)
        b.mon[('truth', v)] = False
        record('test')(b, v)
        return [(a, K(True)), (b, K(False))]
    W.E.intrinsics['*.__bool__'] = h


SHORT = {'AND': 2, 'OR': 2, 'IFTE': 3, 'RVALAND': 2, 'RVALOR': 2, 'RVALIFTE': 3}


def short_circuit(rep):
    c = H.ctx()
    for r in rows(c):
        if r.handler not in SHORT or SHORT[r.handler] != r.arity:
            continue
        W = World()
        E = W.E
        st = W.state()
        k = r.arity
        vs = [W.sym(st, f'value{j}', SCALAR) for j in range(k)]
        lazy = not (c.has(r.flags, 'VALS') or c.has(r.flags, 'RVALS'))
        ms = [W.name(st, f'x{j}') for j in range(k)] if lazy else list(vs)
        recorder(W, (), ms if lazy else [], vs)
        truth_recorder(W)
        res, raises = W.call(r.handler, *ms, st=st)
        rep.count('short-circuit operators')
        if E.dropped:
            rep.skip(f'{r}: paths dropped')
        for s, v in res:
            rep.count('paths')
            t = truthy(s, E, vs[0])
            base = r.handler.replace('RVAL', '')
            if t is None:
                rep.bad(f'untested:{r.handler}', f'operator {r}: a result is chosen without testing the first operand', evs2(W, s))
                continue
            if base == 'AND':
                pick = 1 if t else 0
            elif base == 'OR':
                pick = 0 if t else 1
            else:
                pick = 1 if t else 2
            need = sorted({0, pick})
            got = [e[1] for e in events(s) if e[0] == 'eval']
            if lazy and got != need:
                rep.bad(f'short-circuit:{r.handler}', f'operator {r}: with the first operand {"true" if t else "false"}, the operands '
                        f'evaluated are {[g + 1 for g in got]} instead of {[g + 1 for g in need]}', evs2(W, s))
            elif not W.same(s, v, vs[pick]):
                rep.bad(f'short-circuit-value:{r.handler}', f'operator {r}: with the first operand {"true" if t else "false"} the value '
                        f'is not that of operand {pick + 1}', W.show(s, v))


def evs2(W, st):
    return '; '.join(f'evaluate operand {e[1] + 1}' if e[0] == 'eval' else f'test {W.show(st, e[1])}' for e in events(st))


# ---------------------------------------------------------------- item-wise operators (C26)
SHAPES = ['s', [], ['s'], ['s', 's'], [['s'], 's'], [[], ['s', 's']], 'r', 'i', ['r', 's']]
SHAPES_T = SHAPES + [['s', 's', 's'], [[['s']]], ['s', ['s', 's'], []], [[], 'r', 's']]


def has_inf(shape):
    return shape == 'i'


def const_slices(W):
    """Slices of Ranges with known bounds (the arithmetic of slicing is not the subject here)."""
    def f(E, fi, args, kw, st, node):
        o = E.obj(st, args[0]) if args[0][0] == 'R' else None
        i = args[1] if len(args) > 1 else NONE
        if o is None or o.kind != 'inst' or i[0] != 'Sl' or not all(x[0] == 'K' for x in i[1:]):
            return None
        lo, hi = o.fields.get('_lower'), o.fields.get('_upper')
        if lo is None or hi is None or lo[0] != 'K' or hi[0] != 'K' or hi[2] is None:
            return None
        r = range(lo[2] or 0, hi[2])[slice(*[x[2] for x in i[1:]])]
        return [(st, W.inst(st, RANGE, K(r.start), K(r.stop)))]
    W.E.intrinsics[RANGE + '.__getitem__'] = f


def build(W, st, shape, name, n):
    """A value of this shape with opaque scalars at its leaves; n is a counter list."""
    if shape == 's':
        n[0] += 1
        return W.sym(st, f'{name}{n[0]}', SCALAR)
    if shape == 'r':
        n[0] += 2
        return W.inst(st, RANGE, K(n[0]), K(n[0] + 2))
    if shape == 'i':
        return W.inst(st, RANGE, K(3), W.inst(st, NIL))
    return W.List(st, [build(W, st, s, name, n) for s in shape])


class Rng(list):
    """A range operand: its items where the operator works item-wise on ranges."""
    value = None
    inf = False


def broadcast(shapes, vals, log):
    """The reference meaning: application order into log, result structure. vals: nested lists / opaque values."""
    def app(*xs):
        log.append(xs)
        return ('res', len(log) - 1)
    if len(vals) == 1:
        v = vals[0]
        if isinstance(v, list):
            return [broadcast(None, [x], log) for x in v]
        return app(v)
    a, b = vals
    if isinstance(a, list) and isinstance(b, list):
        r = [broadcast(None, [x, y], log) for x, y in zip(a, b)]
        k = len(r)
        if getattr(a, 'inf', False) or getattr(b, 'inf', False):
            return r
        return r + a[k:] + b[k:]
    if isinstance(a, list):
        return [broadcast(None, [x, b], log) for x in a]
    if isinstance(b, list):
        return [broadcast(None, [a, y], log) for y in b]
    return app(a, b)


def nest(W, st, v, each=False):
    it = W.items(st, v) if v[0] == 'R' and W.E.types(st, v) == frozenset([LIST]) else None
    if it is None and W.E.types(st, v) == frozenset([RANGE]) and each and v[0] == 'R':
        lo, hi = W.get(st, v, '_lower'), W.get(st, v, '_upper')
        r = Rng()
        r.inf = hi[2] is None
        r[:] = [('num', str(i)) for i in
                range(lo[2], hi[2] if not r.inf else lo[2] + 6)]
        return r
    return v if it is None else [nest(W, st, x, each) for x in it]


def show_nest(W, st, v):
    if isinstance(v, tuple) and v[0] == 'num':
        return v[1]
    return '[' + ', '.join(show_nest(W, st, x) for x in v) + (', ...]' if getattr(v, 'inf', 0) else ']') \
        if isinstance(v, list) else W.show(st, v)


def broadcast_row(task):
    i, shapes_all = task
    c = H.ctx()
    r = H.get_row(i)
    if not c.has(r.flags, 'LIST_EACH') or r.arity > 2:
        return dict(n=0)
    out, n = [], 0
    combos = [(s,) for s in shapes_all] if r.arity == 1 else list(itertools.product(shapes_all, repeat=2))
    each = c.has(r.flags, 'RANGE_EACH')
    for shapes in combos:
        if each and 'i' in shapes and not (len(shapes) == 2 and isinstance(shapes[1 - shapes.index('i')], list)):
            continue        # infinitely many applications
        W = World()
        const_slices(W)
        W.E.inf_prefix = 6
        E = W.E
        st = W.state()
        cnt = [0]
        vs = [build(W, st, s, 'xy'[j], cnt) for j, s in enumerate(shapes)]
        recorder(W, {r.handler}, [], [], frozenset([SCALAR]))
        before = [nest(W, st, v, each) for v in vs]
        log = []
        want = broadcast(shapes, before, log)
        res, raises = W.call('evaluate', W.plist(st, [r.op] + vs), st=st)
        if not res and not raises or E.dropped:
            return dict(undecided=f'{r}: evaluation has no result', n=n)
        desc = f'operands {", ".join(show_nest(W, st, b) for b in before)}'
        for x in raises:
            if not x[1][4]:
                out.append((f'raise:{r.handler}/{r.arity}', f'operator {r}: item-wise application fails with {x[1][1]}', desc))
        for s, v in res:
            n += 1
            ap = [e for e in events(s) if e[0] == 'apply']

            def match(w, v):
                if isinstance(w, tuple) and w[0] == 'num':
                    t = W.get(s, v, '_value')
                    return t is not None and t == K(w[1]) and W.E.types(s, v) == frozenset([SCALAR])
                if isinstance(w, Rng) and W.E.types(s, v) == frozenset([RANGE]):
                    return nest(W, s, v, True) == w
                if isinstance(w, list):
                    it = W.items(s, v)
                    if it is None or W.E.types(s, v) != frozenset([LIST]):
                        return False
                    return len(it) == len(w) and all(match(p, q) for p, q in zip(w, it))
                if w[0] == 'res':
                    return w[1] < len(ap) and W.same(s, v, ap[w[1]][3])
                return W.same(s, v, w)
            if len(ap) != len(log) or not all(len(e[2]) == len(x) and all(map(match, x, e[2])) for e, x in zip(ap, log)):
                out.append((f'items:{r.handler}/{r.arity}', f'operator {r} is not applied to the corresponding items of its list '
                            'operands, in order', desc, 'applied: ' + (evs(W, s)),
                            'expected: ' + '; '.join(', '.join(show_nest(W, s, a) for a in x) for x in log)))
            elif not match(want, v):
                out.append((f'shape:{r.handler}/{r.arity}', f'operator {r}: the result is not the list of the item results (with the '
                            'remaining items of the longer list)', desc, 'result: ' + W.show(s, v)))
            elif [nest(W, s, v, each) for v in vs] != before:
                out.append((f'operand:{r.handler}/{r.arity}', f'operator {r}: item-wise application modifies an operand list', desc))
    return dict(bad=out, n=n)


@prop('C26')
def itemwise(rep):
    rep.explanation = ('For every operator with an item-wise flag the evaluator is run abstractly on operands of every shape in a '
                       'set of nested list shapes with opaque leaves; applications (operands, order) and the result structure '
                       'must equal those of the reference definition on every path.')
    shapes = SHAPES_T if rep.thorough else SHAPES
    collect(rep, broadcast_row, [(i, shapes) for i in H.row_list()], 'operators')


# ---------------------------------------------------------------- operators applied to functions (C25)
def parts_of(W, st, tree):
    return W.items(st, tree) if tree is not None and W.E.types(st, tree) == frozenset(['list']) else None


def same_op(W, st, v, op):
    return v == op or bool(W.same(st, v, op))


def lambda_row(i):
    c = H.ctx()
    r = H.get_row(i)
    if not c.has(r.flags, 'IN_LAMBDA'):
        return dict(n=0)
    out, n = [], 0
    chain = r.handler == 'CHAIN'
    k = 3 if chain else r.arity
    pos = [0, 2] if chain else range(k)
    cmp_op = next((x.op for x in c.rows if x.op is not None and W0(c, x)), None) if chain else None
    vals = not c.has(r.flags, 'RVALS')
    kinds = ['block', 'scalar', 'list'] + (['var-block', 'var-scalar'] if vals else [])
    for combo in itertools.product(kinds, repeat=len(pos)):
        if not any('block' in x for x in combo):
            continue
        W = World()
        E = W.E
        st = W.state()
        args, want_stmts, want_expr, blocks = [], [], [], []
        for j in range(k):
            if j not in pos:
                args.append(cmp_op)
                want_expr.append(cmp_op)
                continue
            kind = combo[list(pos).index(j)]
            if kind.endswith('block'):
                ss = [W.name(st, f'statement{j}{m}') for m in range(2)]
                e = W.plist(st, [W.name(st, f'expr{j}'), W.name(st, f'expr{j}x')])
                b = W.inst(st, BLOCK, W.plist(st, ss), e)
                blocks.append((b, list(ss), e, W.items(st, e)))
                want_stmts += ss
                want_expr.append(e)
                v = b
            elif kind.endswith('scalar'):
                v = W.sym(st, f'value{j}', SCALAR)
                want_expr.append(v)
            else:
                v = W.List(st, [W.sym(st, f'item{j}', SCALAR)])
                want_expr.append(v)
            if kind.startswith('var'):
                W.setvar(st, f'z{j}', v, local=False)
                v = W.lval(st, f'z{j}')
            args.append(v)
        recorder(W, {r.handler}, [], [])
        res, raises = W.call('evaluate', W.plist(st, [r.op] + args), st=st)
        no = nores(W, res, raises, f'operator {r} applied to a function', f'{r.handler}/{r.arity}')
        if no:
            return no
        desc = f'operands: {", ".join(combo)}'
        for s, v in res:
            n += 1
            ap = [e for e in events(s) if e[0] == 'apply']
            if E.types(s, v) != frozenset([BLOCK]) or v[0] != 'R':
                out.append((f'lambda:{r.handler}/{r.arity}', f'operator {r} applied to a function does not give a function', desc,
                            'result: ' + W.show(s, v)))
                continue
            if ap:
                out.append((f'lambda-applied:{r.handler}/{r.arity}', f'operator {r} applied to a function performs the operation '
                            'instead of building a function', desc))
                continue
            stm = parts_of(W, s, W.get(s, v, '_statements'))
            ex = parts_of(W, s, W.get(s, v, '_returnExpr'))
            if stm is None or ex is None:
                return dict(undecided=f'{r}: the function built has an unrecognised shape', n=n)
            if stm != want_stmts:
                out.append((f'lambda-statements:{r.handler}/{r.arity}', f'operator {r} applied to functions: the statements of the '
                            'function built are not those of the operands, in order', desc, 'statements: ' +
                            ', '.join(W.show(s, x) for x in stm)))
            elif len(ex) != k + 1 or not same_op(W, s, ex[0], r.op) or \
                    not all(W.same(s, a, b) for a, b in zip(ex[1:], want_expr)):
                out.append((f'lambda-expr:{r.handler}/{r.arity}', f'operator {r} applied to functions: the function built does not '
                            'compute this operator of the operands, in order', desc, 'expression: ' + W.show(s, W.get(s, v, '_returnExpr')),
                            'expected: ' + ', '.join(W.show(s, x) for x in [r.op] + want_expr)))
            for b, ss, e, ei in blocks:
                if W.items(s, W.get(s, b, '_statements')) != ss or W.get(s, b, '_returnExpr') != e or W.items(s, e) != ei:
                    out.append((f'lambda-operand:{r.handler}/{r.arity}', f'operator {r} applied to a function modifies that function',
                                desc))
    return dict(bad=out, n=n)


def W0(c, row):
    return row.arity == 2 and row.op is not None and c.E.base_heap[row.op[1]].fields.get('associativity') == K('C')


def meta_block(rep):
    """A meta-operator applied to a function gives a function applying it to that function's result."""
    c = H.ctx()
    for r in c.rows:
        for meta, meth, ar in (('fold', 'FOLDMETA', 2), ('scan', 'SCANMETA', 2), ('map', 'MAPMETA', 1)):
            if r.arity != ar:
                continue
            W = World()
            E = W.E
            st = W.state()
            op = W.copy_op(st, r.op, **{meta: True})
            ss = [W.name(st, f'statement{m}') for m in range(2)]
            e = W.plist(st, [W.name(st, 'expr'), W.name(st, 'exprx')])
            b = W.inst(st, BLOCK, W.plist(st, ss), e)
            recorder(W, {r.handler}, [], [])
            res, raises = W.call('evaluate', W.plist(st, [op, b]), st=st)
            rep.count('meta-operators')
            if not res or E.dropped:
                rep.skip(f'{meta} {r}: no result')
            for s, v in res:
                rep.count('paths')
                stm = parts_of(W, s, W.get(s, v, '_statements')) if v[0] == 'R' else None
                ex = parts_of(W, s, W.get(s, v, '_returnExpr')) if v[0] == 'R' else None
                if E.types(s, v) != frozenset([BLOCK]) or stm != ss or ex is None or len(ex) != 2 or \
                        not same_op(W, s, ex[0], op) or ex[1] != e:
                    rep.bad(f'meta-lambda:{meta}', f'{meta} of operator {r} applied to a function does not give a function with the '
                            'same statements that applies it to the result', W.show(s, v))


@prop('C25')
def lambdas(rep):
    rep.explanation = ('For every operator usable in lambda expressions the evaluator is run abstractly on every combination of '
                       'function and non-function operands (opaque statements and expressions): the result must be a function '
                       'with the concatenated statements and this operator over the operands\' expressions; operand functions '
                       'unchanged. Fold, scan and map of every operator applied to a function likewise.')
    collect(rep, lambda_row, H.row_list(), 'operators')
    meta_block(rep)


# ---------------------------------------------------------------- meta-operators (C23)
def result_truth(W):
    """Record the truth tests of results of recorded applications."""
    def h(E, fi, args, kw, st, node):
        v = args[0]
        if not any(e[0] == 'apply' and e[3] == v for e in events(st)):
            return None
        t = st.mon.get(('truth', v))
        if t is not None:
            return [(st, K(t))]
        a, b = st, st.copy()
        a.mon[('truth', v)] = True
        b.mon[('truth', v)] = False
        return [(a, K(True)), (b, K(False))]
    W.E.intrinsics['*.__bool__'] = h


def applied(st):
    return [tuple(e[2]) for e in events(st) if e[0] == 'apply']


def results(st):
    return [e[3] for e in events(st) if e[0] == 'apply']


def scalar_text(W, st, v):
    return W.get(st, v, '_value') if v[0] == 'R' and W.E.types(st, v) == frozenset([SCALAR]) else None


def op_fields(W, st, op):
    return dict(W.E.obj(st, op).fields)


def is_default(W, st, v, d):
    if d is None or d == NONE:
        return W.E.types(st, v) == frozenset([NIL])
    if d[0] == 'K':
        return scalar_text(W, st, v) == K(str(d[2]))
    it = W.items(st, v)
    return it == [] and W.E.types(st, v) == frozenset([LIST])


def fold_row(task):
    i, meta, size, kind = task
    c = H.ctx()
    r = H.get_row(i)
    if r.arity != (1 if meta == 'map' else 2) or r in c.pseudo:
        return dict(n=0)
    f = c.E.base_heap[r.op[1]].fields
    assoc, default = f['associativity'][2], f['default']
    flags = c.has(r.flags, 'VALS') or c.has(r.flags, 'RVALS')
    W = World()
    E = W.E
    st = W.state()
    if kind == 'range':
        lst = W.inst(st, RANGE, K(2), K(2 + size))
        xs = [W.inst(st, SCALAR, K(str(2 + j))) for j in range(size)]
    elif kind == 'text':
        lst = W.inst(st, SCALAR, K('pqrstuv'[:size]))
        xs = [W.inst(st, SCALAR, K('pqrstuv'[j])) for j in range(size)]
    elif kind == 'infinite':
        lst = W.inst(st, RANGE, K(2), W.inst(st, NIL))
        xs = []
    else:
        xs = [W.sym(st, f'x{j + 1}', SCALAR) for j in range(size)]
        lst = W.List(st, xs)
    lst0 = W.show(st, lst)
    arg = W.name(st, 'operand')
    op = W.copy_op(st, r.op, **{meta: True})
    recorder(W, {r.handler}, [arg], [lst], frozenset([SCALAR]))
    result_truth(W)
    op0, op1 = op_fields(W, st, op), op_fields(W, st, r.op)
    res, raises = W.call('evaluate', W.plist(st, [op, arg]), st=st)
    no = nores(W, res, raises, f'{meta} of operator {r} over {size} items', f'{meta}:{assoc}:{size}')
    if no:
        return no
    out, n = [], 0
    what = f'{meta} of operator {r} over ' + ('an infinite range' if kind == 'infinite' else lst0)
    pairs = list(zip(xs, xs[1:]))

    def eqp(s, p, q):
        return len(p) == len(q) and all(W.same(s, a, b) for a, b in zip(p, q))

    def bad(rule, text, s, v):
        out.append((f'{meta}-{rule}:{assoc}:{size}', f'{what}: {text}', 'applied: ' + evs(W, s), 'result: ' + W.show(s, v)))
    for s, v in res:
        n += 1
        if [e[1] for e in events(s) if e[0] == 'eval'] != [0]:
            bad('operand', 'the operand is not evaluated exactly once', s, v)
            continue
        ap, rs = applied(s), results(s)
        if op_fields(W, s, op) != op0 or op_fields(W, s, r.op) != op1:
            bad('operator', 'the operator in the parse tree is modified', s, v)
        if kind == 'list' and W.items(s, lst) != xs:
            bad('mutates', 'the operand list is modified', s, v)
        if meta == 'map':
            it = W.items(s, v)
            if len(ap) != size or not all(eqp(s, p, (x,)) for p, x in zip(ap, xs)):
                bad('items', 'not applied once to each item in order', s, v)
            elif it is None or len(it) != size or not all(W.same(s, a, b) for a, b in zip(it, rs)):
                bad('result', 'the result is not the list of the results', s, v)
            continue
        if kind == 'infinite':
            if ap or E.types(s, v) != frozenset([NIL]):
                bad('infinite', 'the result is not nil', s, v)
            continue
        if size == 0:
            if ap:
                bad('empty', 'the operator is applied', s, v)
            elif meta == 'fold' and not is_default(W, s, v, default):
                bad('default', 'the result is not the operator\'s default value', s, v)
            elif meta == 'scan' and W.items(s, v) != []:
                bad('empty', 'the result is not an empty list', s, v)
            continue
        if assoc in ('L', 'R'):
            order = xs if assoc == 'L' else xs[::-1]
            acc, want, ok = order[0], [order[0]], True
            if len(ap) != size - 1:
                bad('count', f'applied {len(ap)} times instead of {size - 1}', s, v)
                continue
            for j, x in enumerate(order[1:]):
                pair = (acc, x) if assoc == 'L' else (x, acc)
                if len(ap[j]) != 2 or not all(W.same(s, p, q) for p, q in zip(pair, ap[j])):
                    ok = False
                    break
                acc = rs[j]
                want.append(acc)
            if not ok:
                bad('operands', f'not a {"left" if assoc == "L" else "right"} {meta}: application {j + 1} has other operands', s, v)
                continue
            if meta == 'fold':
                if not W.same(s, v, acc):
                    bad('result', 'the result is not that of the last application', s, v)
            else:
                want = want if assoc == 'L' else want[::-1]
                it = W.items(s, v)
                if it is None or len(it) != size or not all(W.same(s, a, b) for a, b in zip(it, want)):
                    bad('result', 'the result is not the list of the partial results', s, v)
        else:
            if any(not any(eqp(s, p, q) for q in pairs) for p in ap):
                bad('pairs', 'compares items that are not neighbours', s, v)
                continue
            if meta == 'fold':
                if size == 1:
                    if ap or scalar_text(W, s, v) != K('1'):
                        bad('single', 'the fold of one item is not 1', s, v)
                    continue
                if not ap or not all(eqp(s, p, q) for p, q in zip(ap, pairs)) or len(ap) > len(pairs):
                    bad('order', 'neighbours are not compared from left to right', s, v)
                elif len(ap) < len(pairs) and s.mon.get(('truth', rs[-1])) is not False:
                    bad('early', 'stops although the comparison was true', s, v)
                elif any(s.mon.get(('truth', q)) is not True for q in rs[:-1]):
                    bad('late', 'goes on although a comparison was false', s, v)
                elif not W.same(s, v, rs[-1]):
                    bad('result', 'the result is not that of the last comparison', s, v)
            else:
                it = W.items(s, v)
                if it is None or len(it) != size or scalar_text(W, s, it[0]) != K('1') or \
                        not all(any(W.same(s, a, q) for q in rs) for a in it[1:]):
                    bad('result', 'the result is not the list of the results of the leading chains', s, v)
    return dict(bad=out, n=n)


def assign_row(task):
    i, sliced = task
    c = H.ctx()
    r = H.get_row(i)
    if r in c.pseudo or r.handler in ('ASSIGN', 'SWAP'):
        return dict(n=0)
    k = r.arity
    flags = c.has(r.flags, 'VALS') or c.has(r.flags, 'RVALS')
    W = World()
    E = W.E
    st = W.state()
    ms = [W.name(st, f'operand{j}') for j in range(k)]
    old = W.sym(st, 'old', SCALAR)
    x = W.sym(st, 'item', SCALAR)
    other = W.sym(st, 'other', SCALAR)
    W.setvar(st, 'zz', W.List(st, [x, other]) if sliced else old, local=False)
    lv = W.lval(st, 'zz')
    if sliced:
        lv = W.inst(st, LVAL, lv, K(0))
        old = x
    vs = [lv] + [W.sym(st, f'value{j}', SCALAR) for j in range(1, k)]
    op = W.copy_op(st, r.op, assign=True)
    recorder(W, {r.handler}, ms, vs, frozenset([SCALAR]))
    before = W.dict(st, W.get(st, W.me, 'vars'))
    op0, op1 = op_fields(W, st, op), op_fields(W, st, r.op)
    res, raises = W.call('evaluate', W.plist(st, [op] + ms), st=st)
    no = nores(W, res, raises, f'operator {r} with assignment', f'assign:{r.handler}/{k}')
    if no:
        return no
    out, n = [], 0
    what = f'operator {r} with assignment'

    def bad(rule, text, s, *d):
        out.append((f'assign-{rule}:{r.handler}/{k}', f'{what}: {text}', 'steps: ' + evs(W, s), *d))
    for s, v in res:
        n += 1
        ev = [e[1] for e in events(s) if e[0] == 'eval']
        ap, rs = applied(s), results(s)
        want_eval = list(range(k)) if flags else [0]
        if op_fields(W, s, op) != op0 or op_fields(W, s, r.op) != op1:
            bad('operator', 'the operator in the parse tree is modified', s)
        if ev != want_eval:
            bad('order', 'the operands are not evaluated exactly once from left to right', s)
            continue
        if len(ap) != 1:
            bad('count', f'the operation is performed {len(ap)} times', s)
            continue
        exp = (old if c.has(r.flags, 'RVALS') else None,) + tuple(vs[1:] if flags else ms[1:])
        if len(ap[0]) != k or not all(q is None or W.same(s, p, q) for p, q in zip(ap[0], exp)) or \
                exp[0] is None and E.types(s, ap[0][0]) != frozenset([LVAL]):
            bad('operands', 'the operation is not applied to the variable\'s value and the other operands', s)
            continue
        now = W.dict(s, W.get(s, W.me, 'vars'))
        if now is None:
            return dict(undecided=f'{r}: the variable table is not known after an assignment', n=n)
        got = now.get('zz')
        if sliced:
            it = W.items(s, got)
            good = it is not None and len(it) == 2 and W.same(s, it[0], rs[0]) and W.same(s, it[1], other)
        else:
            good = W.same(s, got, rs[0])
        if not good:
            bad('stored', 'the variable does not hold the result afterwards', s, 'zz: ' + W.show(s, got))
        elif {a for a in set(now) | set(before) if a != 'zz' and not W.same(s, now.get(a), before.get(a))}:
            bad('others', 'another variable changes', s)
        elif not (W.same(s, v, rs[0]) or E.types(s, v) == frozenset([LVAL]) and W.get(s, v, 'base') == K('zz')):
            bad('value', 'the value of the expression is neither the variable nor the result', s, W.show(s, v))
    return dict(bad=out, n=n)


COMBOS = [('map', 'fold'), ('map', 'scan'), ('assign', 'fold'), ('assign', 'scan'), ('assign', 'map'), ('map', 'assign')]


def combo_row(task):
    """Two meta-operators on one operator: the outer one applies to the operator formed by the inner one."""
    i, outer, inner = task
    c = H.ctx()
    r = H.get_row(i)
    if r.arity != (1 if inner == 'map' or (outer, inner) == ('map', 'assign') else 2) or r in c.pseudo:
        return dict(n=0)
    if (outer, inner) == ('map', 'assign') or outer == 'assign' and r.handler in ('ASSIGN', 'SWAP'):
        return dict(n=0)
    W = World()
    E = W.E
    st = W.state()
    f = c.E.base_heap[r.op[1]].fields
    assoc = f['associativity'][2]
    xs = [W.sym(st, f'x{j + 1}', SCALAR) for j in range(2)]
    inner_list = W.List(st, xs)
    op = W.copy_op(st, r.op, **{outer: True, inner: True})
    if outer == 'assign':
        W.setvar(st, 'zz', inner_list, local=False)
        arg = W.lval(st, 'zz')
    else:
        arg = W.List(st, [inner_list, W.List(st, xs[::-1])])
    m = W.name(st, 'operand')
    recorder(W, {r.handler}, [m], [arg], frozenset([SCALAR]))
    result_truth(W)
    res, raises = W.call('evaluate', W.plist(st, [op, m]), st=st)
    what = f'{outer} of {inner} of operator {r}'
    no = nores(W, res, raises, what, f'{outer}+{inner}')
    if no:
        return no
    out, n = [], 0
    for s, v in res:
        n += 1
        ap, rs = applied(s), results(s)
        if inner == 'map':
            want = [(x,) for x in xs]
        elif outer == 'assign':
            want = [tuple(xs)]
        else:
            want = [tuple(xs), tuple(xs[::-1])]
        good = len(ap) == len(want) and all(len(p) == len(q) and all(W.same(s, a, b) for a, b in zip(p, q)) for p, q in zip(ap, want))
        if not good:
            out.append((f'combination:{outer}+{inner}', f'{what}: the operator is not applied to the items', 'applied: ' + evs(W, s)))
            continue
        if outer == 'assign':
            got = W.var(s, 'zz', False)
            if inner == 'fold':
                good = W.same(s, got, rs[0])
            else:
                it = W.items(s, got)
                good = it is not None and len(it) == 2 and any(W.same(s, x, q) for x in it for q in rs)
        else:
            it = W.items(s, v)
            good = it is not None and len(it) == 2
            if good and inner == 'fold':
                good = all(W.same(s, a, b) for a, b in zip(it, rs))
        if not good:
            out.append((f'combination-result:{outer}+{inner}', f'{what}: the result is not formed from the results of the inner '
                        'operation', W.show(s, v)))
    return dict(bad=out, n=n)


@prop('C23')
def metaops(rep):
    rep.explanation = ('For every operator, fold ($op), scan (\\$op), map (op*) and compute-and-assign (op:) are evaluated '
                       'abstractly on lists of 0 to 3 (thorough: 5) opaque items resp. a variable and an indexed variable; the '
                       'applications, their order and operands, and the result must be those of the definition for the '
                       'operator\'s associativity.')
    m = 6 if rep.thorough else 4
    tasks = [(i, meta, size, 'list') for i in H.row_list() for meta in ('fold', 'scan', 'map') for size in range(m)]
    tasks += [(i, meta, size, kind) for i in H.row_list() for meta in ('fold', 'scan', 'map') for size in range(m)
              for kind in ('range', 'text', 'infinite') if (kind != 'infinite' or size == 0 and meta != 'map')]
    collect(rep, fold_row, tasks, 'meta-operator uses')
    collect(rep, assign_row, [(i, s) for i in H.row_list() for s in (False, True)], 'compute-and-assign uses')
    collect(rep, combo_row, [(i, a, b) for i in H.row_list() for a, b in COMBOS], 'combinations')
