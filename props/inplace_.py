"""Operators that modify a variable in place, and assignment to slices (C34)."""
import harness as H
from values import *
from engine_consts import *
from world import record
from . import prop
from .eval_ import collect
from .scope_ import aliased
from .vars_ import V, tab, ABSENT
from .lists_ import got_shape, plain, shape_text, unknown

LVAL = 'execution.Lval'
OPEN = None


def items(s):
    """Items of a shape, or None."""
    if isinstance(s, list):
        return list(s)
    if isinstance(s, tuple):
        return list(range(s[0] or 0, s[1])) if s[1] is not None else None
    if isinstance(s, str) and s.startswith('"'):
        return ['"' + c for c in s[1:]]
    return None


def text(v):
    return v[1:] if isinstance(v, str) and v.startswith('"') else str(v)


def whole(s, its):
    """its as the same kind of thing as s."""
    if isinstance(s, str):
        return '"' + ''.join(text(i) for i in its)
    return list(its)


def push_ref(s, v, back):
    if s is None:
        return [v]
    its = items(s)
    if isinstance(s, str):
        return '"' + (text(s) + text(v) if back else text(v) + text(s))
    return its + [v] if back else [v] + its


def remove_ref(s, i):
    """(result, new value) of removing item i (0 first, -1 last), or None if nothing can be removed."""
    if isinstance(s, tuple) and s[1] is None:
        if i != 0:
            return None
        lo = s[0] or 0
        return lo, (lo + 1, None)
    its = items(s)
    if not its:
        return None
    i %= len(its)
    rest = its[:i] + its[i + 1:]
    return its[i], whole(s, rest)


def slice_assign_ref(s, a, b, v):
    its = items(s)
    new = items(v)
    if new is None:
        new = [v]
    if isinstance(s, str):
        new = ['"' + c for c in text(v)]
    return whole(s, its[:a] + new + its[b:])


SHAPES = [['p', 'q', 'r'], ['p', ['q', 'r']], ['p'], [], (2, 5), (0, 3), (4, 5), (3, 3), (OPEN, 3), (2, OPEN), '"abc', '"a', '"', None]


def targets(shape):
    """(how the operand is written, initial variables, where the new value goes)."""
    yield ('x', {'x': shape}, lambda n: {'x': n})
    yield ('b', {'b': shape}, lambda n: {'b': n})
    if isinstance(shape, tuple) and shape[1] is None:
        return
    yield (('l', 1), {'l': ['k1', shape, 'k2']}, lambda n: {'l': ['k1', n, 'k2']})
    yield (('d', -1, 0), {'d': ['k1', [shape, 'k2']]}, lambda n: {'d': ['k1', [n, 'k2']]})


def cases(thorough):
    """(operator, arity, target, variables, arguments, result or REF, changes)"""
    for shape in SHAPES:
        for tgt, init, put in targets(shape):
            for sym, back in (('PU', False), ('PB', True)):
                for v in (['"Z', 7] if isinstance(shape, str) else ['v', ['v', 'w'], 'name']):
                    if isinstance(shape, tuple) and shape[1] is None:
                        continue
                    new = push_ref(shape, 'other' if v == 'name' else v, back)
                    yield (sym, 2, tgt, init, v, new, put(new), (shape, v))
            for sym, i in (('PO', 0), ('DQ', -1)):
                r = remove_ref(shape, i)
                yield (sym, 1, tgt, init, ABSENT, r and r[0], put(r[1]) if r else {}, (shape,))
            for i in (range(-7, 8) if thorough else (-4, -3, -2, -1, 0, 1, 2, 3, 4)):
                if isinstance(shape, tuple) and shape[1] is None and i:
                    r = None
                else:
                    r = remove_ref(shape, i)
                yield ('PK', 2, tgt, init, i, r and r[0], put(r[1]) if r else {}, (shape, i))
    for shape, inc, dec in ((5, 6, 4), (0, 1, -1), (-1, 0, -2), ([1, [2, 0]], [2, [3, 1]], [0, [1, -1]]), (None, None, None)):
        for tgt, init, put in targets(shape):
            yield ('++', 1, tgt, init, ABSENT, inc, put(inc), (shape,))
            yield ('--', 1, tgt, init, ABSENT, dec, put(dec), (shape,))
    for shape in (['p', ['q']], '"abc', (2, 5), None, 'v'):
        for tgt, init, put in targets(shape):
            yield ('Y', 1, tgt, init, ABSENT, shape, {'y': shape}, (shape,))
        yield ('Y', 1, 'value', {}, shape, shape, {'y': shape}, (shape,))
    # operands that are not variables: the same result, and nothing changes
    for shape in SHAPES:
        if isinstance(shape, tuple) and shape[1] is None:
            continue
        for sym, back in (('PU', False), ('PB', True)):
            v = '"Z' if isinstance(shape, str) else 'v'
            yield (sym, 2, 'value', {}, (shape, v), push_ref(shape, v, back), {}, (shape, v))
        for sym, i in (('PO', 0), ('DQ', -1)):
            r = remove_ref(shape, i)
            yield (sym, 1, 'value', {}, shape, r and r[0], {}, (shape,))
        for i in (0, 1, -1):
            r = remove_ref(shape, i)
            yield ('PK', 2, 'value', {}, (shape, i), r and r[0], {}, (shape, i))
    # a list of variables is not a variable
    for ns in (['x'], ['x', 'b'], ['b', 'x', 'd']):
        vals = {n: v for n, v in zip(ns, (['p', 'q'], 'r', 's'))}
        shape = list(vals.values())
        for sym, back in (('PU', False), ('PB', True)):
            yield (sym, 2, ['listed'] + ns, vals, 'v', push_ref(shape, 'v', back), {}, (shape, 'v'))
        for sym, i in (('PO', 0), ('DQ', -1)):
            yield (sym, 1, ['listed'] + ns, vals, ABSENT, remove_ref(shape, i)[0], {}, (shape,))
        for i in (0, 1, -1):
            yield ('PK', 2, ['listed'] + ns, vals, i, remove_ref(shape, i)[0], {}, (shape, i))
    yield ('++', 1, 'value', {}, 5, 6, {}, (5,))
    yield ('--', 1, 'value', {}, 5, 4, {}, (5,))
    # slices
    for shape in (['p', 'q', 'r', 's'], '"abcd', (2, 6), ['p']):
        n = len(items(shape))
        for tgt, init, put in targets(shape):
            if isinstance(shape, tuple) and isinstance(tgt, tuple):
                continue        # a range inside a list stays as it is
            for v in (['"XYZ', '"', '"Z'] if isinstance(shape, str) else [['v', 'w', 'u'], [], ['v'], [['v', 'w']], (7, 9), 'name', '"XY']):
                val = ['other', 'other2'] if v == 'name' else v
                for a, b in ((0, 1), (1, 3), (0, n), (2, 2), (n, n), (1, n), (0, 0), (0, n + 2), (1, 2 * n + 1), (n, n + 3)) if n > 1 else ((0, 1), (0, 0), (1, 1), (0, 4)):
                    yield ('@:', 2, tgt, init, ((a, b), v), None, put(slice_assign_ref(shape, a, b, val)), (shape, (a, b), v))
                for k in (1, 2) if n > 1 else (1,):
                    yield ('@<:', 2, tgt, init, (k, v), None, put(slice_assign_ref(shape, 0, k, val)), (shape, k, v))
                    yield ('@>:', 2, tgt, init, (k, v), None, put(slice_assign_ref(shape, k, n, val)), (shape, k, v))
                yield ('@>:', 2, tgt, init, (-1, v), None, put(slice_assign_ref(shape, n - 1, n, val)), (shape, -1, v))


def kind(x):
    return ('list' if isinstance(x, list) else 'open range' if isinstance(x, tuple) and x[1] is None else 'range' if isinstance(x, tuple) else
            'nil' if x is None else 'block' if x == '{}' else 'number' if isinstance(x, int) else 'text' if x.startswith('"') else 'value')


def check(case):
    sym, arity, tgt, init, arg, result, changes, desc = case
    V_ = V()
    W = V_.W
    for n in 'xbdly':
        if n not in init:
            V_.set(n, 'old_' + n)
    V_.set('o', ['other', 'other2'] if sym.endswith(':') else 'other')
    for n, s in init.items():
        V_.set(n, s)
    shape = desc[0]
    names = tgt[1:] if isinstance(tgt, list) else None
    if names:
        lhs, tgt = V_.tree(V_.LISTOP, *map(V_.name, names)), 'a list of variables'
    else:
        lhs = V_.at(*tgt) if isinstance(tgt, tuple) else V_.name(tgt)

    def value(v):
        return V_.name('o') if v == 'name' else V_.build(v)
    where = 'value' if tgt == 'value' else tgt if names else 'indexed variable' if isinstance(tgt, tuple) else tab(tgt)[0] + ' variable'
    tname = tgt if isinstance(tgt, str) else tgt[0] + ''.join(f'@{i}' for i in tgt[1:])
    if sym.endswith(':'):
        op = W.op(2, sym[:-1])
        if op is None:
            return dict(n=0, undecided=f'no operator {sym}')
        ix, v = arg
        tree = V_.tree(V_.ASSIGN, V_.tree(op, lhs, V_.build(ix)), value(v))
        what = f'{tname}{sym[:-1]}{shape_text(ix)}:{shape_text(v) if v != "name" else "o"} with {tname} = {shape_text(shape)}'
    else:
        op = W.op(arity, sym)
        if op is None:
            return dict(n=0, undecided=f'no operator {sym}')
        if tgt == 'value':
            tree = V_.tree(op, *(V_.build(s) for s in (arg if arity == 2 else (arg,))))
            what = f'{sym} applied to the value {shape_text(shape)}'
        else:
            tree = V_.tree(op, lhs, *([value(arg)] if arity == 2 else []))
            tname = '[' + ';'.join(names) + ']' if names else tname
            what = (f'{tname} {sym} {shape_text(arg) if arg != "name" else "o"}' if arity == 2 else f'{sym} {tname}') + f' with {tname} = {shape_text(shape)}'
    key = f'{sym}:{where}:{kind(shape)}'
    W.E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(record('warn')(st), (st, NONE))[1]]
    W.E.dropped = 0
    W.E.inline_eq = True
    before = V_.tables(V_.st)
    st = V_.st.copy()
    res, raises = W.call('evaluate', tree, st=st)
    hard = [x for _, x in raises if not x[4]]
    outs = []
    final = []
    for s1, v in res:
        if LVAL in (W.E.types(s1, v) or ()):
            r2, x2 = W.call('getRval', v, st=s1)
            final += [(s2, v2, s1) for s2, v2 in r2]
            hard += [x for _, x in x2 if not x[4]]
        else:
            final.append((s1, v, s1))
    if W.E.dropped or not final and not hard:
        return dict(n=0, undecided=f'{what}: no definite outcome')
    probs = []
    n = 0
    und = None
    for s2, v2, s1 in final:
        n += 1
        p = None
        now = V_.tables(s1)
        if now is None or before is None:
            und = f'{what}: the variable tables are not known'
            continue
        for k in sorted(set(now) | set(before), key=str):
            nm = k[1]
            if k[1] in changes and k == tab(nm):
                want = plain(changes[nm])
                got = plain(got_shape(V_, s1, now[k])) if k in now else 'undefined'
                if got != want:
                    if unknown(got):
                        und = f'{what}: value of {nm} not known exactly'
                    else:
                        p = p or (key, f'{what}: variable {nm} becomes {shape_text(got)}', f'it should become {shape_text(want)}')
            elif (k in now) != (k in before) or not W.same(s1, now[k], before[k]):
                # the same content in another representation counts as unchanged
                if k in now and k in before and plain(got_shape(V_, s1, now[k])) == plain(got_shape(V_, V_.st, before[k])):
                    continue
                p = p or (key + ':other', f'{what}: {k[0]} variable {nm} changes to ' + (shape_text(plain(got_shape(V_, s1, now[k]))) if k in now else 'undefined'))
        if sym[-1] != ':':
            got = plain(got_shape(V_, s2, v2))
            if got != plain(result):
                if unknown(got):
                    und = f'{what}: result not known exactly'
                else:
                    p = p or (key + ':result', f'{what}: the result is {shape_text(got)}', f'it should be {shape_text(plain(result))}')
        if isinstance(tgt, (str, tuple)) and tgt != 'value' and not names and (arg == 'name' or sym.endswith(':') and arg[1] == 'name' or sym == 'Y'):
            a = now.get(tab('y' if sym == 'Y' else tgt if isinstance(tgt, str) else tgt[0]))
            b = now.get(('global', 'o')) if sym != 'Y' else now.get(tab(tgt if isinstance(tgt, str) else tgt[0]))
            if a is not None and b is not None and aliased(W, s1, a, b):
                p = p or (key + ':alias', f'{what}: the two variables share a list afterwards')
        probs.append(p)
    for x in hard:
        probs.append((key + ':fails', f'{what} fails with {x[1].split(".")[-1]}'))
    bad = [p for p in probs if p]
    if bad and (len(bad) < len(probs) or und):
        return dict(n=n, undecided=f'{what}: several outcomes: {bad[0][1]}')
    if bad:
        return dict(n=n, bad=bad[:1])
    return dict(n=n, undecided=und)


def inplace_task(i):
    out, und, n = [], [], 0
    for c in H._inplace_batches[i]:
        r = check(c)
        n += r['n']
        out += r.get('bad', [])
        if r.get('undecided'):
            und.append(r['undecided'])
    return dict(bad=out, undecided=(f'{und[0]}' + (f' (and {len(und) - 1} more)' if len(und) > 1 else '')) if und else None, n=n)


@prop('C34')
def inplace(rep):
    rep.explanation = ('The operators that modify a variable in place (PU, PB, PO, DQ, PK, ++, --, Y) and assignments to slices are '
                       'evaluated abstractly on global, local and indexed variables holding opaque items, ranges and texts, and on '
                       'plain values; afterwards exactly that variable has exactly the reference content, and the result is the '
                       'item removed or the variable.')
    cs = list(cases(rep.thorough))
    n = max(1, len(cs) // 40)
    H._inplace_batches = [cs[i::n] for i in range(n)]
    collect(rep, inplace_task, range(n), 'groups of in-place operations')
