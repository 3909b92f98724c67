"""Running code does not change the code (C09); commands (C32); program execution (C33); global reset (C28)."""
import itertools
import harness as H
from harness import P
from values import *
from engine_consts import *
from world import World, record, events
from . import prop
from .eval_ import recorder, nores, collect
from .print_ import watch_print, stdout_of, shown, same_text, join, show
from .vars_ import V, ABSENT


def snap(W, st, v, depth=0, seen=()):
    """Deep content of a parse tree / operator / function."""
    if v is None or v[0] != 'R' or depth > 9 or v in seen:
        return v
    o = W.E.obj(st, v)
    seen = seen + (v,)
    if o.kind == 'inst':
        return (o.cls,) + tuple((k, snap(W, st, x, depth + 1, seen)) for k, x in sorted((o.fields or {}).items())
                                if k not in ('_compiled', '_separator', 'evaluated'))
    if o.elems is not None:
        return (o.kind,) + tuple(snap(W, st, x, depth + 1, seen) if x and x[0] in 'RSKT' else x for x in o.elems)
    return (o.kind, 'summary', o.summ)


def statics(W, st, base):
    """Shared objects (operator tables, constants, classes) whose content differs from before."""
    out = []
    for a, o in W.E.base_heap.items():
        n = st.heap.get(a)
        if n is not None and n is not o and base.get(a) is not n:
            if (n.fields, n.elems, n.summ, n.cls) != (o.fields, o.elems, o.summ, o.cls) and \
                    not (base.get(a) is not None and (base[a].fields, base[a].elems) == (n.fields, n.elems)):
                out.append(f'{n.cls or n.kind} {W.show(st, ("R", a))}')
    return out


METAS = [(), ('fold',), ('scan',), ('map',), ('assign',), ('map', 'fold'), ('assign', 'fold')]


def operand(V_, kind, j):
    W, st = V_.W, V_.st
    if kind == 'names':
        return V_.tree(V_.LISTOP, V_.name('x'), V_.name('y'))
    if kind == 'name':
        return V_.name('l')
    if kind == 'procedure':
        b = next((r.op for r in W.c.pseudo if r.handler == 'BLOCK'), None)
        wipe = next((o for sym, h, o in W.c.commands if h == 'WIPEGLOBALS'), None)
        return V_.tree(b, V_.tree(V_.tree(wipe)))
    if kind == 'literal':
        return W.inst(st, 'tokens.Number', K('5'))
    if kind == 'rows':
        return V_.tree(V_.LISTOP, V_.name('m'), V_.build([[5], 6]))
    if kind == 'nested':
        return V_.tree(V_.LISTOP, V_.tree(V_.LISTOP, V_.name('x')), V_.tree(V_.LISTOP, V_.name('y'), V_.name('x')))
    if kind == 'function':
        b = next((r.op for r in W.c.pseudo if r.handler == 'BLOCK'), None)
        return V_.tree(b, V_.tree(V_.tree(V_.ASSIGN, V_.name('x'), V_.name('a')), V_.tree(V_.LISTOP, V_.name('a'), V_.name('b'))))
    if kind == 'value':
        return V_.build(['p', ['q']])


def unchanged_task(task):
    i, metas, kinds, real = task
    c = H.ctx()
    r = H.get_row(i)
    if r.handler in ('BLOCK', 'CHAIN', 'LIST', 'SEND') and metas:
        return dict(n=0)
    need = 1 if 'fold' in metas or 'scan' in metas else r.arity
    if metas and r.arity != (2 if 'fold' in metas or 'scan' in metas else 1 if 'map' in metas else r.arity):
        return dict(n=0)
    V_ = V()
    W, st = V_.W, V_.st
    E = W.E
    for nm in 'xyab':
        V_.set(nm, 'old_' + nm)
    V_.set('l', ['l1', ['l2']])
    V_.set('m', [[1, 2], [3], []])
    if r.handler == 'BLOCK':
        args = [V_.tree(V_.tree(V_.ASSIGN, V_.name('x'), V_.name('a')), V_.tree(V_.LISTOP, V_.name('a'), V_.name('b')))]
    elif r.handler == 'CHAIN':
        cmps = [x.op for x in c.rows if x.arity == 2 and E.base_heap[x.op[1]].fields.get('associativity') == K('C')]
        args = [operand(V_, kinds[0], 0), cmps[0], operand(V_, kinds[1], 1), cmps[1], V_.name('y')]
    elif r.handler in ('LIST', 'SEND'):
        args = [operand(V_, kinds[j % 2], j) for j in range(3)]
    else:
        args = [operand(V_, kinds[j % 2], j) for j in range(need)]
    op = W.copy_op(st, r.op, **{m: True for m in metas}) if metas else r.op
    if 'fold' in metas or 'scan' in metas:
        W.setfield(st, op, 'arity', K(1))
    tree = V_.tree(op, *args)
    if not real:
        def result(s, n):
            # the code must be intact also while the operator is being applied, which may run it again
            now = snap(W, s, tree)
            if now != before and metas != ():
                record('during')(s, now)
            # with meta-operators, the plain operator applied inside yields a list of two fixed items
            return W.List(s, [K(n), W.List(s, [K(1)])]) if metas else W.E.leaf(s, f'result{n}', PIP, fresh=True)
        recorder(W, {r.handler} - {'BLOCK', 'CHAIN', 'LIST', 'SEND'}, [], [], result=result)
    E.intrinsics['errors.ErrorReporter.warn'] = lambda E_, fi, a, kw, st, node: [(st, NONE)]
    before = snap(W, st, tree)
    vals = [snap(W, st, a) for a in args]
    base = dict(st.heap)
    res, raises = W.call('evaluate', tree, st=st)
    exits = res + [(s, None) for s, x in raises if not x[4]]
    what = f'{"/".join(metas) + " of " if metas else ""}operator {r} on {", ".join(kinds)}'
    if not exits or E.dropped:
        return dict(undecided=f'{what}: no outcome', n=0)
    out = []
    for s, v in exits:
        after = snap(W, s, tree)
        if after != before:
            out.append((f'tree:{r.handler}:{"+".join(metas)}', f'evaluating {what} changes the parse tree it evaluates',
                        'before: ' + str(before)[:300], 'after: ' + str(after)[:300]))
        for e in events(s):
            if e[0] == 'during':
                out.append((f'during:{r.handler}:{"+".join(metas)}', f'while evaluating {what}, the parse tree is changed',
                            'before: ' + str(before)[:300], 'then: ' + str(e[1])[:300]))
        for x in statics(W, s, base)[:2]:
            out.append((f'shared:{r.handler}:{"+".join(metas)}', f'evaluating {what} changes a shared object', x))
    return dict(bad=out, n=len(exits))


@prop('C09')
def program_unchanged(rep):
    rep.explanation = ('Every operator row, plain and under every meta-operator, is evaluated abstractly on parse trees with '
                       'name, list, nested, function and value operands; on every path the parse tree, the operators in it, the '
                       'operator table and shared constants afterwards have exactly the content they had before. A function is '
                       'called and every command executed likewise.')
    kinds = [('names', 'name'), ('function', 'name'), ('value', 'nested'), ('nested', 'function'), ('function', 'function'),
             ('literal', 'literal'), ('procedure', 'procedure'), ('procedure', 'function')]
    tasks = [(i, m, k, False) for i in H.row_list() for m in METAS for k in (kinds if m != ('map', 'fold') else [('rows', 'rows')])]
    collect(rep, unchanged_task, tasks, 'evaluations')
    collect(rep, unchanged_cmd, [(j, k) for j in range(len(H.ctx().commands)) for k in (0, 1, 2)] + [('call', k) for k in (0, 1, 2)],
            'commands and calls')


def unchanged_cmd(task):
    which, k = task
    V_ = V()
    W, st = V_.W, V_.st
    c, E = W.c, W.E
    ms, vs = [], []

    def marker(nm, *types):
        m = W.name(st, nm)
        ms.append(m)
        vs.append(W.sym(st, 'value_' + nm, *types) if types else None)
        return m
    body = [V_.tree(V_.ASSIGN, V_.name('x'), V_.name('y')), V_.tree(V_.LISTOP, V_.name('x'), V_.tree(V_.LISTOP, V_.name('y')))]
    lst = V_.build(['p', 'q'][:k])
    if which == 'call':
        blk = W.inst(st, BLOCK, V_.tree(*body), V_.tree(V_.LISTOP, V_.name('a'), V_.name('x')))
        tree = blk
        before = snap(W, st, tree)
        base = dict(st.heap)
        res, raises = W.call('functionCall', blk, V_.tree(*W.items(st, lst)), st=st)
        what = 'a function call'
    else:
        sym, h, o = c.commands[which]
        at = E.base_heap[o[1]].fields['argtypes']
        kinds = [x[2] for x in E.base_heap[at[1]].elems]
        args = []
        for i, x in enumerate(kinds):
            if x in ('CODE', 'ELSE'):
                args.append(V_.tree(*body))
            elif x == 'LOOPVAR':
                args.append(V_.tree(V_.LISTOP, V_.name('x'), V_.name('y')) if k else V_.name('x'))
            else:
                args.append(V_.tree(V_.LISTOP, V_.name('x'), V_.name('y')) if h in ('FOR', 'LOOP') else
                            V_.name('y' if h == 'LOOPREGEX' and i else 'x'))
        V_.set('x', 'old_x' if h != 'LOOPREGEX' else '"a')
        V_.set('y', 'old_y' if h != 'LOOPREGEX' else ['"', '"ba', '"xaya'][k])
        tree = V_.tree(o, *args)
        before = snap(W, st, tree)
        base = dict(st.heap)
        E.budget = 200000
        E.concrete_while = 2
        res, raises = W.call('executeStatement', tree, st=st)
        what = f'command {sym}'
    exits = res + [(s, None) for s, x in raises if not x[4]]
    if not exits:
        return dict(undecided=f'{what}: no outcome', n=0)
    out = []
    for s, v in exits:
        if snap(W, s, tree) != before:
            out.append((f'tree:{what}', f'executing {what} changes the code it executes', 'after: ' + str(snap(W, s, tree))[:300]))
        for x in statics(W, s, base)[:2]:
            out.append((f'shared:{what}', f'executing {what} changes a shared object', x))
    return dict(bad=out, n=len(exits))
