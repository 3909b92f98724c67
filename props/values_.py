"""C01 value closure, C12 unsupported operand types, C13 operands outside a domain: all operators, commands and
value methods analysed by path-partitioned abstract interpretation."""
import harness as H
from . import prop

ABSTRACT = {'ptypes.PipType', 'ptypes.PipIterable'}
PYTHON_TYPE_ERRORS = {'TypeError', 'AttributeError', 'NameError', 'UnboundLocalError', 'KeyError', 'StopIteration',
                      'AssertionError', 'NotImplementedError'}
DOMAIN_ERRORS = {'ZeroDivisionError', 'ValueError', 'IndexError', 'OverflowError', 'ArithmeticError', 'LookupError',
                 'FloatingPointError', 'UnicodeError'}


def all_results(rep, fns=True):
    c = H.ctx()
    budget = 2000000 if rep.thorough else 400000
    out = []
    tasks = [('row', i) for i in H.row_list()]
    if fns:
        tasks += [('fn', t) for t in H.fn_list()]
    global BUDGET
    BUDGET = budget
    for task, r, err, dt in H.pmap(one, tasks):
        if err:
            rep.skip(f'{task}: analysis failed: {err.splitlines()[-1]}')
            continue
        if r.get('missing'):
            rep.skip(f'{task}: no such function')
            continue
        if r['dropped']:
            rep.skip(f"{r['row']}: {r['dropped']} paths beyond the exploration budget")
        rep.count('functions analysed')
        rep.count('abstract steps', r['steps'])
        rep.count('paths', r['paths'])
        out.append((task, r))
    return out


BUDGET = 400000


def one(task):
    kind, x = task
    return H.analyse_row(x, budget=BUDGET) if kind == 'row' else H.analyse_fn(x, budget=BUDGET)


def where(x):
    return f"{x['fn']} line {x['line']}"


def path(x):
    return 'path: ' + ' -> '.join(t.replace('execution.ProgramState.', '') for t in x['trace'][-8:])


@prop('C01')
def closure(rep):
    rep.explanation = ('Every operator handler (each distinct handler/arity/flags row of the precedence table, plus the '
                       'pseudo-operators) is interpreted abstractly on all combinations of operand types; the set of types '
                       'of its result and of the elements of Lists it builds must lie within the value classes '
                       '(or a reference). The evaluator\'s own functions and value methods are included.')
    for (kind, _), r in all_results(rep, fns=False):
        rep.count('obligations')
        for q in r['results']:
            if q['weak']:
                continue
            if q['types'] is None:
                rep.skip(f"{r['row']}: result type unknown")
                continue
            extra = set(q['types']) - H.PIP - {H.LVAL} - ABSTRACT
            if extra:
                rep.bad(f"result:{r['handler']}:{'/'.join(sorted(extra))}",
                        f"operator {r['row']} can return {'/'.join(sorted(extra))}, which is not a Pip value",
                        'operands: ' + ', '.join(q['operands']), path(q))
            if q['elems']:
                extra = set(q['elems']) - H.PIP - ABSTRACT - ({H.LVAL} if r['handler'] == 'LIST' else set())
                if extra:
                    rep.bad(f"element:{r['handler']}:{'/'.join(sorted(extra))}",
                            f"operator {r['row']} can return a List with an element of type {'/'.join(sorted(extra))}",
                            'operands: ' + ', '.join(q['operands']), path(q))


def errors(rep, classes, what):
    for (kind, _), r in all_results(rep):
        rep.count('obligations')
        ptype = r['row'].startswith('ptypes.')
        for q in r['raises']:
            if q['weak'] or q['exc'] not in classes:
                continue
            if ptype and r['handler'] in ('__getitem__', 'index') and q['exc'] in ('IndexError', 'ValueError'):
                continue        # documented result of indexing an empty value
            rep.bad(f"{q['exc']}:{r['handler']}:{q['fn']}:{q['info']}",
                    f"{r['row']} can fail with {q['exc']} ({q['info'] or what}) raised at {where(q)}",
                    'operands: ' + ', '.join(q['operands']), path(q))


@prop('C12')
def operand_types(rep):
    rep.explanation = ('Abstract interpretation of every operator handler, command and value method over all operand type '
                       'combinations: no feasible path may raise a Python type, attribute or name error out of it; such '
                       'operands must end in the warn-and-nil branch.')
    errors(rep, PYTHON_TYPE_ERRORS, 'operand of unexpected type')


@prop('C13')
def domains(rep):
    rep.explanation = ('Abstract interpretation (types, intervals, lengths, path conditions) of every operator handler, '
                       'command and value method: no feasible path may let a division by zero, domain error, empty-sequence '
                       'or out-of-range index exception escape; such operands must end in the warn-and-nil branch.')
    errors(rep, DOMAIN_ERRORS, 'operand outside the domain')
