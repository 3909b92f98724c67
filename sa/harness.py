"""Common analysis drivers: the interpreter's operator table, operand assumptions per operator, the
assume-guarantee summaries of the evaluator used while a handler is analysed."""
import os, sys, time, ast, signal, collections, multiprocessing, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as EN
from values import *
from engine_consts import *
from engine import State, F0, Fact

PS = 'execution.ProgramState'
P = PS + '.'
LVAL = 'execution.Lval'
REPO = os.environ.get('PIP_REPO', '/repo')


class Row:
    def __init__(self, arity, symbol, handler, flags, op):
        self.arity, self.symbol, self.handler, self.flags, self.op = arity, symbol, handler, flags, op

    def __repr__(self):
        return f'{self.symbol}/{self.arity}:{self.handler}'


class Ctx:
    """The engine plus the facts about the interpreter read off its source."""

    def __init__(self):
        self.E = E = EN.Engine(REPO)
        g = E.mods['operators'].globals
        self.flag = {}
        for n in ('VALS', 'RVALS', 'LIST_EACH', 'RANGE_EACH', 'IN_LAMBDA'):
            v = g.get(n)
            self.flag[n] = v[2] if v and v[0] == 'K' else 0
        self.rows = []
        base = E.base_heap
        ob = g['opsByArity']
        for k, d in base[ob[1]].elems:
            for s, o in base[d[1]].elems:
                self.rows.append(self.row(k[2], s[2], o))
        self.pseudo = []
        for n in ('paren', 'enlist', 'block', 'send', 'chain'):
            o = g.get(n)
            if o is not None and o[0] == 'R':
                f = base[o[1]].fields
                self.pseudo.append(self.row(f['arity'][2], f['_text'][2], o))
        self.commands = []
        cm = g.get('commands')
        if cm is not None and cm[0] == 'R':
            for k, o in base[cm[1]].elems:
                f = base[o[1]].fields
                self.commands.append((k[2], f['function'][2], o))

    def row(self, arity, sym, o):
        f = self.E.base_heap[o[1]].fields
        return Row(arity, sym, f['function'][2], f['flags'][2], o)

    def has(self, flags, name):
        return bool(flags & self.flag[name])

    # operands ------------------------------------------------------------------
    def operand_types(self, flags):
        """Types of value an operand of an operator with these flags can have when its handler is called;
        None when it is an unevaluated expression."""
        if not flags & (self.flag['VALS'] | self.flag['RVALS']):
            return None
        t = set(PIP)
        if self.has(flags, 'IN_LAMBDA'):
            t.discard(BLOCK)
        if self.has(flags, 'RANGE_EACH'):
            t -= {LIST, RANGE}
        elif self.has(flags, 'LIST_EACH'):
            t.discard(LIST)
        if not self.has(flags, 'RVALS'):
            t.add(LVAL)
        return frozenset(t)

    def start(self):
        st = State()
        me = ('S', ('p', 'self'))
        st.facts[me[1]] = F0._replace(types=frozenset([PS]))
        st.facts[('d', 'f', me, 'err')] = F0._replace(types=frozenset(['errors.ErrorReporter']))
        return st, me

    def operands(self, st, arity, flags, names='abc', types=None):
        args = []
        for i in range(arity):
            a = ('S', ('p', names[i]))
            ty = types[i] if types and types[i] is not None else self.operand_types(flags)
            st.facts[a[1]] = F0._replace(types=frozenset(ty)) if ty is not None else F0
            args.append(a)
        return args

    # summaries of the evaluator --------------------------------------------------
    def install(self, budget=400000):
        E = self.E
        E.intrinsics.clear()
        E.reclimit, E.collapse_mods = 1, frozenset(['ptypes'])
        E.concrete_while, E.inf_prefix = 0, 0
        for h in list(E.hooks):
            E.hooks[h] = []
        E.budget = budget
        ctx = self

        def value_of(E_, st, v, hint):
            """The value an expression / reference / value evaluates to."""
            ty = E_.types(st, v) if v[0] in ('S', 'R') else None
            if ty is not None and ty <= PIP:
                return [(st, v)]
            ex = PIP
            if v[0] == 'S' and v[1][0] == 'p' and ctx.block_free:
                ex = PIP - {BLOCK}
            if v[0] == 'S':
                out = []
                if ty is not None and ty & PIP:
                    b = st.copy()
                    if E_.set_types(b, v[1], ty & PIP):
                        out.append((b, v))
                    if not E_.set_types(st, v[1], ty - PIP):
                        return out
                r = E_.der(st, 'rval', v, st.mon.get('epoch', 0), types=ex)
                st.fresh = st.fresh | {r[1]}
                return out + [(st, r)]
            return [(st, E_.leaf(st, hint, ex, fresh=True))]

        def ev(E_, fi, args, kw, st, node):
            if len(args) < 2:
                return None
            x = args[1]
            ty = E_.types(st, x) if x[0] in ('S', 'R') else None
            if ty is not None and ty <= PIP | {LVAL}:
                return [(st, x)]
            t = ctx.expr_types(st, x)
            return [(st, E_.leaf(st, 'evaluated', t, fresh=True))]

        def rv(E_, fi, args, kw, st, node):
            if len(args) < 2:
                return None
            return value_of(E_, st, args[1], 'rvalue')

        def fc(E_, fi, args, kw, st, node):
            # functionCall(self, function, argList): a Block and something finite to iterate over
            if len(args) > 2:
                f, al = args[1], args[2]
                ty = E_.types(st, f)
                if ty is not None and ty & PIP - {BLOCK}:
                    b = st.copy()
                    if f[0] != 'S' or E_.set_types(b, f[1], ty & PIP - {BLOCK}):
                        E_.raise_(b, 'AttributeError', node, info='call of something that is not a Block')
                    if f[0] == 'S' and not E_.set_types(st, f[1], ty - PIP | {BLOCK}):
                        return []
                its = E_.iterate(al, st, node)
                if not its:
                    return []
                st = its[0][0]
            return [(st, E_.leaf(st, 'called', PIP, fresh=True))]

        def warn(E_, fi, args, kw, st, node):
            return [(st, NONE)]

        def die(E_, fi, args, kw, st, node):
            E_.raise_(st, 'errors.FatalError', node)
            return []

        def parse_(E_, fi, args, kw, st, node):
            E_.raise_(st.copy(), 'errors.BadSyntax', node)
            E_.raise_(st.copy(), 'errors.IncompleteSyntax', node)
            return [(st, E_.leaf(st, 'parsed', {'list'}, fresh=True))]

        def arv(E_, fi, args, kw, st, node):
            return [(st, E_.newlist(st, summ=[E_.leaf(st, 'grp', {SCALAR, NIL}, fresh=True)], minlen=1))]

        def asg(E_, fi, args, kw, st, node):
            st.mon['epoch'] = st.mon.get('epoch', 0) + 1
            if len(args) > 2:
                E_.emit('assign', node, st, lval=args[1], value=args[2])
            return [(st, NONE)]

        def strv(E_, fi, args, kw, st, node):
            return [(st, E_.leaf(st, 'text', STR))]
        E.intrinsics.update({
            P + 'evaluate': ev, P + 'getRval': rv, P + 'functionCall': fc, 'errors.ErrorReporter.warn': warn,
            'errors.ErrorReporter.die': die, 'parsing.parse': parse_, 'scanning.scan': parse_,
            'scanning.addSpaces': strv, 'parsing.unparse': strv, 'parsing.unparseExpr': strv,
            P + 'assignRegexVars': arv, P + 'assign': asg})
        self.block_free = False
        lv = self.value_handlers()
        E.rec_types = {P + r.handler: PIP if r.handler in lv else PIP | {LVAL} for r in self.rows + self.pseudo}

    lval_handlers = None

    def expr_types(self, st, x):
        """Types `evaluate` can return for this expression."""
        E = self.E
        if x[0] == 'R':
            o = E.obj(st, x)
            if o.kind == 'list' and o.elems:
                h = o.elems[0]
                if h[0] == 'R' and E.obj(st, h).kind == 'inst':
                    f = E.obj(st, h).fields.get('function')
                    if f is not None and f[0] == 'K' and f[2] in self.value_handlers():
                        return PIP
        return PIP | {LVAL}

    def value_handlers(self):
        """Handlers whose body never mentions a reference (cannot return one)."""
        if self.lval_handlers is None:
            lv = set()
            for q, fi in [(f.qual, f) for f in self.E.fns.values() if f.qual.startswith(P)]:
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Name) and n.id == 'Lval' or \
                            isinstance(n, ast.Attribute) and n.attr in ('evaluate', 'YANK', 'assign'):
                        lv.add(fi.name)
            for r in self.rows + self.pseudo:
                if not self.has(r.flags, 'RVALS'):
                    lv.add(r.handler)
            changed = True
            while changed:
                changed = False
                for fi in self.E.fns.values():
                    if fi.qual.startswith(P) and fi.name not in lv:
                        if any(isinstance(n, ast.Attribute) and n.attr in lv and n.attr.isupper()
                               for n in ast.walk(fi.node)):
                            lv.add(fi.name)
                            changed = True
            self.lval_handlers = {r.handler for r in self.rows + self.pseudo} - lv
        return self.lval_handlers

    def run(self, row, types=None, handler=None, budget=400000):
        """Analyse one operator row: (results, raises, info)."""
        E = self.E
        st, me = self.start()
        self.block_free = self.has(row.flags, 'IN_LAMBDA')
        if row.symbol == 'CHAIN' or row.handler == 'CHAIN':
            args = []
            x = E.leaf(st, 'operand', PIP)
            args = [x]
            ops = [r.op for r in self.rows if r.op != row.op and
                   E.base_heap[r.op[1]].fields['associativity'] == K('C')]
            for i in range(2):
                args.append(ops[i % len(ops)] if ops else x)
                args.append(E.leaf(st, 'operand', PIP))
        else:
            args = self.operands(st, row.arity, row.flags, types=types)
        E.nsteps, E.dropped, E.joins, E.unknown = 0, 0, 0, {}
        E.budget = budget
        res, raises = E.analyse(P + (handler or row.handler), [me] + args, st)
        return res, raises, args


CTX = None


def ctx():
    global CTX
    if CTX is None:
        CTX = Ctx()
    return CTX


TASK_LIMIT = 240
START = time.monotonic()
TOTAL_LIMIT = 660           # all tasks of one check together; what is not finished by then is undecided
MAIN_LIMIT = 780


class TaskTimeout(BaseException):
    pass


def _alarm(*a):
    raise TaskTimeout()


def main_alarm():
    """The main process of a check stops (and reports what it has) after MAIN_LIMIT seconds."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(MAIN_LIMIT - (time.monotonic() - START))))


MAIN = os.getpid()


def _call(a):
    """One task, with a time limit: a task that runs out of time is reported as not decided."""
    f, x = a
    t = time.time()
    left = int(TOTAL_LIMIT - (time.monotonic() - START))
    if left < 1:
        return x, None, f'not begun within {TOTAL_LIMIT} s', 0
    limit = min(TASK_LIMIT, left)
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        r = f(x)
        signal.alarm(0)
        return x, r, None, time.time() - t
    except TaskTimeout:
        return x, None, f'not finished after {limit} s', time.time() - t
    except Exception:
        return x, None, traceback.format_exc(limit=-6), time.time() - t
    finally:
        signal.alarm(0)
        if os.getpid() == MAIN:
            main_alarm()


def pmap(f, tasks, procs=8):
    """Run f over the tasks in forked workers (each inherits the loaded engine)."""
    ctx()
    tasks = list(tasks)
    if os.environ.get('SA_SERIAL') or len(tasks) < 3:
        return [_call((f, t)) for t in tasks]
    with multiprocessing.get_context('fork').Pool(min(procs, len(tasks))) as pool:
        return list(pool.imap_unordered(_call, [(f, t) for t in tasks]))


# ---------------------------------------------------------------- one operator row
def show_trace(E, st, n=12):
    t = E.trace_of(st)
    return [f'{x[0][1]}:{x[0][2]} {x[1]}' if isinstance(x[0], tuple) and len(x[0]) > 2 else str(x) for x in t[-n:]]


def describe(E, st, args):
    out = []
    for a in args:
        ty = E.types(st, a)
        out.append('/'.join(sorted(x.split('.')[-1] for x in ty)) if ty else 'expression')
    return out


def elem_types(E, st, v, depth=0):
    """Known types of the elements of a List value built by the handler (None when unknown)."""
    if v[0] != 'R' or depth > 3:
        return None
    o = E.obj(st, v)
    if o.kind != 'inst' or o.cls != LIST:
        return None
    x = o.fields.get('_value')
    if x is None or x[0] != 'R':
        return None
    l = E.obj(st, x)
    out = set()
    for e in (l.elems if l.elems is not None else (l.summ or ())):
        t = E.types(st, e)
        if t is not None:
            out |= t
        sub = elem_types(E, st, e, depth + 1)
        if sub:
            out |= sub
    return out


def row_list():
    c = ctx()
    seen, out = set(), []
    for i, r in enumerate(c.rows + c.pseudo):
        k = (r.handler, r.arity, r.flags)
        if k in seen:
            continue
        seen.add(k)
        out.append(i)
    return out


def get_row(i):
    c = ctx()
    return (c.rows + c.pseudo)[i]


def analyse_row(i, budget=400000, setup=None):
    c = ctx()
    E = c.E
    r = get_row(i)
    c.install(budget)
    events = []
    if setup:
        setup(c, r, events)
    if E.find(P + r.handler) is None:
        return dict(row=repr(r), missing=True)
    res, raises, args = c.run(r, budget=budget)
    return summarise(E, repr(r), r.handler, res, raises, args, events)


# ---------------------------------------------------------------- other functions of the interpreter
ANY = PIP
IDX = frozenset([SCALAR, LIST, RANGE])
CORE = [
    # (function, types of the parameters after self; None: an expression of the parse tree / anything)
    (P + 'getRval', [('expr',)]), (P + 'assign', [('types', LVAL), ('types',) + tuple(PIP)]),
    (P + 'updateHistoryVars', [('types',) + tuple(PIP)]), (P + 'closeScope', []),
    (P + 'openScope', [('types', BLOCK), ('vals',)]), (P + 'functionCall', [('types', BLOCK), ('vals',)]),
    (P + 'isDefined', [('types', 'str')]), (P + 'varTable', [('types', 'str')]),
    (P + 'WIPEGLOBALS', []), (P + 'getq', []), (P + 'getr', []), (P + 'setr', [('types',) + tuple(PIP)]),
    (P + 'executeStatement', [('expr',)]),
    (P + 'executeProgram', [('types', 'list'), ('vals',)]),
    ('errors.ErrorReporter.warn', [('types', 'str'), ('types',) + tuple(PIP)]),
]
METHODS = ['copy', 'isEmpty', 'isFinite', '__str__', '__repr__', '__bool__', '__int__', 'toNumber', '__hash__', '__iter__']


def fn_list():
    """Commands, core functions of the evaluator and methods of the value classes, as analysis tasks."""
    c = ctx()
    out = []
    for sym, handler, o in c.commands:
        at = c.E.base_heap[o[1]].fields['argtypes']
        items = c.E.base_heap[at[1]].elems if at[0] == 'R' else ()
        spec = [('types', 'list') if x[2] in ('CODE', 'ELSE') else ('expr',) for x in items]
        out.append((P + handler, tuple(spec)))
    for q, spec in CORE:
        out.append((q, tuple(spec)))
    for cls in (SCALAR, PATTERN, LIST, RANGE, BLOCK, NIL):
        for m in METHODS:
            out.append((f'{cls}.{m}', ()))
        out.append((f'{cls}.__eq__', (('types',) + tuple(sorted(PIP)),)))
    for cls in (SCALAR, LIST, RANGE):
        out.append((f'{cls}.__getitem__', (('types', SCALAR, LIST, RANGE, 'int', 'slice'),)))
        out.append((f'{cls}.__contains__', (('types',) + tuple(sorted(PIP)),)))
        out.append((f'{cls}.count', (('types',) + tuple(sorted(PIP)),)))
    return [(q, s) for q, s in out if c.E.find(q) is not None]


def spec_value(E, st, spec, name):
    if spec[0] == 'expr':
        v = ('S', ('p', name))
        st.facts[v[1]] = F0
        return v
    if spec[0] == 'types':
        v = ('S', ('p', name))
        st.facts[v[1]] = F0._replace(types=frozenset(spec[1:]))
        return v
    if spec[0] == 'vals':
        return E.newlist(st, summ=[E.leaf(st, 'arg', PIP)], minlen=0)
    raise ValueError(spec)


def getitem_summary(E, fi, args, kw, st, node):
    """Indexing a value by an integer, slice or value: a value, or the errors its class documents."""
    ty = E.types(st, args[1]) if len(args) > 1 else None
    b = st.copy()
    E.raise_(b, 'IndexError', node)
    if ty is None or not ty <= IDX | {'int', 'slice'}:
        E.raise_(st.copy(), 'TypeError', node)
    return [(st, E.leaf(st, 'item', PIP))]


def analyse_fn(task, budget=400000, setup=None, keep=()):
    """Analyse one function given the types of its parameters. `keep`: intrinsics to remove (analysed inline)."""
    q, spec = task
    c = ctx()
    E = c.E
    c.install(budget)
    for k in (q,) + tuple(keep):
        E.intrinsics.pop(k, None)
    events = []
    if setup:
        setup(c, task, events)
    fi = E.find(q)
    if fi is None:
        return dict(row=q, missing=True)
    st, me = c.start()
    owner = q.rsplit('.', 1)[0]
    if owner != PS:
        me = ('S', ('p', 'me'))
        st.facts[me[1]] = F0._replace(types=frozenset([owner]))
    args = [spec_value(E, st, x, 'abcde'[i]) for i, x in enumerate(spec)]
    E.nsteps, E.dropped, E.joins, E.unknown = 0, 0, 0, {}
    E.budget = budget
    if owner == PS:
        if q != P + 'updateHistoryVars':
            E.intrinsics[P + 'updateHistoryVars'] = lambda E_, fi, a, kw, s_, n: [(s_, NONE)]
        for cls in (SCALAR, LIST, RANGE):
            E.intrinsics[cls + '.__getitem__'] = getitem_summary
    res, raises = E.analyse(q, [me] + args, st)
    return summarise(E, q, q.rsplit('.', 1)[1], res, raises, args, events)


def summarise(E, name, handler, res, raises, args, events):
    results, rs = {}, {}
    for st, v in res:
        ty = E.types(st, v)
        et = elem_types(E, st, v)
        k = (ty, '~weak' in st.mon, frozenset(et) if et is not None else None)
        if k not in results:
            results[k] = dict(types=sorted(ty) if ty is not None else None, weak=k[1],
                              elems=sorted(et) if et is not None else None, operands=describe(E, st, args),
                              trace=show_trace(E, st))
    for st, x in raises:
        k = (x[1], x[3], x[4])
        if k not in rs:
            rs[k] = dict(exc=x[1], fn=x[3][1], line=x[3][2], info=x[3][3] if len(x[3]) > 3 else '', weak=bool(x[4]),
                         operands=describe(E, st, args), trace=show_trace(E, st))
    return dict(row=name, handler=handler, results=list(results.values()), raises=list(rs.values()),
                steps=E.nsteps, dropped=E.dropped, joins=E.joins, paths=len(res) + len(raises), events=events,
                unknown={str(k): v for k, v in E.unknown.items()})
