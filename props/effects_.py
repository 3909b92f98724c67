"""Effects of operators, commands and value methods: what they may modify, print, read, open and draw at random."""
import ast
import harness as H
from harness import P, PS
from values import *
from engine_consts import *
from world import World
from . import prop
from .values_ import where, path

KINDS = ('setattr', 'mutate', 'setitem', 'ext', 'print', 'input', 'open', 'random', 'exit', 'dyn_getattr', 'nondet', 'setiter', 'hash')


def root(v):
    """The operand a value was derived from (through fields, items, iteration), or the value itself."""
    seen = 0
    while v[0] == 'S' and v[1][0] == 'd' and seen < 50:
        nx = [x for x in v[1][2:] if isinstance(x, tuple) and x and x[0] in ('S', 'R')]
        if not nx:
            return v
        v, seen = nx[0], seen + 1
    return v


def cache_field(E, cls, attr):
    """A field that the constructor leaves None and no comparing, hashing or copying method of the class reads: a memo."""
    ci = E.classes.get(cls)
    init = E.clsattr(cls, '__init__')
    if ci is None or init is None or init[0] != 'Fn':
        return False
    fi = E.fns.get(init[1])
    if fi is None:
        return False
    me = fi.node.args.args[0].arg
    none = any(isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None and
               any(isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == me
                   for t in n.targets) for n in ast.walk(fi.node))
    if not none:
        return False
    for m in ('__eq__', '__hash__', '__str__', '__repr__', '__len__', '__iter__', '__bool__'):
        x = E.clsattr(cls, m)
        if x and x[0] == 'Fn' and x[1] in E.fns and any(isinstance(n, ast.Attribute) and n.attr == attr
                                                        for n in ast.walk(E.fns[x[1]].node)):
            return False
    return True


def origin(E, st, o):
    """('operand', name) | ('shared', text) | ('self',...) | None for something this code made itself."""
    if o[0] == 'R':
        ob = E.obj(st, o)
        return ('shared', ob.cls or ob.kind) if ob.static else None
    if o[0] in ('Cls', 'Class'):
        return ('class', str(o[1]))
    if o[0] == 'Mod':
        return ('module', str(o[1]))
    if o[0] != 'S':
        return None
    if o[1] in st.fresh:
        return None
    r = root(o)
    if r[0] == 'R':
        ob = E.obj(st, r)
        return ('shared', ob.cls or ob.kind) if ob.static else None
    k = r[1]
    if r[1] in st.fresh:
        return None
    if k[0] == 'n' and k[2] in ('elem', 'item', 'celem'):
        return ('item', 'of an operand')
    if k[0] != 'p':
        return None
    chain = o
    while chain != r:
        if chain[1] in st.fresh:
            return None
        nx = [x for x in chain[1][2:] if isinstance(x, tuple) and x and x[0] in ('S', 'R')]
        chain = nx[0]
    return ('self' if k[1] == 'self' else 'operand', str(k[1]))


class Site(str):
    """The function containing an effect, with the names of the functions that were active."""
    stack = ()

    def within(self, names):
        return any(n in names for n in self.stack)


def collect_effects(task):
    kind, x = task
    found = []

    def setup(c, *rest):
        E = c.E

        def hook(k):
            def f(E_, node, st, d):
                fn = Site(E_.fstack[-1].qual if E_.fstack else '?')
                fn.stack = tuple(dict.fromkeys(f.name for f in E_.fstack))
                line = getattr(node, 'lineno', 0)
                if k in ('setattr', 'mutate', 'setitem'):
                    o = d['obj']
                    og = origin(E_, st, o)
                    if og is None:
                        return
                    ty = E_.types(st, o) if o[0] in ('S', 'R') else None
                    what = d.get('attr') or d.get('how') or 'item'
                    if ty and k == 'setattr' and all(cache_field(E_, t, what) for t in ty):
                        return
                    if ty and ty <= {LVAL}:
                        return
                    found.append((k, fn, line, og, what, tuple(sorted(ty)) if ty else None))
                elif k == 'ext':
                    found.append((k, fn, line, d['name']))
                elif k == 'print':
                    f_ = d['kw'].get('file')
                    found.append((k, fn, line, None if f_ is None else f_[1:] if f_[0] in ('Ext', 'Mod', 'S') else f_[0]))
                elif k == 'open':
                    a = d['args']
                    dep = any(root(z)[0] == 'S' and root(z)[1][0] == 'p' and root(z)[1][1] != 'self' for z in a if z[0] == 'S')
                    mode = a[1] if len(a) > 1 else d['kw'].get('mode')
                    found.append((k, fn, line, dep, mode is None or mode[0] == 'K' and str(mode[2]).strip('bt') == 'r'))
                elif k == 'random':
                    found.append((k, fn, line, d.get('name')))
                elif k == 'setiter':
                    ty = set()
                    for e in d['elems']:
                        t = E_.types(st, e)
                        ty |= set(t) if t else {'?'}
                    if not ty <= {'int', 'bool', 'NoneType'}:
                        found.append((k, fn, line, order_matters(E_, node, E_.fstack[-1] if E_.fstack else None)))
                elif k == 'dyn_getattr':
                    found.append((k, fn, line, repr(d['name'])[:200], d['name']))
                elif k == 'nondet':
                    found.append((k, fn, line, d['what']))
                else:
                    found.append((k, fn, line))
            return f
        for k in KINDS:
            E.hooks.setdefault(k, []).append(hook(k))
    r = H.analyse_row(x, setup=setup) if kind == 'row' else H.analyse_fn(x, setup=setup)
    return dict(row=r.get('row'), missing=r.get('missing'), dropped=r.get('dropped', 0), found=sorted({(e, e[1].stack): e for e in found}.values(), key=repr))


ORDERLESS = {'sorted', 'set', 'frozenset', 'sum', 'any', 'all', 'min', 'max', 'len'}


def order_matters(E, node, fi):
    """Is a set iterated in a way that lets its order reach a result?"""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ORDERLESS:
        return False
    if fi is not None:
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'sorted' or
                                            isinstance(n.func, ast.Attribute) and n.func.attr == 'sort'):
                return None
    return True


def all_effects(rep, fns=True):
    tasks = [('row', i) for i in H.row_list()] + ([('fn', t) for t in H.fn_list()] if fns else [])
    for task, r, err, dt in H.pmap(collect_effects, tasks):
        if err:
            rep.skip(f'{task}: analysis failed: {err.splitlines()[-1]}')
            continue
        if r['missing']:
            rep.skip(f'{task}: no such function')
            continue
        if r['dropped']:
            rep.skip(f"{r['row']}: {r['dropped']} paths beyond the exploration budget")
        rep.count('functions analysed')
        yield task, r


def short(fn):
    return fn.replace('execution.ProgramState.', '')


# ------------------------------------------------------------------------------------------------- C08
VARIABLE_WRITERS = ('assign', 'WIPEGLOBALS', 'openScope', 'closeScope', 'functionCall', 'executeProgram', '__init__')


@prop('C08')
def isolation(rep):
    rep.explanation = ('Effect analysis of every operator, command and value method over all operand type combinations: each '
                       'write to a field, item or container is traced to the object it changes; the object must have been made '
                       'by the operation itself (or be a copy), never an operand, a part of one, a shared constant, a class or '
                       'the interpreter state other than through assignment.')
    for (kind, x), r in all_effects(rep):
        for e in r['found']:
            if e[0] not in ('setattr', 'mutate', 'setitem'):
                continue
            k, fn, line, og, what, ty = e
            rep.count('writes classified')
            me = fn.split('.')[-1]
            if og[0] == 'self':
                if fn.within(VARIABLE_WRITERS):
                    continue
                if fn.startswith('ptypes.') and kind == 'fn':
                    # a variable's value changed in place by an indexed assignment
                    if x[0] == P + 'assign':
                        continue
                rep.bad(f'state:{short(fn)}:{what}', f'{r["row"]}: {short(fn)} changes the interpreter state ({what}) outside assignment',
                        f'line {line}')
            elif og[0] in ('operand', 'item'):
                if og[0] == 'item' and kind == 'fn' and x[0] == P + 'assign':
                    continue
                if kind == 'fn' and x[0] in (P + 'assign',) and ty is None:
                    continue
                rep.bad(f'operand:{short(fn)}:{what}', f'{r["row"]}: {short(fn)} modifies its operand {og[1]} in place ({what})',
                        f'line {line}, object of type {"/".join(ty) if ty else "?"}')
            else:
                rep.bad(f'{og[0]}:{short(fn)}:{what}', f'{r["row"]}: {short(fn)} modifies a {og[0]} object ({og[1]}, {what})', f'line {line}')


# ------------------------------------------------------------------------------------------------- C14
def is_stderr(f):
    return f is not None and 'stderr' in str(f)


@prop('C14')
def output(rep):
    rep.explanation = ('Effect analysis of every operator, command, value method and core function: each write to a stream is '
                       'collected with its destination. Standard output is reached only from the printing operators (and '
                       'the end of executeProgram); warnings go to the standard error stream; the printing operators print the '
                       'display form of their operand exactly once and yield the operand.')
    c = H.ctx()
    printers = {r.handler for r in c.rows if r.symbol in ('P', 'O')}
    for (kind, x), r in all_effects(rep):
        for e in r['found']:
            if e[0] == 'print' and not is_stderr(e[3]):
                rep.count('writes to standard output')
                fn = short(e[1])
                if e[1].within(printers):
                    continue
                rep.bad(f'stdout:{fn}', f'{r["row"]}: {fn} writes to standard output', f'line {e[2]}')
            elif e[0] == 'print':
                rep.count('writes to standard error')
            elif e[0] == 'ext' and ('stdout' in e[3] and 'write' in e[3] or e[3] in ('os.write', 'pprint.pprint')):
                if not e[1].within(printers):
                    rep.bad(f'stdout:{short(e[1])}', f'{r["row"]}: {short(e[1])} writes to standard output', f'line {e[2]}')
    from .print_ import printing
    printing(rep)


# ------------------------------------------------------------------------------------------------- C17
DANGER = ('eval', 'exec', 'compile', '__import__', 'breakpoint', 'globals', 'locals', 'vars', 'delattr')
DANGER_MOD = ('os', 'subprocess', 'socket', 'shutil', 'ctypes', 'urllib', 'http', 'pickle', 'marshal', 'importlib', 'pathlib',
              'tempfile', 'glob', 'multiprocessing', 'threading', 'signal', 'code', 'runpy', 'asyncio', 'webbrowser', 'io', 'pty', 'ast',
              'shelve', 'dbm', 'sqlite3', 'ftplib', 'smtplib', 'ssl', 'select', 'fileinput', 'codeop', 'builtins', 'inspect', 'gc')
SAFE_SYS = ('sys.stdout.flush', 'sys.stderr.flush', 'sys.stdout.write', 'sys.stderr.write', 'sys.intern', 'sys.getrecursionlimit',
            'sys.getsizeof', 'sys.exc_info')


@prop('C17')
def sandbox(rep):
    rep.explanation = ('Effect analysis of every operator, command and core function: every call of a host-library function is '
                       'collected; none may evaluate text as host code, open files, start processes, reach the network, end the '
                       'interpreter, or select an attribute by a name that the program controls (operator functions are selected '
                       'only by the name in the operator table).')
    for (kind, x), r in all_effects(rep):
        for e in r['found']:
            fn = short(e[1])
            if e[0] == 'ext':
                rep.count('host calls classified')
                n = e[3].replace('builtins.', '')
                mod = n.split('.')[0]
                if n in DANGER or mod in DANGER_MOD and '.' in n or (n.startswith('sys.') and n not in SAFE_SYS and n.count('.') <= 2
                                                                     and not n.startswith(('sys.std', 'sys.max', 'sys.exit'))):
                    rep.bad(f'host:{fn}:{n}', f'{r["row"]}: {fn} calls {n}', f'line {e[2]}')
            elif e[0] == 'open':
                if e[3] or not e[4]:
                    rep.bad(f'open:{fn}', f'{r["row"]}: {fn} opens a file '
                            + ('whose name the program controls' if e[3] else 'for writing'), f'line {e[2]}')
                elif not e[1].within(('getRval',)):
                    rep.bad(f'open:{fn}', f'{r["row"]}: {fn} opens a file', f'line {e[2]}')
            elif e[0] == 'exit':
                rep.bad(f'exit:{fn}', f'{r["row"]}: {fn} ends the interpreter', f'line {e[2]}')
            elif e[0] == 'input':
                rep.count('reads of standard input')
                if not e[1].within(('getq', 'input', 'readline')) and kind == 'row':
                    rep.bad(f'input:{fn}', f'{r["row"]}: {fn} reads standard input', f'line {e[2]}')
            elif e[0] == 'dyn_getattr':
                rep.count('dynamic attribute selections')
                n = e[4]
                if not (n[0] == 'S' and n[1][0] == 'd' and n[1][1] == 'f' and n[1][3] == 'function'):
                    rep.bad(f'getattr:{fn}', f'{r["row"]}: {fn} selects an attribute by a name that is not from the operator table',
                            f'line {e[2]}')


# ------------------------------------------------------------------------------------------------- C18
RANDOM_HANDLERS = {'RANDRANGE', 'RANDCHOICE', 'RANDRANGETO', 'SHUFFLE', 'getr', 'setr'}
NONDET_EXT = ('time.', 'datetime.', 'uuid.', 'secrets.', 'os.urandom', 'os.getpid', 'os.environ', 'os.getenv', 'random.SystemRandom',
              'platform.', 'getpass.', 'socket.', 'tempfile.', 'locale.', 'random.')


@prop('C18')
def determinism(rep):
    rep.explanation = ('Effect analysis of every operator, command and value method: random draws, object identities, clock, '
                       'environment and the iteration order of hash sets of text may reach a result only in the documented random '
                       'operators and the variable r, which draw from the one generator that assigning to r seeds.')
    c = H.ctx()
    for (kind, x), r in all_effects(rep):
        for e in r['found']:
            fn = short(e[1])
            if e[0] == 'random':
                rep.count('random draws classified')
                if not e[1].within(RANDOM_HANDLERS):
                    rep.bad(f'random:{fn}', f'{r["row"]}: {fn} uses the random generator ({e[3]})', f'line {e[2]}')
                elif e[3] == 'seed' and not e[1].within(('setr',)):
                    rep.bad(f'seed:{fn}', f'{r["row"]}: {fn} reseeds the random generator', f'line {e[2]}')
            elif e[0] == 'nondet':
                rep.bad(f'nondet:{fn}:{e[3]}', f'{r["row"]}: {fn} depends on {e[3]}', f'line {e[2]}')
            elif e[0] == 'setiter':
                rep.count('set iterations classified')
                if e[3]:
                    rep.bad(f'setorder:{fn}', f'{r["row"]}: {fn} takes items in the order of a hash set', f'line {e[2]}')
                elif e[3] is None:
                    rep.skip(f'{r["row"]}: {fn} line {e[2]} iterates over a set and sorts something')
            elif e[0] == 'ext':
                n = e[3]
                if n.startswith(NONDET_EXT) and n.split('.')[-1] not in ('random', 'randrange', 'choice', 'shuffle', 'seed', 'randint',
                                                                         'sample', 'uniform', 'choices'):
                    rep.bad(f'nondet:{fn}:{n}', f'{r["row"]}: {fn} depends on {n}', f'line {e[2]}')
