"""The command line, the read-eval-print loop and error containment (C11), list formats (C24), the warnings
switch (C15)."""
import argparse, itertools
import harness as H
from harness import P, PS
from values import *
from engine_consts import *
from engine import Obj
from texts import parts
from world import World, record, events
from . import prop
from .print_ import shown, join
from .eval_ import collect

CODE = 'CODE'


class Parser(argparse.ArgumentParser):
    """The library's own argument parser, fed with the option definitions read off the source."""

    def error(self, message):
        raise SystemExit(2)

    def exit(self, status=0, message=None):
        raise SystemExit(status)

    def print_help(self, file=None):
        pass

    def _print_message(self, message, file=None):
        pass


class Shell:
    """pip.py's entry points run abstractly; scanning, parsing, evaluating and the outside world are replaced by
    recording stand-ins whose outcomes the scenario fixes."""

    def __init__(self, stdin=(), files=None, argv=None, outcomes=None, keep=()):
        self.W = W = World()
        self.E = E = W.E
        self.st = st = W.state()
        E.exc_text = True
        E.inline_eq = True
        self.stdin, self.files = list(stdin), files or {}
        self.outcomes = outcomes or {}
        self.ends = []
        self.states = []
        self.odd = []
        E.extvals = {}
        if argv is not None:
            E.extvals['sys.argv'] = W.plist(st, [K(a) for a in argv])
        self.argv = argv
        I = E.intrinsics
        I['argparse.ArgumentParser'] = self.parser
        I['.add_argument'] = self.add_argument
        I['.add_mutually_exclusive_group'] = self.group
        I['.add_argument_group'] = self.group
        I['.parse_args'] = self.parse_args
        I['builtins.input'] = self.input
        I['builtins.open'] = self.open
        I['.read'] = self.read
        I['.close'] = lambda E_, o, a, kw, s, n: [(s, NONE)]
        I['pprint.pprint'] = self.pprint
        I['sys.exit'] = I['builtins.exit'] = I['builtins.quit'] = I['os._exit'] = self.exit
        I['scanning.scan'] = self.stage('scan')
        I['parsing.parse'] = self.stage('parse')
        I['scanning.addSpaces'] = lambda E_, fi, a, kw, s, n: [(s, K('spaced'))]
        for m in ('getRval', 'evaluate', 'executeStatement', 'executeProgram', 'PRINT', 'REPR', 'updateHistoryVars'):
            if m not in keep:
                I[P + m] = self.stage(m)
        E.hooks.setdefault('print', []).append(self.print)
        E.hooks.setdefault('ext', []).append(self.ext)

    # outside world -----------------------------------------------------------------
    def ext(self, E_, node, st, d):
        n = d['name']
        if n.startswith(('sys.stdout.write', 'sys.stdout.writelines')):
            record('print')(st, 'out', self.pieces(st, d['args'], '', ''))
        elif n.startswith('sys.stderr.write'):
            record('print')(st, 'err', self.pieces(st, d['args'], '', ''))

    def pieces(self, st, args, sep, end):
        out = []
        for i, a in enumerate(args):
            if i:
                out.append(sep)
            if a[0] == 'Star':
                t = ['?']
            else:
                t = shown(self.W, st, a) or ['?']
            out += t
        out.append(end)
        return join(*out)

    def print(self, E_, node, st, d):
        kw = d['kw']
        f = kw.get('file')
        stream = 'err' if f is not None and 'stderr' in str(f) else 'out'
        end, sep = kw.get('end', K('\n')), kw.get('sep', K(' '))
        record('print')(st, stream, tuple(self.pieces(st, d['args'], sep[2] if sep[0] == 'K' and sep[2] is not None else ' ',
                                                      end[2] if end[0] == 'K' and end[2] is not None else '\n')))

    def pprint(self, E_, args, kw, st, node):
        record('print')(st, 'out', tuple(self.pieces(st, args[:1], ' ', '\n')))
        return [(st, NONE)]

    def input(self, E_, args, kw, st, node):
        i = st.mon.get('line', 0)
        st.mon['line'] = i + 1
        prompt = args[0][2] if args and args[0][0] == 'K' else ''
        x = self.stdin[i] if i < len(self.stdin) else EOFError
        record('input')(st, prompt, x)
        if isinstance(x, str):
            return [(st, K(x))]
        E_.raise_(st, x.__name__, node)
        return []

    def open(self, E_, args, kw, st, node):
        name = args[0][2] if args and args[0][0] == 'K' else None
        record('open')(st, name, len(args) > 1 or 'mode' in kw)
        x = self.files.get(name)
        if not isinstance(x, str):
            E_.raise_(st, (x or FileNotFoundError).__name__, node)
            return []
        return [(st, E_.alloc(st, Obj('inst', '_io.TextIOWrapper', {'text': K(x)})))]

    def read(self, E_, o, a, kw, st, node):
        t = self.W.get(st, o, 'text')
        if t is not None:
            return [(st, t)]

    def exit(self, E_, args, kw, st, node):
        E_.raises.append((st, ('X', 'SystemExit', tuple(args), E_.where(node) + ('',), False)))
        return []

    # option parsing ----------------------------------------------------------------
    def parser(self, E_, args, kw, st, node):
        st.mon['opts'] = ()
        return [(st, E_.alloc(st, Obj('inst', 'argparse.ArgumentParser', {})))]

    def group(self, E_, o, args, kw, st, node):
        r = E_.alloc(st, Obj('inst', 'argparse._Group', {}))
        st.mon['opts'] = st.mon.get('opts', ()) + (('group', o, r, tuple(sorted(kw.items()))),)
        return [(st, r)]

    def add_argument(self, E_, o, args, kw, st, node):
        st.mon['opts'] = st.mon.get('opts', ()) + (('arg', o, tuple(args), tuple(sorted(kw.items()))),)
        return [(st, NONE)]

    def parse_args(self, E_, o, args, kw, st, node):
        argv = None
        if args:
            it = self.W.items(st, args[0])
            if it is not None and all(x[0] == 'K' for x in it):
                argv = [x[2] for x in it]
        else:
            argv = list((self.argv or ['pip.py'])[1:])
        record('argv')(st, tuple(argv) if argv is not None else None)
        if argv is None:
            self.odd.append('the command line is not known')
            return []
        ps = {}
        top = Parser(prog='pip')

        def plain(x):
            if x[0] == 'K':
                return x[2]
            it = self.W.items(st, x)
            if it is not None:
                return [plain(y) for y in it]
            if x[0] == 'Ext' and x[1].startswith('builtins.'):
                return {'int': int, 'str': str}.get(x[1][9:])
            raise ValueError('option definition ' + str(x))
        try:
            for e in st.mon.get('opts', ()):
                owner = ps.get(e[1], top)
                if e[0] == 'group':
                    k = {a: plain(b) for a, b in e[3]}
                    ps[e[2]] = owner.add_mutually_exclusive_group(**k)
                else:
                    owner.add_argument(*[plain(x) for x in e[2]], **{a: plain(b) for a, b in e[3]})
        except (ValueError, TypeError, argparse.ArgumentError) as err:
            self.odd.append(f'option definitions not understood: {err}')
            return []
        try:
            ns = top.parse_args(argv)
        except SystemExit as err:
            record('usage')(st, err.code)
            E_.raises.append((st, ('X', 'SystemExit', (K(err.code),), E_.where(node) + ('',), False)))
            return []

        def val(x):
            return self.W.plist(st, [K(y) for y in x]) if isinstance(x, list) else K(x)
        return [(st, E_.alloc(st, Obj('inst', 'argparse.Namespace', {k: val(x) for k, x in vars(ns).items()})))]

    # stages of the interpreter -----------------------------------------------------------------
    def stage(self, name):
        """A step of running a program: recorded, with the outcome the scenario fixes for its input."""
        def run(E_, fi, args, kw, st, node):
            args = args[1:] if name not in ('scan', 'parse') else list(args)
            vals = args + [v for k, v in sorted(kw.items())]
            key = tuple(self.norm(st, a) for a in vals)
            if name == 'executeProgram':
                self.states.append((st.copy(), vals))
            if name == 'getRval' and len(args) == 1 and E_.types(st, args[0]) is not None and E_.types(st, args[0]) <= PIP:
                return [(st, args[0])]
            record(name)(st, *key)
            o = self.outcomes.get((name,) + key, self.outcomes.get(name))
            if callable(o) and not isinstance(o, type):
                o = o(self, st, key)
            if isinstance(o, str):
                E_.raises.append((st, ('X', o, (K(f'reason {o}'),), E_.where(node) + ('',), False)))
                return []
            if o is None:
                if name in ('scan', 'parse'):
                    tag = name + ':' + (key[0] if key and isinstance(key[0], str) else '?')
                    o = self.W.plist(st, [K(tag + ':0'), K(tag + ':1')])
                elif name in ('getRval', 'executeStatement', 'evaluate', 'REPR'):
                    o = self.W.inst(st, SCALAR, K(f'{name} of {key[0] if key else ""}'))
                else:
                    o = NONE
            return [(st, o)]
        return run

    def norm(self, st, v):
        if v[0] == 'K':
            return v[2]
        it = self.W.items(st, v)
        if it is not None:
            r = tuple(self.norm(st, x) for x in it)
            # what scan and parse return stands for itself
            if r and isinstance(r[0], str) and r[0].endswith(':0') and len(r) == 2:
                return r[0][:-2]
            return r
        t = self.W.get(st, v, '_value')
        if t is not None and t[0] == 'K':
            return ('text', t[2])
        ty = self.E.types(st, v)
        if ty == {NIL}:
            return 'nil'
        return v

    def run(self, fn, *args, **kw):
        """[(events, end)]; end is None for a normal return, else the exception's class."""
        E = self.E
        saved = E.fstack
        a = [x(self) if callable(x) else x for x in args]
        k = {n: (x(self) if callable(x) else x) for n, x in kw.items()}
        E.budget = 400000
        E.nsteps = 0
        E.concrete_while = 40
        res, raises = E.analyse(fn, a, self.st, k)
        E.fstack = saved
        out = [(events(s), None, s, v) for s, v in res] + [(events(s), x[1], s, x) for s, x in raises]
        E.extvals = {}
        return out


def lst(*texts):
    return lambda sh: sh.W.plist(sh.st, [K(t) for t in texts])


def said(ev, stream):
    """What the shell itself printed on a stream."""
    return join(*[p for e in ev if e[0] == 'print' and e[1] == stream for p in e[2]])


def steps(ev, *names):
    return [e for e in ev if e[0] in names]


# ---------------------------------------------------------------- C11: errors are contained
ERRORS = ['errors.FatalError', 'errors.BadSyntax', 'errors.IncompleteSyntax', 'ValueError', 'TypeError', 'KeyError',
          'ZeroDivisionError', 'RecursionError', 'OverflowError', 'MemoryError', 'OSError', 'AttributeError',
          'UnicodeEncodeError', 'KeyboardInterrupt']
SYNTAX = ['errors.FatalError', 'errors.BadSyntax', 'errors.IncompleteSyntax']
SOURCES = {'code': (lambda sh: K(CODE), []), 'e': (NONE, ['-e', CODE]), 'f': (NONE, ['-f', 'FILE']),
           'name': (NONE, ['FILE']), 'i': (NONE, ['-i'])}


def fatal(E, end):
    return end is not None and E.exc_isa(end, 'errors.FatalError')


def text(ps):
    return ''.join(p if isinstance(p, str) else '<' + str(p)[:40] + '>' for p in ps)


def judge(sh, outs, what, f):
    """Apply f(events, end, state, value) -> [(key, text)] to every outcome. When some outcomes are fine, the rest may
    be due to what the analysis does not know."""
    if sh.odd:
        return dict(undecided=f'{what}: {sh.odd[0]}', n=0)
    if not outs or sh.E.dropped:
        return dict(undecided=f'{what}: no outcome', n=0)
    bads, clean = [], 0
    for o in outs:
        b = f(*o)
        clean += not b
        bads += b
    if bads and clean:
        return dict(undecided=f'{what}: several outcomes, one is as it should be', n=len(outs))
    return dict(bad=bads, n=len(outs))


def contained_task(task):
    kind = task[0]
    if kind == 'pip':
        _, src, opts, stage, exc, which = task
        code, argv = SOURCES[src]
        key = None
        if which == 'arg':
            o = {(stage, {'scan': 'ARG', 'parse': 'scan:ARG', 'getRval': 'parse:scan:ARG:0'}[stage]): exc}
        else:
            o = {stage: exc}
        sh = Shell(files={'FILE': CODE}, stdin=[CODE] if src == 'i' else [], outcomes=o)
        outs = sh.run('pip.pip', code, lst(*(opts + argv + ['ARG'])), FALSE)
        what = f'{exc.split(".")[-1]} while {"evaluating an argument" if stage == "getRval" else stage}' + \
            (' of an argument' if which == 'arg' and stage != 'getRval' else '')
        what += f' ({" ".join(opts + argv) or "code given"})'

        def f(ev, end, st, v):
            bad = []
            if not steps(ev, stage):
                return [(f'step:{stage}:{which}', f'{what}: the step is not reached')]
            if end is None:
                bad.append((f'ignored:{stage}:{which}', f'{what}: the error is lost and the caller sees success'))
            elif not fatal(sh.E, end):
                bad.append((f'escapes:{stage}:{which}:{exc}', f'{what} ends in {end} instead of a message and FatalError'))
            err = text(said(ev, 'err'))
            if not err.strip() or exc != 'KeyboardInterrupt' and f'reason {exc}' not in err:
                bad.append((f'message:{stage}:{which}', f'{what}: standard error does not give the reason'))
            if said(ev, 'out') and '-v' not in opts:
                bad.append((f'stdout:{stage}:{which}', f'{what} writes {text(said(ev, "out"))[:80]!r} to standard output'))
            if stage != 'executeProgram' and steps(ev, 'executeProgram'):
                bad.append((f'runs:{stage}:{which}', f'{what}: the program is run all the same'))
            return bad
        return judge(sh, outs, what, f)
    if kind == 'file':
        exc = task[1]
        import builtins
        sh = Shell(files={'FILE': getattr(builtins, exc)})
        outs = sh.run('pip.pip', NONE, lst(*task[2]), FALSE)
        what = f'{exc} when reading the code file'

        def f(ev, end, st, v):
            bad = []
            if not fatal(sh.E, end):
                bad.append((f'file:{exc}', f'{what} ends in {end or "success"} instead of a message and FatalError'))
            if not text(said(ev, 'err')).strip() or said(ev, 'out'):
                bad.append(('file:message', f'{what} is not reported on standard error (only)'))
            if steps(ev, 'executeProgram', 'scan'):
                bad.append(('file:runs', f'{what}: something is run all the same'))
            return bad
        return judge(sh, outs, what, f)
    if kind == 'main':
        exc = task[1]
        sh = Shell(argv=['pip', '-e', CODE], outcomes={'executeProgram': exc})
        outs = sh.run('pip.main')
        what = f'main() when the program ends with {exc}'

        def f(ev, end, st, v):
            if end != 'SystemExit':
                return [(f'main:{exc}', f'{what} ends in {end or "success"} instead of an exit status')]
            code = v[2][0] if v[2] else NONE
            if code in (NONE, K(0), FALSE):
                return [('main:status', f'{what}: the exit status is that of success')]
            return []
        return judge(sh, outs, what, f)
    if kind == 'ok':
        sh = Shell(argv=['pip', '-e', CODE])
        return judge(sh, sh.run('pip.main'), 'main() of a good program', lambda ev, end, st, v:
                     [('main:good', f'a program without errors ends in {end}')] if end is not None or
                     len(steps(ev, 'executeProgram')) != 1 else [])
    if kind == 'run':
        exc = task[1]
        sh = Shell(outcomes={'executeProgram': exc})
        outs = sh.run('pip.run', K(CODE), lst('ARG'))
        return judge(sh, outs, 'run()', lambda ev, end, st, v:
                     [(f'run:{exc}', f'run() of a program that fails ends in {end}')] if end is not None else
                     [('run:steps', 'run() does not run the code given to it')] if ('scan', CODE) not in ev else [])


@prop('C11')
def contained(rep):
    rep.explanation = ('pip.pip, pip.main, pip.run and pip.repl are executed abstractly with the stages of a run (scanning, '
                       'parsing, evaluating arguments, execution) replaced by stand-ins that raise a given exception; on '
                       'every path the error must be reported on standard error and end in FatalError (exit status 1, '
                       'the next prompt in the REPL), with nothing else run or printed.')
    tasks = []
    for src in SOURCES:
        for stage, excs in (('scan', SYNTAX), ('parse', SYNTAX + ['RecursionError']), ('executeProgram', ERRORS)):
            for exc in excs:
                tasks.append(('pip', src, [], stage, exc, 'program'))
    for stage, excs in (('scan', SYNTAX), ('parse', SYNTAX + ['RecursionError']), ('getRval', ERRORS)):
        for exc in excs:
            tasks.append(('pip', 'e', ['-x'], stage, exc, 'arg'))
    for stage, exc in (('scan', SYNTAX[0]), ('parse', SYNTAX[1]), ('executeProgram', 'RecursionError')):
        tasks.append(('pip', 'e', ['-v'], stage, exc, 'program'))
        tasks.append(('pip', 'e', ['-w'], stage, exc, 'program'))
    for exc in ('FileNotFoundError', 'PermissionError', 'IsADirectoryError', 'UnicodeDecodeError'):
        for argv in (['-f', 'FILE'], ['FILE', 'ARG']):
            tasks.append(('file', exc, argv))
    for exc in ('errors.FatalError', 'ValueError', 'RecursionError', 'KeyboardInterrupt'):
        tasks += [('main', exc), ('run', exc)]
    tasks.append(('ok',))
    collect(rep, contained_task, tasks, 'error scenarios')
    collect(rep, repl_task, [t for t in repl_tasks() if t[1] == 'C11'], 'REPL sessions with errors')


# ---------------------------------------------------------------- C40: the read-eval-print loop
def repl_tasks():
    import builtins
    T = []

    def t(name, pid, lines, want, outcomes=None, on=None, err=None):
        T.append((name, pid, lines, want, outcomes or {}, on, err))

    def st(line, i=0):
        return f'parse:scan:{line}\n:{i}'
    for exc in SYNTAX[1:2]:
        t('a line that cannot be scanned', 'C11', ['bad', 'good'], ['good'], {('scan', 'bad\n'): exc}, err=f'reason {exc}')
        t('a line that cannot be parsed', 'C11', ['bad', 'good'], ['good'], {('parse', 'scan:bad\n'): exc}, err=f'reason {exc}')
    t('a line nested too deeply to parse', 'C11', ['bad', 'good'], ['good'], {('parse', 'scan:bad\n'): 'RecursionError'},
      err='reason RecursionError')
    for exc in ERRORS:
        why = '' if exc == 'KeyboardInterrupt' else f'reason {exc}'
        t(f'a statement that fails with {exc}', 'C11', ['bad', 'good'], ['good'], {('executeStatement', st('bad')): exc}, err=why)
        t(f'a second statement that fails with {exc}', 'C11', ['bad', 'good'], ['bad:0', 'good'],
          {('executeStatement', st('bad', 1)): exc}, err=why)
    t('several lines', 'C40', ['one', 'two', 'three'], ['one', 'two', 'three'])
    t('no input', 'C40', [], [])
    t('an interrupt at the prompt', 'C40', ['one', KeyboardInterrupt, 'two'], ['one'])
    t('an incomplete line and the rest of it', 'C40', ['one', 'two', 'three'], ['one\ntwo', 'three'],
      {('parse', 'scan:one\n'): 'errors.IncompleteSyntax'})
    t('an unfinished string and the rest of it', 'C40', ['one', 'two', 'three'], ['one\ntwo', 'three'],
      {('scan', 'one\n'): 'errors.IncompleteSyntax'})
    t('a statement over three lines', 'C40', ['one', 'two', 'three', 'four'], ['one\ntwo\nthree', 'four'],
      {('scan', 'one\n'): 'errors.IncompleteSyntax', ('parse', 'scan:one\ntwo\n'): 'errors.IncompleteSyntax'})
    t('an incomplete line that turns out bad', 'C40', ['one', 'two', 'three'], ['three'],
      {('scan', 'one\n'): 'errors.IncompleteSyntax', ('parse', 'scan:one\ntwo\n'): 'errors.BadSyntax'})
    t('input ending in an incomplete line', 'C40', ['one', 'two'], ['one'], {('parse', 'scan:two\n'): 'errors.IncompleteSyntax'})
    t('a command statement', 'C40', ['one', 'two'], ['one!', 'two'],
      {('executeStatement', st('one')): 'nothing', ('executeStatement', st('one', 1)): 'nothing'})
    t('a statement with the value nil', 'C40', ['one', 'two'], ['one=nil', 'two'],
      {('executeStatement', st('one')): 'nil', ('executeStatement', st('one', 1)): 'nil'})
    for c in (';q', ';quit', ';exit', ';e', ';ex', ';x', ';QUIT', '; quit', ';q now'):
        t(f'the command {c}', 'C40', ['one', c, 'two'], ['one'])
    for c, on in ((';w', True), (';warnings', True), (';w on', True), (';w off', False), (';WARN ON', True)):
        t(f'the command {c}', 'C40', ['one', c, 'two'], ['one', 'two'], on=on)
    t('switching warnings twice', 'C40', [';w', ';w', 'two'], ['two'], on=False)
    t('switching warnings on and on', 'C40', [';w on', ';w on', 'two'], ['two'], on=True)
    t('switching warnings on and off', 'C40', [';w on', ';w off', 'two'], ['two'], on=False)
    t('switching warnings to something else', 'C40', [';w maybe', 'two'], ['two'], on=False)
    for c in (';h', ';help', ';', ';;', '; a comment', ';later'):
        t(f'the line {c}', 'C40', ['one', c, 'two'], ['one', 'two'])
    return T


def repl_task(task):
    name, pid, lines, want, outcomes, on, err = task
    oc = {}
    for k, v in outcomes.items():
        oc[k] = v
    for l in lines:
        if isinstance(l, str) and l.startswith(';'):
            oc[('parse', f'scan:{l}\n')] = lambda sh, st, key: sh.W.plist(st, [])
    for k, v in list(oc.items()):
        if v == 'nothing':
            oc[k] = lambda sh, st, key: NONE
        if v == 'nil':
            oc[k] = lambda sh, st, key: sh.W.inst(st, NIL)
    sh = Shell(stdin=lines, outcomes=oc, keep=('PRINT', 'REPR'))
    sh.E.inline_str = True
    outs = sh.run('pip.repl', NONE, FALSE)
    exp = []
    for w in want:
        i = w.endswith(':0')
        for j in range(1 if i else 2):
            t = f'parse:scan:{w[:-2] if i else w.rstrip("!").replace("=nil", "")}\n:{j}'
            exp.append([('executeStatement', t)])
            if w.endswith('!'):
                continue
            val = 'nil' if w.endswith('=nil') else ('text', f'executeStatement of {t}')
            exp[-1] += sorted([('shows', '()\n' if val == 'nil' else f'"{val[1]}"\n'), ('updateHistoryVars', val)])

    def f(ev, end, st, v):
        bad = []
        if end is not None:
            return [(f'ends:{name}', f'the REPL, given {name}, ends in {end}')]
        got = groups([e for e in ev if not (e[0] == 'executeStatement' and outcomes.get(e) in ERRORS)])
        if got != exp:
            n = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            bad.append((f'steps:{name}', f'the REPL, given {name}: as step {n + 1} it does '
                        f'{got[n] if n < len(got) else "nothing"} instead of {exp[n] if n < len(exp) else "nothing"}'))
        se = text(said(ev, 'err'))
        if err is not None and (not se.strip() or err not in se):
            bad.append((f'message:{name}', f'the REPL, given {name}, does not report the reason on standard error'))
        if on is not None:
            w = sh.W.get(st, state_of(sh, st), 'err', 'warnings')
            if w is None or w[0] != 'K':
                pass
            elif bool(w[2]) != on:
                bad.append((f'warnings:{name}', f'the REPL, after {name}, has warnings {"on" if w[2] else "off"}'))
        so = text(said(ev, 'out'))
        if 'reason' in so:
            bad.append((f'stdout:{name}', f'the REPL, given {name}, writes the error message to standard output'))
        return bad
    return judge(sh, outs, f'the REPL, given {name}', f)


def groups(evs):
    """What is done for each statement: it is executed, then its value is shown and remembered, in either order."""
    out, cur = [], None
    for e in evs:
        if e[0] == 'input':
            cur = None
        elif e[0] == 'executeStatement':
            cur = []
            out.append([e, cur])
        elif cur is not None and e[0] == 'updateHistoryVars':
            cur.append(e)
        elif cur is not None and e[0] == 'print' and e[1] == 'out':
            cur.append(('shows', text(e[2])))
    return [[e] + sorted(c) for e, c in out]


def state_of(sh, st):
    for a, o in st.heap.items():
        if o.kind == 'inst' and o.cls == PS and a not in sh.st.heap:
            return ('R', a)
    c = [a for a, o in st.heap.items() if o.kind == 'inst' and o.cls == PS]
    return ('R', max(c, key=str)) if c else None


@prop('C40')
def repl_loop(rep):
    rep.explanation = ('pip.repl is executed abstractly on scripted sessions (complete, incomplete and bad lines, commands, '
                       'interrupts, end of input): the statements executed, the values shown and remembered and the state '
                       'of the warnings switch must be those of the session.')
    collect(rep, repl_task, [t for t in repl_tasks() if t[1] == 'C40'], 'REPL sessions')


# ---------------------------------------------------------------- C39: the command line
OPTS = {'d': 'debug', 'v': 'verbose', 'w': 'warnings', 'r': 'readlines', 'x': 'exec-args',
        'l': 'lines', 'n': 'newline', 'p': 'repr', 'P': 'reprlines', 's': 'space', 'S': 'spacelines'}
FORMATS = 'lnpPsS'


def line_tasks():
    T = []
    argss = [[], ['A'], ['A', 'B']]
    for src in SOURCES:
        for args in argss:
            T.append((src, [], args, 'after'))
            if src != 'name':
                T.append((src, [], args, 'before'))
        for o in OPTS:
            for long in (False, True):
                T.append((src, ['--' + OPTS[o] if long else '-' + o], ['A', 'B'], 'after'))
    for a, b in itertools.combinations('vwrx', 2):
        T.append(('e', ['-' + a + b], ['A', 'B'], 'after'))
    for a in 'rx':
        for b in FORMATS:
            T.append(('e', ['-' + a, '-' + b], ['A', 'B'], 'after'))
    for args in argss:
        T.append(('f', ['-rx'], args, 'after'))
        T.append(('code', ['-x'], args, 'after'))
        T.append(('i', ['-r'], args, 'after'))
    T.append(('--file', [], ['A'], 'after'))
    T.append(('--execute', [], ['A'], 'after'))
    T.append(('--stdin', [], ['A'], 'after'))
    T += [('special', ['-V'], [], ''), ('special', ['--version'], [], ''), ('special', ['-V', '-e', CODE], [], ''),
          ('special', ['-R'], [], ''), ('special', ['--repl', '-w'], [], ''), ('special', [], [], ''), ('special', ['-w'], [], '')]
    for a, b in (('-e C', '-f F'), ('-e C', '-i'), ('-f F', '-i'), ('-R', '-i'), ('-R', '-e C')):
        T.append(('conflict', (a + ' ' + b).split(), [], ''))
    for a, b in itertools.combinations(FORMATS, 2):
        T.append(('conflict', ['-' + a, '-' + b, '-e', CODE], [], ''))
    T.append(('conflict', ['-Z', '-e', CODE], [], ''))
    T.append(('nothing in an argument', ['-x'], ['', 'B'], ''))
    return T


LINES = ['line1', 'line2']


def line_task(task):
    src, opts, args, where = task
    E = None
    short = set(''.join(o[1:] if not o.startswith('--') else
                        next((k for k, v in OPTS.items() if v == o[2:]), '') for o in opts))
    if src == 'special':
        return special(opts)
    if src == 'conflict':
        sh = Shell(files={'F': CODE})
        outs = sh.run('pip.pip', NONE, lst(*opts), FALSE)
        return judge(sh, outs, ' '.join(opts), lambda ev, end, st, v: [] if end == 'SystemExit' and
                     not steps(ev, 'scan', 'executeProgram') else
                     [(f'conflict:{" ".join(opts)}', f'the options {" ".join(opts)} are accepted together')])
    outcomes = {}
    if src.startswith('nothing'):
        src = 'e'
        outcomes[('parse', 'scan:')] = lambda sh, st, key: sh.W.plist(st, [])
    if src.startswith('--'):
        code, srcargs = NONE, [src] + ([] if src == '--stdin' else [CODE if src == '--execute' else 'FILE'])
    else:
        code, srcargs = SOURCES[src]
    stdin = []
    if src in ('i', '--stdin'):
        stdin = ['', ' first', CODE + ' ', '']
    if 'r' in short:
        stdin = stdin + ([EOFError] if stdin else []) + LINES
    argv = opts + srcargs + args if where != 'before' else opts + args + srcargs
    sh = Shell(files={'FILE': '  ' + CODE + '\n\n'}, stdin=stdin, outcomes=outcomes)
    E = sh.E
    outs = sh.run('pip.pip', code, lst(*argv), FALSE)
    program = CODE if src not in ('i', '--stdin') else '\n first\n' + CODE + ' \n'
    if src in ('f', 'name', '--file'):
        program = '  ' + CODE + '\n\n'
    given = LINES if 'r' in short else args
    shown_args = given
    what = f'pip {" ".join(argv)}' if code == NONE else f'pip({CODE!r}, {argv})'
    want = [('scan', program), ('parse', f'scan:{program}')]
    values = [('text', a) for a in shown_args]
    evals = []
    if 'x' in short:
        for a in shown_args:
            evals += [('scan', a), ('parse', f'scan:{a}')]
            if a:
                evals.append(('getRval', f'parse:scan:{a}:0'))
        values = [('text', f'getRval of parse:scan:{a}:0') if a else 'nil' for a in shown_args]
    want += evals + [('executeProgram', f'parse:scan:{program}', tuple(values))]

    def f(ev, end, st, v):
        if end is not None:
            return [(f'ends:{src}:{"".join(sorted(short))}', f'{what} ends in {end}')]
        bad = []
        got = steps(ev, 'scan', 'parse', 'getRval', 'executeProgram')
        if sorted(map(repr, got)) != sorted(map(repr, want)) or \
                [e for e in got if e[0] in ('getRval', 'executeProgram')] != [e for e in want if e[0] in ('getRval', 'executeProgram')]:
            n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            bad.append((f'steps:{src}:{"".join(sorted(short))}:{len(args)}', f'{what}: step {n + 1} is '
                        f'{got[n] if n < len(got) else "missing"} instead of {want[n] if n < len(want) else "the end"}'))
        if not short & {'v', 'd'} and said(ev, 'out'):
            bad.append(('chatty', f'{what} prints more than the program does: {text(said(ev, "out"))[:80]!r}'))
        if said(ev, 'err'):
            bad.append(('chatty:err', f'{what} writes to standard error: {text(said(ev, "err"))[:80]!r}'))
        if short & {'v', 'd'} and 'spaced' not in text(said(ev, 'out')):
            bad.append(('verbose', f'{what} does not show the tokens of the program'))
        for s, vals in sh.states:
            w = sh.W.get(s, state_of(sh, s), 'err', 'warnings')
            if w is not None and w[0] == 'K' and bool(w[2]) != bool(short & {'w', 'd'}):
                bad.append((f'warnings:{"".join(sorted(short))}', f'{what} runs the program with warnings {"on" if w[2] else "off"}'))
        return bad
    return judge(sh, outs, what, f)


def special(opts):
    outcomes = {}
    sh = Shell(argv=['pip'] + opts, stdin=['one'])
    sh.E.intrinsics['pip.repl'] = lambda E_, fi, a, kw, s, n: (record('repl')(s, *[sh.norm(s, x) for x in a],
                                                                          *[sh.norm(s, x) for k, x in sorted(kw.items())]), [(s, NONE)])[1]
    outs = sh.run('pip.pip', NONE, NONE, FALSE)
    what = 'pip ' + ' '.join(opts)

    def f(ev, end, st, v):
        bad = []
        if end is not None:
            return [(f'special:{what}', f'{what} ends in {end}')]
        if steps(ev, 'scan', 'parse', 'executeProgram', 'open', 'input'):
            bad.append((f'special:{what}', f'{what} runs or reads something'))
        if ('-R' in opts or '--repl' in opts) != bool(steps(ev, 'repl')):
            bad.append((f'special:{what}', f'{what} {"starts a" if steps(ev, "repl") else "does not start the"} REPL'))
        for e in steps(ev, 'repl'):
            if e[1:] != (None, '-w' in opts) and e[1:] != ('-w' in opts, None):
                bad.append((f'special:{what}', f'{what} starts the REPL with {e[1:]}'))
        if not steps(ev, 'repl') and not said(ev, 'out'):
            bad.append((f'special:{what}', f'{what} prints nothing'))
        return bad
    return judge(sh, outs, what, f)


# an argument string: words separated by spaces; quotes group, and the other kind of quote is literal inside
def words(s):
    out, cur, q = [], None, None
    for c in s:
        if q:
            if c == q:
                q = None
            else:
                cur += c
        elif c in '\'"':
            q, cur = c, cur or ''
        elif c == ' ':
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = (cur or '') + c
    if q is None and cur is not None:
        out.append(cur)
    return out, q is None


def split_task(strings):
    bad = []
    n = 0
    for s in strings:
        want, closed = words(s)
        if not closed:
            continue
        sh = Shell()
        sh.E.intrinsics['.parse_args'] = lambda E_, o, a, kw, st, node, sh=sh: (
            record('argv')(st, tuple(sh.norm(st, x) for x in (sh.W.items(st, a[0]) or [K('?')])) if a else None),
            E_.raises.append((st, ('X', 'SystemExit', (), E_.where(node) + ('',), False))), [])[2]
        outs = sh.run('pip.pip', K(CODE), K(s))
        n += 1
        for ev, end, st, v in outs:
            got = steps(ev, 'argv')
            if not got or got[0][1] is None:
                continue
            if list(got[0][1]) != want and '?' not in got[0][1]:
                bad.append(('words', f'the argument string {s!r} is split into {list(got[0][1])} instead of {want}'))
    return dict(bad=bad[:3], n=n)


@prop('C39')
def command_line(rep):
    rep.explanation = ('pip.pip is executed abstractly for every code source with every option, short and long, and pairs of '
                       'options, on the option definitions read off the source: the text scanned, the arguments evaluated and '
                       'passed, what is printed and the switches in force must be those the command line asks for. The '
                       'splitting of an argument string is run on every string over {a, ", \', space} up to the bound.')
    collect(rep, line_task, line_tasks(), 'command lines')
    allw = [''.join(t) for n in range(6 if rep.thorough else 5) for t in itertools.product('a"\' ', repeat=n)]
    collect(rep, split_task, [allw[i::16] for i in range(16)], 'groups of argument strings')


# ---------------------------------------------------------------- C24: how lists are shown
SHOWN = [[], ['p'], ['p', 'q', 'r'], [['p', 'q'], 'r', ['s', ['t', 'u'], 'v']], [[], 'p', [[]], []],
         [('range', 1, 4), 'p', [('range', 2, 4), 'q']], ['p', None, [None, 'q'], None],
         [[['p', 'q'], ['r', 's']], [['t'], 'u']], ['', 'p', '', ['', '']], ('range', 1, 4), ('range', None, 3), ('range', 3, 3),
         ('range', -1, 2), [('range', 4, None), ('range', None, 2)], ('range', 4, None), [[('range', 1, None)], ('pattern', 'p+')],
         'p', None, [5, -3, '7.5', [12]], ['a"b', '12ab', 'a\\b', '"\\', '1 2', '']]


def plain_text(v, fmt, sep=None):
    """The text to be shown for a value in a format; sep: the separator of the line it stands in."""
    if isinstance(v, tuple) and v[0] == 'range' and v[2] is not None:
        v = [x for x in range(v[1] or 0, v[2])] if not (sep is None and fmt == 'repr') else v
    if fmt == 'repr':
        if isinstance(v, list):
            return '[' + ';'.join(plain_text(x, 'repr') for x in v) + ']'
        if v is None:
            return '()'
        if isinstance(v, tuple):
            return f'({"()" if v[1] is None else v[1]},{"()" if v[2] is None else v[2]})' if v[0] == 'range' else f'`{v[1]}`'
        v = str(v)
        if v.lstrip('-').replace('.', '', 1).isdigit():
            return v
        return '\\"' + v.replace('\\', '\\\\') + '\\"' if '"' in v else f'"{v}"'
    if isinstance(v, list):
        if sep is not None:
            return sep.join(plain_text(x, fmt, sep) for x in v)
        if fmt == 'p':
            return plain_text(v, 'repr')
        if fmt == 'P':
            return '\n'.join(plain_text(x, 'repr') for x in v)
        if fmt and fmt in 'lS':
            return '\n'.join(plain_text(x, fmt, '' if fmt == 'l' else ' ') for x in v)
        s = {'': '', 'n': '\n', 's': ' '}[fmt]
        return s.join(plain_text(x, fmt) for x in v)
    if v is None:
        return ''
    if isinstance(v, tuple):
        return plain_text(v, 'repr') if v[0] == 'range' else v[1]
    return str(v)


def joined_text(v):
    """What J gives: all the texts inside a list, joined on nothing (None where that is not settled)."""
    if isinstance(v, tuple) and v[0] == 'range':
        return None if v[2] is None else ''.join(map(str, range(v[1] or 0, v[2])))
    if isinstance(v, list):
        t = [joined_text(x) if isinstance(x, (list, tuple)) else None if x is None else str(x) for x in v]
        return None if None in t else ''.join(t)


def build(W, st, v):
    if isinstance(v, list):
        return W.List(st, [build(W, st, x) for x in v])
    if isinstance(v, tuple):
        if v[0] == 'range':
            return W.inst(st, RANGE, K(v[1]), K(v[2]) if v[2] is not None else W.inst(st, NIL))
        return W.inst(st, PATTERN, K(v[1]))
    if v is None:
        return W.inst(st, NIL)
    return W.inst(st, SCALAR, K(v))


def format_task(task):
    opts, fmt, start = task
    if start == 'repl':
        sh = Shell(argv=['pip', '-R'] + opts, stdin=['one'])
        sh.states = []
        saved = sh.E.intrinsics[P + 'executeStatement']

        def ex(E_, fi, a, kw, st, node):
            sh.states.append((st.copy(), a))
            return saved(E_, fi, a, kw, st, node)
        sh.E.intrinsics[P + 'executeStatement'] = ex
        outs = sh.run('pip.pip', NONE, NONE, FALSE)
    elif start == 'main':
        sh = Shell(argv=['pip'] + opts + ['-e', CODE, 'A'])
        outs = sh.run('pip.main')
    else:
        sh = Shell()
        outs = sh.run('pip.pip', K(CODE), lst(*(opts + ['A'])))
    what = ' '.join(opts) or 'no option'
    if sh.odd or not sh.states:
        return dict(undecided=f'{what}: ' + (sh.odd or ['the program is not run'])[0], n=0)
    bad, n = [], 0
    W = sh.W
    und = None
    for st0, _ in sh.states[:1]:
        for v in SHOWN:
            st = st0.copy()
            x = build(W, st, v)
            sh.E.concrete_while = 12
            W.E.nsteps = 0
            got = display(W, st, x)
            n += 1
            want = plain_text(v, fmt)
            if got is None:
                und = f'with {what}, the text shown for {v} is not known'
            elif got != want:
                bad.append((f'shown:{fmt}:{v}', f'with {what}, {plain_text(v, "repr")} is shown as {got!r} instead of {want!r}'))
            for sym, want in (('ST', want), ('RP', plain_text(v, 'repr')), ('J', joined_text(v))):
                row = next((r for r in W.c.rows if r.symbol == sym and r.arity == 1), None)
                if row is None or want is None:
                    continue
                st = st0.copy()
                x = build(W, st, v)
                W.E.nsteps = 0
                W.E.dropped = 0
                res, raises = W.call(row.handler, x, st=st)
                got = {display(W, s, r) for s, r in res}
                n += 1
                if len(got) != 1 or None in got or raises or W.E.dropped:
                    und = und or f'with {what}, {sym} {plain_text(v, "repr")} is not known'
                elif got != {want}:
                    bad.append((f'{sym}:{fmt}:{v}', f'with {what}, {sym} {plain_text(v, "repr")} is {got.pop()!r} instead of {want!r}'))
    return dict(bad=bad[:4], n=n, undecided=und)


def display(W, st, x):
    import models
    E = W.E
    E.inline_str = True
    saved = E.fstack
    E.fstack = [next(iter(E.fns.values()))]
    E.raises = []
    ty = E.types(st, x)
    cls = next(iter(ty))
    a = E.clsattr(cls, '__str__')
    o = E.call(('BM', a, x), [], {}, st, E.fstack[0].node)
    E.fstack = saved
    texts = set()
    for s, r in o:
        ps = parts(r)
        if any(not isinstance(p, str) for p in ps):
            return None
        texts.add(''.join(ps))
    return texts.pop() if len(texts) == 1 else None


@prop('C24')
def formats(rep):
    rep.explanation = ('The command line of every list format option is run abstractly up to the start of the program; in that '
                       'state the text of lists, nested lists, ranges, nil and patterns of known shape is computed from the '
                       'source and compared with the documented format.')
    T = []
    for o in [''] + list(FORMATS):
        for start in ('pip', 'main', 'repl'):
            T.append((['-' + o] if o else [], o, start))
        if o:
            T.append((['--' + OPTS[o]], o, 'pip'))
    T += [(['-d'], 'p', 'pip'), (['--debug'], 'p', 'main'), (['-w'], '', 'pip'), (['-v'], '', 'pip')]
    collect(rep, format_task, T, 'format options')


# ---------------------------------------------------------------- C15: warnings
import ast

WARN = 'errors.ErrorReporter.warn'


def reporter(W, st, on):
    return W.inst(st, 'errors.ErrorReporter', K(on))


def warn_task(task):
    kind = task[0]
    if kind in ('warn', 'die'):
        _, on, msgs = task
        sh = Shell()
        W, st = sh.W, sh.st
        err = reporter(W, st, on)
        if not W.E.find('errors.ErrorReporter.' + kind):
            return dict(undecided=f'no {kind}()', n=0)
        vals = [build(W, st, m) if not isinstance(m, str) else ('Cls', m[1:]) if m.startswith('~') else K(m) for m in msgs]
        W.E.inline_str = True
        outs = sh.run('errors.ErrorReporter.' + kind, err, *vals)
        want = [m if isinstance(m, str) and not m.startswith('~') else m.split('.')[-1] if isinstance(m, str) else
                plain_text(m, '') for m in msgs]
        what = f'{kind}({", ".join(map(repr, want))}) with warnings {"on" if on else "off"}'

        def f(ev, end, s, v):
            bad = []
            so, se = text(said(ev, 'out')), text(said(ev, 'err'))
            if so:
                bad.append((f'{kind}:stdout', f'{what} writes {so!r} to standard output'))
            if kind == 'warn':
                if end is not None:
                    bad.append(('warn:fatal', f'{what} ends in {end}'))
                if not on and se:
                    bad.append(('warn:off', f'{what} prints {se!r}'))
                unknown = any(not isinstance(p, str) for p in said(ev, 'err'))
                if on and not unknown and not all(w in se for w in want) or on and not said(ev, 'err'):
                    bad.append(('warn:on', f'{what} prints {se!r}'))
            else:
                if end is None:
                    bad.append(('die:returns', f'{what} returns instead of raising an error'))
                elif not fatal(sh.E, end):
                    bad.append(('die:class', f'{what} raises {end}'))
            return bad
        return judge(sh, outs, what, f)
    if kind == 'state':
        on = task[1]
        sh = Shell()
        W, st = sh.W, sh.st
        o = W.inst(st, PS, NONE, K(on))
        w = W.get(st, o, 'err', 'warnings')
        if w is None or w[0] != 'K':
            return dict(undecided='the switch of the interpreter state is not known', n=0)
        if bool(w[2]) != on:
            return dict(bad=[('state', f'an interpreter made with warnings {on} has warnings {w[2]}')], n=1)
        return dict(n=1)


def only_reports(body):
    """Statements that do nothing but report something."""
    for s in body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Attribute) and f.attr == 'warn':
                continue
            if isinstance(f, ast.Name) and f.id == 'print' and any(
                    k.arg == 'file' and 'stderr' in ast.dump(k.value) for k in s.value.keywords):
                continue
        if isinstance(s, ast.If) and only_reports(s.body) and only_reports(s.orelse):
            continue
        return False
    return True


def switch_name(E):
    """The attribute the reporter keeps its switch in."""
    W = World()
    st = W.state()
    o = reporter(W, st, True)
    p = reporter(W, st, False)
    return [k for k, v in W.E.obj(st, o).fields.items() if v == TRUE and W.E.obj(st, p).fields.get(k) == FALSE]


def reads_switch(rep, E):
    names = switch_name(E)
    if len(names) != 1:
        rep.skip('the switch of the error reporter is not found')
        return
    nm = names[0]
    n = 0
    for fi in E.fns.values():
        if fi.qual.startswith(('errors.ErrorReporter.', 'pip.')):
            continue
        n += 1
        par = {}
        for x in ast.walk(fi.node):
            for c in ast.iter_child_nodes(x):
                par[c] = x
        for x in ast.walk(fi.node):
            if not (isinstance(x, ast.Attribute) and x.attr == nm and isinstance(x.ctx, ast.Load)):
                continue
            v = x.value
            if not (isinstance(v, ast.Attribute) and v.attr in errattrs(E) or isinstance(v, ast.Name)):
                continue
            y = x
            while y in par and not isinstance(y, (ast.If, ast.IfExp, ast.While, ast.stmt)):
                y = par[y]
            if isinstance(y, ast.If):
                if only_reports(y.body) and only_reports(y.orelse):
                    continue
                rep.bad(f'reads:{fi.qual}', f'{fi.qual} does something else when warnings are switched on than when they are off',
                        f'line {y.lineno}: {ast.unparse(y.test)}')
            elif isinstance(y, (ast.IfExp, ast.While, ast.Return)):
                rep.bad(f'reads:{fi.qual}', f'{fi.qual} lets its result depend on the warnings switch',
                        f'line {y.lineno}: {ast.unparse(y)[:100]}')
            else:
                rep.skip(f'{fi.qual} reads the warnings switch')
    rep.count('functions outside the reporter searched for reads of the switch', n)
    # writes of the switch other than by the constructor and the REPL command
    for fi in E.fns.values():
        if fi.qual.startswith(('errors.ErrorReporter.__init__', 'pip.')):
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and x.attr == nm and isinstance(x.ctx, ast.Store) and \
                    (isinstance(x.value, ast.Attribute) and x.value.attr in errattrs(E) or fi.qual.startswith('errors.ErrorReporter.')):
                rep.bad(f'writes:{fi.qual}', f'{fi.qual} switches warnings on or off', f'line {x.lineno}')


def errattrs(E):
    """Attributes of the interpreter state that hold the reporter."""
    W = World()
    o = W.E.obj(W.st, W.me)
    return {k for k, v in (o.fields or {}).items() if v[0] == 'R' and W.E.obj(W.st, v).cls == 'errors.ErrorReporter'}


@prop('C15')
def warnings(rep):
    rep.explanation = ('The error reporter, the constructor of the interpreter state and the command line are executed '
                       'abstractly with the switch on and off and messages of every type; every function is searched for '
                       'branches on the switch that do more than report, and for code that changes it.')
    msgs = [['a message'], ['Cannot', '~' + LIST, 'and', '~' + SCALAR], ['value', ['p', ['q']]], ['range', ('range', 1, None)],
            [], ['nil', None], ['x', 5, ('pattern', 'p+')]]
    T = [(k, on, m) for k in ('warn', 'die') for on in (True, False) for m in msgs] + [('state', True), ('state', False)]
    collect(rep, warn_task, T, 'reports')
    collect(rep, line_task, [(s, o, ['A'], 'after') for s in ('code', 'e', 'f') for o in (['-w'], ['--warnings'], ['-d'], [], ['-p'], ['-v'], ['-wp'])],
            'command lines')
    collect(rep, repl_task, [t for t in repl_tasks() if t[5] is not None], 'REPL switch commands')
    reads_switch(rep, H.ctx().E)
