#!/usr/bin/env python3
"""Write props/tables/<id>.txt: applications of operators with their results, for the cases where the reference
interpreter and the abstract evaluation agree. Used once, when the table is written (review the diff); checks only read
the tables.  usage: golden.py ID..."""
import sys, os, signal, json, itertools, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'sa'), HERE, '/repo']
sys.argv, ids = sys.argv[:1], sys.argv[1:]
import ptypes, operators, execution, errors
from props import lists_, tables_
import harness as H


def real(x):
    if isinstance(x, list):
        return ptypes.List([real(y) for y in x])
    if lists_.pattern(x):
        return ptypes.Pattern(x[1], x[2])
    if isinstance(x, tuple):
        return ptypes.Range(x[0], ptypes.nil if x[1] is None else x[1])
    if x is None:
        return ptypes.nil
    if isinstance(x, int):
        return ptypes.Scalar(str(x))
    if x.startswith('"'):
        return ptypes.Scalar(x[1:])
    return ptypes.Scalar(f'\u00ab{x}\u00bb')


def back(v):
    if v is ptypes.nil:
        return None
    if isinstance(v, ptypes.Scalar):
        s = str(v)
        if s[:1] == '\u00ab' and s[-1:] == '\u00bb' and s.count('\u00ab') == 1:
            return s[1:-1]
        if '\u00ab' in s:
            raise KeyError
        return lists_.num(s)
    if isinstance(v, ptypes.List):
        return [back(y) for y in v]
    if isinstance(v, ptypes.Pattern):
        return ('rx', v._raw, int(v._flags))
    if isinstance(v, ptypes.Range):
        return (v.getLower(), v.getUpper())
    raise KeyError


class Slow(Exception):
    pass


def alarm(*a):
    raise Slow


signal.signal(signal.SIGALRM, alarm)


def outcome(sym, args):
    st = execution.ProgramState(False)
    st.err.warn = lambda *a: None
    ptypes.print = lambda *a, **k: None
    op = operators.opsByArity[len(args)][sym]
    signal.setitimer(signal.ITIMER_REAL, 0.3)
    try:
        v = st.getRval(st.evaluate([op] + [real(a) for a in args]))
        return [back(v)]
    except (Slow, KeyError, Exception) as e:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def one(cases):
    out = []
    signal.signal(signal.SIGALRM, alarm)
    for c in cases:
        signal.setitimer(signal.ITIMER_REAL, 0.4)
        try:
            out.append((c, lists_.check_case(c)))
        except Exception:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return out


def size(x):
    return 1 + sum(map(size, x)) if isinstance(x, list) else 1


def main(pid):
    cases = []
    for sym, args in tables_.wanted(pid):
        r = outcome(sym, args)
        if r is None or r[0] is None and sym not in ('~', '@', '@?', 'FB', 'FD', 'TB', 'TD', 'C', 'A', 'CH', 'CB', 'UW', 'SN', 'DN', 'MX', 'MN', '#<', '#>', '#=') or size(r[0]) > 60 or isinstance(r[0], tuple) and r[0][1] is None:
            continue
        cases.append((sym, args, r[0]))
    out, bad = [], []
    random.seed(0)
    sh = random.sample(cases, len(cases))
    order = {repr(c): i for i, c in enumerate(cases)}
    for c, r in (x for _, rs, err, dt in H.pmap(one, [sh[i::200] for i in range(200)]) for x in rs or ()):
        if r.get('undecided') or not r['n']:
            continue
        if r.get('bad'):
            bad.append(r['bad'][0])
            continue
        out.append(c)
    print(pid, len(cases), 'cases', len(out), 'kept', len(bad), 'differ')
    for b in bad[:20]:
        print('  ', b)
    out.sort(key=lambda c: order[repr(c)])
    with open(os.path.join(HERE, 'props', 'tables', pid + '.txt'), 'w') as f:
        for c in out:
            f.write(repr(c) + '\n')


if __name__ == '__main__':
    for i in ids:
        main(i)
