"""Tables of operator applications with their results (props/tables/): pools of operands and the cases made from them."""
import ast, itertools, os

HERE = os.path.dirname(os.path.abspath(__file__))


def L(n, p='x'):
    return [f'{p}{i + 1}' for i in range(n)]


LISTS = [[], L(1), L(2), L(3), L(4), L(5), L(7), [L(2), L(2, 'y')], [L(2), L(1, 'y')], [L(1), L(2, 'y'), L(3, 'z')], [[]], [[], L(2)], [[L(1)], 'y'],
         ['x', [L(2), [['y']]]], [None, 'x'], [1, 2, 3], [3, 1, 2, 1], ['"b', '"a', '"b'], ['"ab', ['"c'], 3], [(0, 3), 'x'], ['"abc', '"de'],
         ['"', '"a'], [L(3), L(3, 'y'), L(3, 'z')]]
RANGES = [(0, 0), (0, 3), (-2, 2), (3, 3), (None, 4), (1, 2), (5, 9)]
TEXTS = ['"', '"p', '"pq', '"ppq', '"p q  r', '"aBc Def', '"  x ', '"a1-b_2', '"abcabc', '"\n\t', '"\u00e9\u00df\u0130', "\"it's o'clock"]
NUMS = [0, 1, 2, 3, 4, 5, 9, -1, -2, -3, -7, '"2.5', '"-0.5', 12, 100, -34]
SHORT = [[], L(1), L(2), L(3), L(5), [L(2), L(2, 'y')], [L(1), L(2, 'y'), 'z'], [[]], [1, 2, 3], [3, 1, 2, 1], ['"ab', ['"c'], 3], ['"a', '"b', '"a'], (0, 3), (-1, 2),
         (2, 2), (None, 2), '"', '"p', '"pqp', '"abcabc', '"a b', '" a ', 0, 1, 2, 3, -1, -2, -5, 7, 12, '"1.5', None, 'v']

UNARY = {'C35': 'R RV RF PZ QR QP Z ZD ZJ WV UW <> CH ^ FL FA EN PM CP CG ZG OG EY UQ J TM || <| |> LC UC SC TC IC @'.split(),
         'C42': 'TB TD FB FD A C RP ST LC UC SC TC IC RV R , \\, FA J SG AB #'.split(),
         'C19': 'SN SS DN DS MX MN M N'.split()}
BINARY = {'C35': 'Z ZD ZJ WV UW <> CH ^@ ^ CB CP CG ZG OG AE PE AL RL X @? @* N NI J JW . WR TM || <| |> DC RM'.split(),
          'C42': 'TB TD FB FD X . J JW N NI @? TM RM DC || |> <|'.split(),
          'C19': '< > = <= >= != LT GT Q LE GE NE #< #= #> == CM'.split()}
TERNARY = {'C35': ['R', 'RA', 'TR']}
CONSTS = [[], [1], [2], [1, 2], [1, 3], [2, 1], [[1], 2], [[1, 0], 2], ['"a'], ['"a', '"b'], ['"10', '"9'], [None], (0, 2), (1, 3), (1, 2), (2, 1), (None, 3), (0, 3), (1, None),
          '"', '"a', '"A', '"ab', '"b', '"10', '"9', '"1.0', 1, '"01', '"-1', '"-1.5', '"1e3', 1000, 0, '"0.0', '" 5', 5, None, [(0, 2)], [[0, 1]], ('rx', 'a', 0), ('rx', 'a', 2), ('rx', 'a', 8), ('rx', 'b', 0), [('rx', 'a', 2)], [('rx', 'a', 8)]]
SORTABLE = LISTS + RANGES + TEXTS + [[3, '"10', '"2.5', -1], ['"b', '"A', '"a', '"B'], ['"10', '"9', '"1'], [[2, 1], [1, 5], [1]], [[2], [1], 3], [(0, 3), (0, 2)], ['"1.0', 1, '"01'],
                                     [None, 1, -1], ['"x', 1, '"-y', -2], ['"2a', '"1b', '"3'], [5, 5, 4], [[], [1], []], ['"', '" ', '"!'], [(1, None), 0], [(1, None), [0], []], [[], (0, None)], [[1], (2, None), [0]], [[(3, None)], [[]], [[1]]], ['"z', ['"a'], (0, 2)], '"hello World', 90210, '"3.14']
THIRD = [(['"abcabc'], ['"a', '"bc', '"', '"x', ['"a', '"b']], ['"z', '"', '"ab', ['"y', '"z'], ['"y']])]


ODD = TEXTS + ['"\\', '""', '"a"b', '"a\\b', '"`', '"\\"', '"{x}', '"\'', '"$', '"0', '"00', '"-', '"-0', '"+1', '"1.', '".5', '"1_000', '"1e5', '"ff', '"Zz', '"-101', '" 12', '"12 ',
              '"\u00bd', '"\u0663', '"\U0001f600x', '"\x00', '"\x7f', '"\r\n', '"i\u0307', '"\u01c5', '"\ufb01', '"o\'neil-smith', '"a.b c_d']
BASED = [0, 1, 2, 7, 8, 10, 35, 36, 37, 63, 255, 256, 1000, -1, -2, -8, -255, '"2.9', '"-2.9', 12345678901234567890, -12345678901234567890, [5, [6]], (0, 3), [], '"']
BASES = [0, 1, 2, 3, 8, 10, 16, 26, 36, 37, 62, 100, -1, -2, -10, '"2.5', None, '"', '"x', [2, 10], (2, 5), 256]
DIGITS = ['"', '"0', '"1', '"101', '"-101', '"102', '"ff', '"FF', '"zZ', '"-zz', '"1.5', '" 11', '"11 ', '"1_1', '"0b11', '"0x1f', '"+7', '"-', '"--1', '"9', 10, -7,
          [], [0], [1, 0, 1], [-1, 0, -1], [1, 2], [12, 3], [1, -1], [[1, 0], [1, 1]], ['"a'], [None], (0, 3), (1, 4), '"\u0663']


RX = [('rx', *x) for x in [('', 0), ('b', 0), ('`', 0), ('a`b`', 0), ('a', 2), ('a', 8), ('a.b', 16), ('^b$', 8), ('B|c', 2), ('x.', 26), ('\\w', 256), ('.b*', 282), ('a``', 264), ('b', 8), ('\\\\`', 0)]]
FIND = [('rx', *x) for x in [('b', 0), ('', 0), ('b*', 0), ('(a)|b', 0), ('(.)\\1', 0), ('A', 2), ('^', 8), ('.$', 8), ('a.', 16), ('[^a]', 0), ('(a)(b)?(\\2)?', 0), ('a|ab', 0), ('\\\\', 0),
                             ('(\\\\)\\1', 0), ('(.)\\\\\\1', 0), ('(.)\\\\\\\\\\1', 0), ('\\s+', 0), ('(?:)', 0), ('\\.', 0)]]
TO = [('rx', *x) for x in [('', 0), ('&', 0), ('<&&>', 0), ('\\&', 0), ('\\\\&', 0), ('\\\\\\&', 0), ('\\\\\\\\&', 0), ('x\\\\y', 0), ('\\n&', 0)]]
GROUPED = [('rx', *x) for x in [('(.)(b?)', 0), ('(a)|(.)', 0), ('((.)b)', 0), ('(\\\\)(.)', 0)]]
TO2 = [('rx', *x) for x in [('\\1', 0), ('[\\2\\1]', 0), ('\\1\\&', 0), ('\\\\1', 0), ('\\\\\\1', 0), ('\\\\\\\\1', 0), ('\\\\\\\\\\1', 0), ('\\2&\\1\\1', 0), ('\\1\\\\&\\2', 0)]]
WHERE = ['"', '"b', '"abc', '"aabba', '"aAbB', '"b\nab\nb', '"a\\\\b', '"x\\x \\\\\\x', '"a.b.', 1231, '" b  b ', [], ['"ab', '"', '"cb'], [['"b'], '"ab'], (0, 12), None]
WITH = [['"b'], ['"a', '"b'], ['"', '"a'], ['"a.', '"b'], ('rx', 'b', 0), '"b', '"', '"a.', '"\\', 1, (0, 3), [('rx', 'a|c', 0), '"b'], [('rx', '(.)\\1', 0), ['"b']], ('rx', '(a)(b)', 2), None]
BY = ['"', '"-', '"\\', '"\\\\&', '"a', 5, None, [], ['"x'], ['"x', '"y', '"z'], ['"b', '"a'], ['"\\1', '"&'], [('rx', '&&', 0), '"b'], ('rx', '[&]', 0), (5, 7)]


def wanted(pid):
    if pid == 'C22':
        for w in WHERE:
            for s in '~ ~= @ @? @* N NI RM ^ || |> <| X'.split():
                for r in FIND + (WITH if s in ('~', '~=', '@?', '@*', 'NI', 'RM', '||', '|>', '<|', 'N') else []):
                    if s in ('||', '|>', '<|') and (isinstance(r, list) or r in FIND and r[1] in ('', 'b*', '^', '(?:)')):
                        continue
                    yield s, [w, r]
                    if s in ('~', '~=', 'N', 'NI'):
                        yield s, [r, w]
            for r in FIND:
                for t in TO + BY:
                    yield 'R', [w, r, t]
            for r in GROUPED:
                for t in TO2 + TO:
                    yield 'R', [w, r, t]
            for o in WITH:
                for t in BY:
                    yield 'R', [w, o, t]
                    if not (isinstance(o, tuple) and o[0] == 'rx'):
                        yield 'TR', [w, o, t]
        return
    if pid == 'C42':
        for s in ('RP', 'ST', '#', 'FL'):
            for a in RX:
                yield s, [a]
                yield s, [[a, '"x']]
        for s in UNARY[pid]:
            for a in ODD + BASED + DIGITS:
                yield s, [a]
        for s in ('TB', 'TD'):
            for a, b in itertools.product(BASED, BASES):
                yield s, [a, b]
        for s in ('FB', 'FD'):
            for a, b in itertools.product(DIGITS, BASES):
                yield s, [a, b]
        for s in BINARY[pid][4:]:
            for a, b in itertools.product(ODD, ['"', '" ', '"a', '"b', '"\\', '""', '"\u00df', '"12', 0, 2, 3, -1, '"\n', "\"'", '"1', '"ab', '"2.7']):
                yield s, [a, b]
                if s not in ('X', 'TM'):
                    yield s, [b, a]
        return
    for s in UNARY.get(pid, []):
        for a in (SORTABLE + CONSTS if pid == 'C19' else LISTS + RANGES + TEXTS + NUMS):
            yield s, [a]
    for s in BINARY.get(pid, []):
        for a, b in itertools.product(*[CONSTS if pid == 'C19' else SHORT] * 2):
            yield s, [a, b]
    if pid == 'C35':
        for t in ('"abcabc', '"', '"aXbX', ['"abc', '"cab'], '"a b a', 1212):
            for f in ('"a', '"bc', '"', '"x', ['"a', '"b'], '"X', 12, '" '):
                for to in ('"z', '"', '"ab', ['"y', '"z'], ['"y'], 7):
                    yield 'R', [t, f, to]
                    yield 'TR', [t, f, to]
        for t in (L(4), '"pqrs', (0, 4), [['a', 'b'], 'c'], []):
            for i in (0, 1, 3, -1, -4, 5, [0, 2], [1], [[0, 1], 0], (1, 3), (0, 0), (2, 4), [-1, 1]):
                for v in ('"Z', 'v', ['v', 'w'], '"', [], '"XYZ'):
                    yield 'RA', [t, i, v]


def table(pid):
    with open(os.path.join(HERE, 'tables', pid + '.txt')) as f:
        return [ast.literal_eval(l) for l in f]
