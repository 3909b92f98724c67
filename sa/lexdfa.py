"""Decide, for every text, whether two regular expressions match the same prefix of it: ordered automata (the state is
the list of live alternatives in the order a backtracking matcher tries them), determinised and compared state by state.
Supports what a lexer needs; anything else raises Unsupported."""
import re
try:
    import re._parser as P, re._constants as C
except ImportError:
    import sre_parse as P, sre_constants as C


class Unsupported(Exception):
    pass


EXTRA = [0x85, 0xa0, 0xe9, 0xc4, 0x660, 0x2028, 0x4e2d]
CHARS = [chr(i) for i in range(128)] + [chr(i) for i in EXTRA]
CAT = {C.CATEGORY_SPACE: lambda c: c.isspace(), C.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
       C.CATEGORY_DIGIT: lambda c: c.isdecimal(), C.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
       C.CATEGORY_WORD: lambda c: c.isalnum() or c == '_', C.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_')}


class NFA:
    """Nodes: ('char', set, next) | ('split', [next...]) | ('match',)"""

    def __init__(self, pattern, flags=0):
        flags &= ~re.UNICODE
        if flags & ~(re.DOTALL | re.VERBOSE):
            raise Unsupported(f'flags {flags}')
        self.flags = flags
        self.nodes = [('match',)]
        tree = P.parse(pattern, flags)
        if tree.state.flags & ~(re.UNICODE | re.DOTALL | re.VERBOSE):
            raise Unsupported('inline flags')
        self.start = self.seq(tree, 0)

    def new(self, n):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def seq(self, items, nxt):
        for op, av in reversed(list(items)):
            nxt = self.item(op, av, nxt)
        return nxt

    def item(self, op, av, nxt):
        if op is C.LITERAL:
            return self.new(('char', frozenset([chr(av)]), nxt))
        if op is C.NOT_LITERAL:
            return self.new(('char', frozenset(CHARS) - {chr(av)}, nxt))
        if op is C.ANY:
            return self.new(('char', frozenset(CHARS) - (frozenset() if self.flags & re.DOTALL else {'\n'}), nxt))
        if op is C.IN:
            return self.new(('char', self.cls(av), nxt))
        if op is C.SUBPATTERN:
            group, add, dele, p = av
            if add or dele:
                raise Unsupported('flag group')
            return self.seq(p, nxt)
        if op is C.BRANCH:
            return self.new(('split', [self.seq(b, nxt) for b in av[1]]))
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is C.MAX_REPEAT
            if hi is not C.MAXREPEAT and hi > 40 or lo > 40:
                raise Unsupported('large repeat')
            if hi is C.MAXREPEAT:
                loop = self.new(None)
                body = self.seq(p, loop)
                self.nodes[loop] = ('split', [body, nxt] if greedy else [nxt, body])
                cur = loop
            else:
                cur = nxt
                for _ in range(hi - lo):
                    body = self.seq(p, cur)
                    cur = self.new(('split', [body, nxt] if greedy else [nxt, body]))
            for _ in range(lo):
                cur = self.seq(p, cur)
            return cur
        raise Unsupported(str(op))

    def cls(self, av):
        out, neg = set(), False
        for op, x in av:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                out.add(chr(x))
            elif op is C.RANGE:
                out |= {c for c in CHARS if x[0] <= ord(c) <= x[1]}
            elif op is C.CATEGORY and x in CAT:
                out |= {c for c in CHARS if CAT[x](c)}
            else:
                raise Unsupported(str(op))
        return frozenset(set(CHARS) - out if neg else out)

    def closure(self, starts):
        """Ordered live character nodes, cut at the first match; whether a match was reached."""
        out, seen = [], set()
        stack = list(reversed(starts))
        while stack:
            n = stack.pop()
            if n in seen:
                continue
            seen.add(n)
            x = self.nodes[n]
            if x[0] == 'match':
                return tuple(out), True
            if x[0] == 'split':
                stack += reversed(x[1])
            else:
                out.append(n)
        return tuple(out), False

    def step(self, state, ch):
        return self.closure([self.nodes[n][2] for n in state if ch in self.nodes[n][1]])


def differ(p1, f1, p2, f2, limit=200000):
    """Shortest text on whose prefixes the two expressions disagree, or None when they are equivalent.
    Returns (text, which one matches there)."""
    a, b = NFA(p1, f1), NFA(p2, f2)
    lits = set()
    for n in (a, b):
        for x in n.nodes:
            if x[0] == 'char':
                lits.add(x[1])
    classes = {}
    for c in CHARS:
        classes.setdefault(tuple(c in s for s in lits), c)
    reps = sorted(classes.values(), key=lambda c: (not c.isalnum(), c))
    s = (a.closure([a.start]), b.closure([b.start]))
    if s[0][1] != s[1][1]:
        return '', 1 if s[0][1] else 2
    seen = {(s[0][0], s[1][0])}
    work = [((s[0][0], s[1][0]), '')]
    while work:
        nxt = []
        for (x, y), w in work:
            for c in reps:
                (x2, m1), (y2, m2) = a.step(x, c), b.step(y, c)
                if m1 != m2:
                    return w + c, 1 if m1 else 2
                k = (x2, y2)
                if k not in seen and (x2 or y2):
                    seen.add(k)
                    if len(seen) > limit:
                        raise Unsupported('too many states')
                    nxt.append((k, w + c))
        work = nxt
    return None


def states(p, f):
    return len(NFA(p, f).nodes)
