"""Backward liveness of local names over structured syntax trees (used to keep abstract states small)."""
import ast


def reads(node):
    """Names a piece of syntax may read, including inside nested functions."""
    return frozenset(n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store))


def stores_names(target):
    """Names a target certainly assigns."""
    if isinstance(target, ast.Name):
        return frozenset([target.id])
    if isinstance(target, (ast.Tuple, ast.List)):
        return frozenset().union(*[stores_names(t) for t in target.elts]) if target.elts else frozenset()
    if isinstance(target, ast.Starred):
        return stores_names(target.value)
    return frozenset()


class Liveness:
    """after[id(stmt)] = names that may be read after the statement finishes normally."""

    def __init__(self, fn):
        self.after = {}
        self.keep = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                self.keep |= reads(n)
                for m in ast.walk(n):
                    if isinstance(m, (ast.Global, ast.Nonlocal)):
                        self.keep |= set(m.names)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.keep |= set(n.names)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval'):
                self.keep |= {m.id for m in ast.walk(fn) if isinstance(m, ast.Name)}
        self.keep = frozenset(self.keep)
        self.block(fn.body, frozenset(), None, None, frozenset())

    def block(self, stmts, out, brk, cont, exc):
        for s in reversed(stmts):
            self.after[id(s)] = self.after.get(id(s), frozenset()) | out | exc | self.keep
            out = self.stmt(s, out, brk, cont, exc)
        return out

    def stmt(self, s, out, brk, cont, exc):
        if isinstance(s, ast.Return):
            return (reads(s.value) if s.value else frozenset()) | exc
        if isinstance(s, ast.Raise):
            return reads(s) | exc
        if isinstance(s, ast.Break):
            return (brk or frozenset()) | exc
        if isinstance(s, ast.Continue):
            return (cont or frozenset()) | exc
        if isinstance(s, ast.If):
            return reads(s.test) | self.block(s.body, out, brk, cont, exc) | \
                (self.block(s.orelse, out, brk, cont, exc) if s.orelse else out)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            after = self.block(s.orelse, out, brk, cont, exc) if s.orelse else out
            head = after
            tgt = stores_names(s.target)
            for _ in range(3):
                body = self.block(s.body, head, out, head, exc)
                new = after | (body - tgt) | reads(s.target)
                if new == head:
                    break
                head = head | new
            self.block(s.body, head, out, head, exc)
            return head | reads(s.iter)
        if isinstance(s, ast.While):
            after = self.block(s.orelse, out, brk, cont, exc) if s.orelse else out
            head = after | reads(s.test)
            for _ in range(3):
                new = head | self.block(s.body, head, out, head, exc)
                if new == head:
                    break
                head = new
            self.block(s.body, head, out, head, exc)
            return head
        if isinstance(s, (ast.Try,)) or type(s).__name__ == 'TryStar':
            fin = self.block(s.finalbody, out | exc, brk, cont, exc) if s.finalbody else out
            if s.finalbody:
                # everything the finally block reads stays live all the way
                fr = frozenset().union(*[reads(x) for x in s.finalbody])
                exc2 = exc | fr
            else:
                exc2 = exc
            hs = frozenset()
            for h in s.handlers:
                hs |= self.block(h.body, fin, brk, cont, exc2) | (reads(h.type) if h.type else frozenset())
            orelse = self.block(s.orelse, fin, brk, cont, exc2) if s.orelse else fin
            body = self.block(s.body, orelse, brk, cont, exc2 | hs)
            return body | hs | exc2
        if isinstance(s, (ast.With, ast.AsyncWith)):
            out = self.block(s.body, out, brk, cont, exc)
            for it in s.items:
                out = out | reads(it.context_expr)
            return out
        if isinstance(s, ast.Match):
            r = out
            for c in s.cases:
                r = r | self.block(c.body, out, brk, cont, exc) | reads(c.pattern)
                if c.guard is not None:
                    r = r | reads(c.guard)
            return r | reads(s.subject)
        if isinstance(s, ast.Assign):
            kill = frozenset().union(*[stores_names(t) for t in s.targets])
            return (out - kill) | reads(s.value) | frozenset().union(*[reads(t) for t in s.targets])
        if isinstance(s, ast.AugAssign):
            nm = frozenset([s.target.id]) if isinstance(s.target, ast.Name) else frozenset()
            return out | reads(s) | nm
        return out | reads(s)
