"""Strings as sequences of constant pieces and opaque pieces."""
from values import *


def parts(v):
    """Flatten a string value: list of str (constant text) and values (unknown text)."""
    out = []

    def add(x):
        if isinstance(x, str):
            if x:
                if out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        else:
            out.append(x)

    def walk(x):
        if x[0] == 'K':
            add(str(x[2]))
            return
        if x[0] == 'S' and x[1][0] == 'd':
            op, args = x[1][1], x[1][2:]
            if op == 'fstr' or op == '+' and len(args) == 2:
                for a in args:
                    walk(a)
                return
            if op == 'join' and args and args[0][0] == 'K' and not (len(args) == 2 and args[1][0] == 'R'):
                for i, a in enumerate(args[1:]):
                    if i:
                        walk(args[0])
                    walk(a)
                return
        add(x)
    walk(v)
    return out


def text_of(W, st, v):
    """The text that printing / converting a value gives, as pieces; None when unknown."""
    import models
    out = models.strof(W.E, v, st, W.E.fstack[0].node if W.E.fstack else next(iter(W.E.fns.values())).node)
    if len(out) != 1:
        return None
    return parts(out[0][1])
