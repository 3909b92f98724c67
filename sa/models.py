"""Models of Python's built-in operations, types and the standard-library functions the repository uses."""
import builtins
import ast
import math
import operator
import re

from values import Fact, F0, INF, K, NONE, TRUE, FALSE, isK, Obj, State, roots
from engine_consts import *

OPNAMES = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
           ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
           ast.RShift: '>>', ast.MatMult: '@'}
PYOPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
         '//': operator.floordiv, '%': operator.mod, '**': operator.pow, '&': operator.and_,
         '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift}
DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '//': '__floordiv__',
          '%': '__mod__', '**': '__pow__', '&': '__and__', '|': '__or__', '^': '__xor__'}
PRIMS = (str, int, float, bool, type(None), complex)


def ext_attr(base, attr):
    dotted = f'{base}.{attr}'
    if dotted in ('math.pi', 'math.e', 'math.inf', 'math.tau'):
        return K(getattr(math, attr))
    if base == 're' and attr in ('ASCII', 'IGNORECASE', 'MULTILINE', 'DOTALL', 'A', 'I', 'M', 'S', 'VERBOSE', 'X'):
        return K(int(getattr(re, attr)))
    return ('Ext', dotted)


def known(E, st, v):
    return E.types(st, v)


def split_none(E, v, st, node, info):
    """Path where v is None raises TypeError; returns False when only that path exists."""
    ty = E.types(st, v)
    if ty is None or 'NoneType' not in ty:
        return True
    if ty == {'NoneType'} or v[0] == 'K':
        E.raise_(st, 'TypeError', node, info=info)
        return False
    c = st.copy()
    E.set_types(c, v[1], frozenset(['NoneType']))
    E.raise_(c, 'TypeError', node, info=info)
    E.drop_types(st, v[1], frozenset(['NoneType']))
    return True


def unary(E, op, v, st, node):
    if isK(v) and isinstance(v[2], (int, float, bool, complex)):
        return [(st, K({ast.USub: operator.neg, ast.UAdd: operator.pos,
                        ast.Invert: operator.invert}[type(op)](v[2])))]
    if not split_none(E, v, st, node, 'unary operator on None'):
        return []
    ty = E.types(st, v)
    if ty is not None and not ty <= NUM | {'complex'}:
        bad = frozenset(t for t in ty if t in ('str', 'list', 'tuple', 'dict', 'set', 'NoneType')
                        or t in E.classes)
        if bad == ty:
            E.raise_(st, 'TypeError', node, info=f'bad operand for unary operator: {"/".join(sorted(ty))}')
            return []
        if bad and v[0] == 'S':
            c = st.copy()
            E.set_types(c, v[1], bad)
            E.raise_(c, 'TypeError', node, info=f'bad operand for unary operator: {"/".join(sorted(bad))}')
            E.drop_types(st, v[1], bad)
            ty = ty - bad
    lo, los, hi, his = E.num_bounds(st, v)
    nm = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'inv'}[type(op)]
    if nm == 'neg' and ty is not None and ty <= NUM:
        r = E.der(st, nm, v, types=frozenset('int' if t == 'bool' else t for t in ty),
                  lo=None if hi == INF else -hi, hi=None if lo == -INF else -lo)
        f = st.facts[r[1]]
        st.facts[r[1]] = f._replace(los=his, his=los, ne=frozenset(-x for x in
                                    (E.fact(st, v[1]).ne if v[0] == 'S' else ()) if isinstance(x, (int, float))))
        return [(st, r)]
    return [(st, E.der(st, nm, v, types=ty))]


def seqkind(E, st, v):
    ty = E.types(st, v)
    if ty and ty <= {'str', 'list', 'tuple'} and len(ty) == 1:
        return next(iter(ty))
    return None


def binop(E, op, a, b, st, node):
    o = OPNAMES[type(op)]
    ta, tb = E.types(st, a), E.types(st, b)
    if isK(a) and isK(b) and isinstance(a[2], PRIMS) and isinstance(b[2], PRIMS):
        if o == '**' and isinstance(b[2], (int, float)) and abs(b[2]) > 64 or \
                o == '*' and isinstance(a[2], int) and isinstance(b[2], int) and (abs(a[2]) > 10**6 or abs(b[2]) > 10**6):
            pass
        else:
            try:
                return [(st, K(PYOPS[o](a[2], b[2])))]
            except Exception as e:
                E.raise_(st, type(e).__name__, node, info=str(e))
                return []
    # sequences
    ka, kb = seqkind(E, st, a), seqkind(E, st, b)
    if o == '+' and ka and kb:
        if ka != kb:
            E.raise_(st, 'TypeError', node, info=f'cannot add {ka} and {kb}')
            return []
        if ka == 'str':
            r = E.der(st, '+', a, b, types=STR)
            ml = E.minlen(st, a) + E.minlen(st, b)
            if ml:
                st.facts.setdefault(('d', 'len', r, 0), F0._replace(types=INT, lo=ml))
            return [(st, r)]
        if ka == 'tuple' and a[0] == 'T' and b[0] == 'T':
            return [(st, ('T', a[1] + b[1]))]
        xa, xb = seq_content(E, a, st), seq_content(E, b, st)
        if xa[0] is not None and xb[0] is not None:
            return [(st, E.newlist(st, tuple(xa[0]) + tuple(xb[0])))]
        return [(st, E.newlist(st, summ=frozenset(xa[0] or ()) | frozenset(xa[1] or ()) | frozenset(xb[0] or ())
                               | frozenset(xb[1] or ()), minlen=xa[2] + xb[2]))]
    if o == '*' and (ka or kb):
        s, n = (a, b) if ka else (b, a)
        tn = E.types(st, n)
        if tn is not None and not tn <= {'int', 'bool'}:
            bad = tn - {'int', 'bool'}
            if bad == tn or n[0] != 'S':
                E.raise_(st, 'TypeError', node, info="can't multiply sequence by non-int")
                return []
            c = st.copy()
            E.set_types(c, n[1], frozenset(bad))
            E.raise_(c, 'TypeError', node, info="can't multiply sequence by non-int")
            E.drop_types(st, n[1], frozenset(bad))
        k = ka or kb
        if k == 'str':
            return [(st, E.der(st, '*', s, n, types=STR))]
        if k == 'list':
            x = seq_content(E, s, st)
            if x[0] is not None and isK(n) and n[2] * len(x[0]) <= 64:
                return [(st, E.newlist(st, tuple(x[0]) * n[2]))]
            return [(st, E.newlist(st, summ=frozenset(x[0] or ()) | frozenset(x[1] or ())))]
        return [(st, E.leaf(st, 'tuple', {'tuple'}))]
    if o == '%' and ka == 'str':
        return [(st, E.der(st, '%', a, b, types=STR))]
    for v in (a, b):
        if not split_none(E, v, st, node, f'operator {o} on None'):
            return []
    ta, tb = E.types(st, a), E.types(st, b)
    # containers: sets and dicts
    if ta is not None and ta <= {'set', 'dict', 'frozenset'} and ta:
        x, y = seq_content(E, a, st), seq_content(E, b, st)
        return [(st, E.newlist(st, summ=frozenset(x[0] or ()) | frozenset(x[1] or ()) | frozenset(y[0] or ())
                               | frozenset(y[1] or ()), kind='set'))]
    # instances with operator methods
    for x, y, d in ((a, b, DUNDER.get(o)), (b, a, '__r' + DUNDER.get(o, '____')[2:])):
        tx = E.types(st, x)
        if tx is not None and len(tx) == 1 and next(iter(tx)) in E.classes:
            m = E.clsattr(next(iter(tx)), d)
            if m is not None:
                return E.call(('BM', m, x), [y], {}, st, node)
    bad = None
    for v, t in ((a, ta), (b, tb)):
        if t is not None and not t <= NUM | {'complex'}:
            other = tb if v is a else ta
            badt = frozenset(x for x in t if x in ('NoneType', 'function', 'type', 're.Match', 're.Pattern')
                             or x in E.classes)
            if other is not None and other <= NUM and o != '*':
                badt |= t & {'str', 'list', 'tuple', 'dict'}
            if other is not None and other <= NUM and o == '*':
                badt |= t & {'dict'}
            if badt:
                if badt == t or v[0] != 'S':
                    E.raise_(st, 'TypeError', node, info=f'bad operand for {o}: {"/".join(sorted(badt))}')
                    return []
                c = st.copy()
                E.set_types(c, v[1], badt)
                E.raise_(c, 'TypeError', node, info=f'bad operand for {o}: {"/".join(sorted(badt))}')
                E.drop_types(st, v[1], badt)
    ta, tb = E.types(st, a), E.types(st, b)
    if ta is None or tb is None or not (ta <= NUM | {'complex'} and tb <= NUM | {'complex'}):
        t = None
        if o == '%' and ta is not None and ta <= STR:
            t = STR
        return [(st, E.der(st, o, a, b, types=t))]
    return arith(E, o, a, b, ta, tb, st, node)


def arith(E, o, a, b, ta, tb, st, node):
    ints = ta <= {'int', 'bool'} and tb <= {'int', 'bool'}
    rt = set()
    if ints:
        rt = {'float'} if o == '/' else {'int'}
    else:
        if 'int' in ta | {'bool'} & ta and 'int' in tb and o != '/':
            rt.add('int')
        if (ta | tb) & {'float'} or o == '/':
            rt.add('float')
        if ta & {'int', 'bool'} and tb & {'int', 'bool'} and o != '/':
            rt.add('int')
    if (ta | tb) & {'complex'}:
        rt.add('complex')
    if o in '&|^' or o in ('<<', '>>'):
        bad = (ta | tb) & {'float', 'complex'}
        if bad:
            for v, t in ((a, ta), (b, tb)):
                if t & bad:
                    if t <= bad or v[0] != 'S':
                        E.raise_(st, 'TypeError', node, info=f'{o} on float')
                        return []
                    c = st.copy()
                    E.set_types(c, v[1], frozenset(bad))
                    E.raise_(c, 'TypeError', node, info=f'{o} on float')
                    E.drop_types(st, v[1], frozenset(bad))
        rt = {'int'}
    if o in ('/', '//', '%'):
        if not E.excludes(st, b, 0):
            c = st.copy()
            if b[0] == 'K' or E.num_eq(c, b, 0):
                E.raise_(c, 'ZeroDivisionError', node, info=f'{o} by zero')
            if b[0] == 'K' or not E.num_ne(st, b, 0):
                return []
    alo, alos, ahi, ahis = E.num_bounds(st, a)
    blo, blos, bhi, bhis = E.num_bounds(st, b)
    lo, hi = -INF, INF
    los = his = False
    if o == '+':
        lo, hi, los, his = alo + blo, ahi + bhi, alos or blos, ahis or bhis
    elif o == '-':
        lo, hi, los, his = alo - bhi, ahi - blo, alos or bhis, ahis or blos
        rel = E.rel_get(st, a, b)
        if rel <= frozenset('>='):
            lo = max(lo, 0)
            if rel == frozenset('>'):
                los = True
        if rel <= frozenset('<='):
            hi = min(hi, 0)
            if rel == frozenset('<'):
                his = True
    elif o == '*':
        if alo >= 0 and blo >= 0:
            lo = alo * blo if not (INF in (alo, blo)) else -INF
            los = lo == 0 and (alo > 0 or alos) and (blo > 0 or blos)
        elif a == b:
            lo = 0
    elif o == '%':
        if blo >= 0:
            lo = 0
            hi, his = bhi, True
        elif bhi <= 0:
            hi = 0
            lo, los = blo, True
    elif o == '//':
        if alo >= 0 and blo > 0 or alo >= 0 and blo >= 0:
            lo = 0
            hi = ahi
    elif o == '/':
        if alo >= 0 and blo >= 0:
            lo = 0
            los = alo > 0 or alos
        elif alo >= 0 and bhi <= 0:
            hi = 0
            his = alo > 0 or alos
    elif o == '**':
        # zero to a negative power; negative to a fractional power is complex
        if not (blo >= 0) and not E.excludes(st, a, 0):
            c = st.copy()
            ok = (a[0] == 'K' or E.num_eq(c, a, 0)) and E.assume_lt(c, b, K(0), True)
            if ok:
                E.raise_(c, 'ZeroDivisionError', node, info='zero to a negative power')
            d = st.copy()
            outs = []
            if a[0] != 'K' and E.num_ne(st, a, 0):
                outs.append(st)
            if (a[0] == 'K' or E.num_eq(d, a, 0)) and E.assume_lt(d, K(0), b, False):
                outs.append(d)
            return [r for s in outs for r in power(E, a, b, s)]
        return power(E, a, b, st)
    elif o == '&':
        if blo >= 0:
            lo, hi = 0, bhi
        elif alo >= 0:
            lo, hi = 0, ahi
    elif o in ('|', '^', '<<', '>>'):
        if alo >= 0 and blo >= 0:
            lo = 0
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    if rt == {'int'}:
        if los and lo != -INF:
            lo, los = lo + 1, False
        if his and hi != INF:
            hi, his = hi - 1, False
    r = E.der(st, o, a, b, types=rt, lo=None if lo == -INF else lo, hi=None if hi == INF else hi, los=los and lo != -INF,
              his=his and hi != INF)
    if o == '-' and r[0] == 'S':
        E.backprop(st, r[1])
    if o in ('+', '-') and ints and r[0] == 'S':
        # relations with the operands
        if o == '+':
            if blo > 0:
                E.rel_set(st, r, a, '>')
            elif bhi < 0:
                E.rel_set(st, r, a, '<')
            if alo > 0:
                E.rel_set(st, r, b, '>')
        else:
            if blo > 0:
                E.rel_set(st, r, a, '<')
    return [(st, r)]


def power(E, a, b, st):
    ta, tb = E.types(st, a), E.types(st, b)
    alo, alos, ahi, ahis = E.num_bounds(st, a)
    blo, *_ = E.num_bounds(st, b)
    out = []
    rt = set()
    if ta & {'int', 'bool'} and tb & {'int', 'bool'}:
        rt.add('int')
        if blo < 0:
            rt.add('float')
    if 'float' in ta | tb:
        rt.add('float')
    if 'float' in tb and alo < 0 and not (isK(b) and float(b[2]).is_integer()):
        c = st.copy()
        ok = True
        if b[0] == 'S':
            ok = E.set_types(c, b[1], frozenset(['float']))
        if ok and E.assume_lt(c, a, K(0), True):
            out.append((c, E.der(c, '**c', a, b, types={'complex'})))
            # otherwise: base not negative, or exponent not fractional
    r = E.der(st, '**', a, b, types=rt or {'float'}, lo=0 if alo >= 0 else None)
    out.append((st, r))
    return out


def seq_content(E, v, st):
    """(exact, summ, minlen) of a python container value."""
    if v[0] == 'T':
        return list(v[1]), None, len(v[1])
    if v[0] == 'R':
        o = E.obj(st, v)
        if o.elems is not None:
            els = [k for k, _ in o.elems] if o.kind == 'dict' else list(o.elems)
            return els, None, len(els)
        if o.kind == 'inst':
            return None, frozenset([E.leaf(st, 'elem')]), 0
        return None, frozenset(e[1] if e[0] == 'KV' else e for e in o.summ or ()), o.minlen
    if v[0] == 'K' and isinstance(v[2], str):
        return [K(c) for c in v[2]], None, len(v[2])
    if v[0] == 'S':
        return None, frozenset([E.sym_elem(v, st)]), E.minlen(st, v)
    return None, frozenset([E.leaf(st, 'elem')]), 0


# ---------------------------------------------------------------------- subscripts
def getitem(E, o, i, st, node):
    t = o[0]
    if isK(o) and isK(i) and isinstance(o[2], str):
        try:
            return [(st, K(o[2][i[2]]))]
        except (IndexError, TypeError) as e:
            E.raise_(st, type(e).__name__, node, info='string index')
            return []
    if t == 'K' and o[2] is None:
        E.raise_(st, 'TypeError', node, info='None is not subscriptable')
        return []
    if t == 'K' and isinstance(o[2], str):
        if i[0] == 'Sl' and all(isK(x) for x in i[1:]):
            return [(st, K(o[2][slice(*[x[2] for x in i[1:]])]))]
        return [(st, E.der(st, 'item', o, i, types=STR))]
    if t == 'T':
        if isK(i) and isinstance(i[2], int):
            try:
                return [(st, o[1][i[2]])]
            except IndexError:
                E.raise_(st, 'IndexError', node, info='tuple index')
                return []
        if i[0] == 'Sl' and all(isK(x) for x in i[1:]):
            return [(st, ('T', tuple(o[1][slice(*[x[2] for x in i[1:]])])))]
        if o[1]:
            return [(st, E.join_vals(sorted(set(o[1]), key=repr), st))]
        return [(st, E.leaf(st, 'item'))]
    if t == 'R':
        ob = E.obj(st, o)
        if ob.kind == 'inst':
            m = E.clsattr(ob.cls, '__getitem__')
            if m is None:
                E.raise_(st, 'TypeError', node, info=f'{ob.cls} is not subscriptable')
                return []
            return E.call(('BM', m, o), [i], {}, st, node)
        if ob.kind == 'dict':
            return dict_get(E, o, ob, i, st, node)
        if ob.kind == 'list' or ob.kind == 'iter':
            return list_get(E, o, ob, i, st, node)
        E.raise_(st, 'TypeError', node, info=f'{ob.kind} is not subscriptable')
        return []
    if t == 'S':
        return sym_get(E, o, i, st, node)
    if t == 'Ext' or t == 'Cls':
        return [(st, o)]
    return [(st, E.leaf(st, 'item'))]


def dict_get(E, o, ob, i, st, node):
    if ob.elems is not None:
        key = i if isK(i) else E.eqconst(st, i)
        if key is not None:
            for k, v in ob.elems:
                if isK(k) and k[2] == key[2] and type(k[2]) is type(key[2]):
                    return [(st, v)]
            for k, v in ob.elems:
                if k == key:
                    return [(st, v)]
            if all(isK(k) for k, _ in ob.elems):
                E.raise_(st, 'KeyError', node, info=f'{key[2]!r}')
                return []
        # instances with a known text, used as keys
        if i[0] == 'R' and E.obj(st, i).kind == 'inst':
            tx = E.instkey(st, i, node)
            if tx is False:
                E.raise_(st, 'TypeError', node, info='unhashable')
                return []
            if tx is not None:
                out = []
                for b, t in (E.cmp_eq(i, tx, st, node) if any(k == tx for k, _ in ob.elems) else [(st, False)]):
                    if t:
                        out += dict_get(E, o, ob, tx, b, node)
                    elif all(isK(k) for k, _ in ob.elems):
                        E.raise_(b, 'KeyError', node, info=repr(tx[2]))
                return out
        f = st.sets.get((o, '[]', i))
        if f is not None:
            return [(st, f)]
        dom = st.mon.get(('texts', i))
        if dom is not None and dom <= {k[2] for k, _ in ob.elems if isK(k)} and len(dom) <= 400:
            vals = [v for k, v in ob.elems if isK(k) and k[2] in dom]
            h = E.intrinsics.get('<dictget>')
            if h:
                r = h(E, o, i, vals, st, node)
                if r is not None:
                    return r
        if ob.elems:
            vs = [v for _, v in ob.elems]
            ts = frozenset().union(*[E.types(st, v) or {'?'} for v in vs])
            if '?' in ts:
                return [(st, E.leaf(st, 'item'))]
            r = E.der(st, 'item', o, i, types=ts)
            return [(st, r)]
        E.raise_(st, 'KeyError', node, weak=True)
        return []
    vals = [e[2] for e in ob.summ or () if e[0] == 'KV']
    if vals:
        return [(st, E.join_vals(sorted(vals, key=repr), st))]
    return [(st, E.leaf(st, 'item'))]


def list_get(E, o, ob, i, st, node):
    if i[0] == 'Sl':
        if ob.cls == 'range':
            if ob.fields and all(isK(x) for x in i[1:]):
                f = ob.fields
                return [(st, new_range(E, st, range(*[f[k][2] for k in ('start', 'stop', 'step')])[slice(*[x[2] for x in i[1:]])]))]
            return [(st, E.leaf(st, 'range', {'range'}))]
        if ob.elems is not None and all(isK(x) for x in i[1:]):
            return [(st, E.newlist(st, ob.elems[slice(*[x[2] for x in i[1:]])]))]
        els = frozenset(ob.elems) if ob.elems is not None else ob.summ
        whole = all(isK(x) and x[2] is None for x in i[1:])
        ml = len(ob.elems) if ob.elems is not None else ob.minlen
        if not whole:
            ml = max(0, ml - 1) if (isK(i[1]) and i[1][2] in (1, None) and isK(i[2]) and i[2][2] in (None, -1)
                                    and (i[1][2] == 1) != (i[2][2] == -1)) else 0
        return [(st, E.newlist(st, summ=els, minlen=ml))]
    ti = E.types(st, i)
    if ti is not None and not ti & {'int', 'bool'} :
        E.raise_(st, 'TypeError', node, info=f'list indices must be integers, not {"/".join(sorted(ti))}')
        return []
    if ob.elems is not None and isK(i) and isinstance(i[2], int):
        try:
            return [(st, ob.elems[i[2]])]
        except IndexError:
            E.raise_(st, 'IndexError', node, info='list index')
            return []
    if ob.elems and len(ob.elems) <= 8 and i[0] == 'S' and len(set(ob.elems)) > 1 and \
            any(e[0] == 'R' and E.obj(st, e).kind in ('list', 'dict', 'set') for e in ob.elems):
        # containers that may be changed through the item: one path per item
        out = []
        n = len(ob.elems)
        for k in range(-n, n):
            b = st.copy()
            if E.num_eq(b, i, k):
                out.append((b, ob.elems[k]))
        if out:
            return out
    n = len(ob.elems) if ob.elems is not None else ob.minlen
    if n == 0 and (isK(i) or ob.elems is not None):
        c = st.copy()
        E.raise_(c, 'IndexError', node, info='list index', weak=not derived(E, st, o))
        if ob.elems is not None:
            return []
    els = frozenset(ob.elems) if ob.elems is not None else ob.summ
    if not els:
        return [(st, E.leaf(st, 'item'))]
    return [(st, E.join_vals(sorted(els, key=repr), st))]


def derived(E, st, v):
    """Does a python list hold exactly the items of an operand (so that emptiness is up to the program)?"""
    o = E.obj(st, v)
    return o.src is not None


def sym_get(E, o, i, st, node):
    ty = E.types(st, o)
    key = (o[1], '[]', i)
    if key in st.sets:
        return [(st, st.sets[key])]
    if ty is None:
        return [(st, E.der(st, 'item', o, i, st.ver.get(o[1], 0)))]
    out = []
    repo = frozenset(t for t in ty if t in E.classes)
    if repo:
        # one path per class
        bad = frozenset(t for t in repo if E.clsattr(t, '__getitem__') is None) | (ty & {'NoneType', 'int', 'float', 'bool'})
        if bad:
            c = st.copy() if bad != ty else st
            E.set_types(c, o[1], bad)
            E.raise_(c, 'TypeError', node, info=f'{"/".join(sorted(bad))} is not subscriptable')
        for t in sorted(ty - bad):
            b = st.copy()
            if not E.set_types(b, o[1], frozenset([t])):
                continue
            if t in E.classes:
                m = E.clsattr(t, '__getitem__')
                out += E.call(('BM', m, o), [i], {}, b, node)
            else:
                out += py_get(E, o, i, b, node, t)
        return out
    bad = ty & {'NoneType', 'int', 'float', 'bool', 'complex', 'function', 'slice', 'generator', 'set'}
    if bad:
        c = st.copy() if bad != ty else st
        E.set_types(c, o[1], frozenset(bad))
        E.raise_(c, 'TypeError', node, info=f'{"/".join(sorted(bad))} is not subscriptable')
        if bad == ty:
            return []
        E.drop_types(st, o[1], frozenset(bad))
        ty = ty - bad
    if len(ty) == 1:
        return py_get(E, o, i, st, node, next(iter(ty)))
    return [(st, E.der(st, 'item', o, i, st.ver.get(o[1], 0)))]


def py_get(E, o, i, st, node, t):
    if t in ('str', 'list', 'tuple', 'range'):
        if i[0] == 'Sl':
            if t == 'list':
                r = E.newlist(st, summ=[E.sym_elem(o, st)], minlen=0, src=o)
                return [(st, r)]
            r = E.der(st, 'slice', o, i, types={t})
            return [(st, r)]
        ti = E.types(st, i)
        if ti is not None and 'slice' in ti:
            r = E.newlist(st, summ=[E.sym_elem(o, st)], src=o) if t == 'list' else E.der(st, 'slice', o, i, types={t})
            return [(st, r)]
        if ti is not None and not ti & {'int', 'bool'}:
            E.raise_(st, 'TypeError', node, info=f'{t} indices must be integers')
            return []
        ln = E.lenof(o, st)
        if isK(i) and isinstance(i[2], int):
            need = i[2] + 1 if i[2] >= 0 else -i[2]
            if E.minlen(st, o) < need:
                c = st.copy()
                if E.assume_lt(c, ln, K(need), True):
                    E.raise_(c, 'IndexError', node, info=f'{t} index', weak=not user_seq(E, st, o))
                if not E.assume_lt(st, K(need), ln, False):
                    return []
        if t == 'str':
            r = E.der(st, 'item', o, i, types=STR)
            st.facts.setdefault(('d', 'len', r, 0), F0._replace(types=INT, lo=1, hi=1))
            return [(st, r)]
        if t == 'range':
            return [(st, E.der(st, 'item', o, i, types=INT))]
        e = E.sym_elem(o, st)
        r = E.der(st, 'item', o, i, st.ver.get(o[1], 0))
        f = E.fact(st, r[1])
        if f.types is None:
            st.facts[r[1]] = E.fact(st, e[1]) if e[0] == 'S' else f
        return [(st, r)]
    if t == 'dict':
        q = E.der(st, 'in', i, o, st.ver.get(o[1], 0), types=BOOL)
        r = E.der(st, 'item', o, i, st.ver.get(o[1], 0))
        f = E.fact(st, q[1])
        if f.truth is None:
            h = E.intrinsics.get('<keyerror>')
            if h:
                h(E, o, i, st, node)
        return [(st, r)]
    return [(st, E.der(st, 'item', o, i, st.ver.get(o[1], 0)))]


def user_seq(E, st, v):
    """Is this python string / list the content of an operand of the program?"""
    k = v[1]
    while k[0] == 'd' and k[1] in ('f', 'str', 'slice', 'strm') and k[2][0] == 'S':
        k = k[2][1]
    return k[0] in ('p', 'n') and k[-1] in USERHINTS


USERHINTS = set()


def setitem(E, o, i, v, st, node):
    E.emit('setitem', node, st, obj=o, index=i, value=v)
    t = o[0]
    if t == 'R':
        ob = E.obj(st, o)
        if ob.kind == 'inst':
            m = E.clsattr(ob.cls, '__setitem__')
            if m is None:
                E.raise_(st, 'TypeError', node, info=f'{ob.cls} does not support item assignment')
                return []
            return [b for b, _ in E.call(('BM', m, o), [i, v], {}, st, node)]
        if ob.kind == 'dict':
            if ob.elems is not None and (isK(i) or E.loading):
                items = [x for x in ob.elems if x[0] != i] + [(i, v)] if not any(x[0] == i for x in ob.elems) else \
                    [(i, v) if x[0] == i else x for x in ob.elems]
                n = ob.rep(elems=tuple(items))
            elif ob.elems is not None and len(ob.elems) < 60:
                n = ob.rep(elems=None, summ=frozenset(('KV', a, b) for a, b in ob.elems) | {('KV', i, v)}, minlen=0)
            elif ob.elems is not None:
                n = ob
            else:
                n = ob.rep(summ=(ob.summ or frozenset()) | {('KV', i, v)})
            if E.loading:
                n.static = ob.static
            st.heap[o[1]] = n
            return [st]
        if ob.kind == 'list':
            if ob.elems is not None and isK(i) and isinstance(i[2], int):
                l = list(ob.elems)
                try:
                    l[i[2]] = v
                except IndexError:
                    E.raise_(st, 'IndexError', node, info='list assignment index')
                    return []
                st.heap[o[1]] = ob.rep(elems=tuple(l))
                return [st]
            els = frozenset(ob.elems) if ob.elems is not None else ob.summ or frozenset()
            ml = len(ob.elems) if ob.elems is not None else ob.minlen
            if i[0] == 'Sl' or 'slice' in (E.types(st, i) or ()):
                out = []
                for c, spec in E.iterate(v, st, node):
                    if spec[0] is not None and ob.elems is not None and i[0] == 'Sl' and all(isK(x) for x in i[1:]):
                        l = list(ob.elems)
                        try:
                            l[slice(*(x[2] for x in i[1:]))] = spec[0]
                        except (TypeError, ValueError) as e:
                            E.raise_(c, type(e).__name__, node, info='slice assignment')
                            continue
                        c.heap[o[1]] = ob.rep(elems=tuple(l))
                    else:
                        vals = spec[0] if spec[0] is not None else spec[1]
                        c.heap[o[1]] = ob.rep(elems=None, summ=els | frozenset(vals), minlen=0)
                    out.append(c)
                return out
            st.heap[o[1]] = ob.rep(elems=None, summ=els | {v}, minlen=ml)
            return [st]
        E.raise_(st, 'TypeError', node, info=f'{ob.kind} does not support item assignment')
        return []
    if t == 'S':
        ty = E.types(st, o)
        if ty is not None:
            if len(ty) > 1 and any(x in E.classes for x in ty):
                out = []
                for x in sorted(ty):
                    c = st.copy()
                    if E.set_types(c, o[1], frozenset([x])):
                        out += setitem_sym1(E, o, i, v, c, node, x)
                return out
            if len(ty) == 1:
                return setitem_sym1(E, o, i, v, st, node, next(iter(ty)))
        st.ver[o[1]] = st.ver.get(o[1], 0) + 1
        st.sets[(o[1], '[]', i)] = v
        return [st]
    if t in ('K', 'T'):
        E.raise_(st, 'TypeError', node, info=f'{t} does not support item assignment')
        return []
    return [st]


def setitem_sym1(E, o, i, v, st, node, t):
    if t in E.classes:
        m = E.clsattr(t, '__setitem__')
        if m is None:
            E.raise_(st, 'TypeError', node, info=f'{t} does not support item assignment')
            return []
        return [b for b, _ in E.call(('BM', m, o), [i, v], {}, st, node)]
    if t in ('str', 'int', 'float', 'tuple', 'NoneType', 'bool', 'range'):
        E.raise_(st, 'TypeError', node, info=f'{t} does not support item assignment')
        return []
    st.ver[o[1]] = st.ver.get(o[1], 0) + 1
    st.sets[(o[1], '[]', i)] = v
    return [st]


# ---------------------------------------------------------------------- builtin functions
def strof(E, v, st, node, rep=False):
    """str(v) / repr(v): [(state, value)]."""
    if isK(v):
        if v[2] is Ellipsis:
            return [(st, K('Ellipsis'))]
        return [(st, K(repr(v[2]) if rep else str(v[2])))]
    if v[0] == 'Cls' and v[1] in E.classes:
        return [(st, K(f"<class '{v[1]}'>"))]
    ty = E.types(st, v)
    m = '__repr__' if rep else '__str__'
    if ty is not None and ty <= STR and not rep:
        return [(st, v)]
    if v[0] == 'X':
        if E.exc_text and not rep:
            a = E.clsattr(v[1], '__str__') if v[1] in E.classes else None
            if a is not None and a[0] == 'Fn':
                return E.call(('BM', a, v), [], {}, st, node)
            if len(v[2]) == 1:
                return strof(E, v[2][0], st, node)
        return [(st, E.leaf(st, 'exctext', STR))]
    cls = next(iter(ty)) if ty and len(ty) == 1 else None
    if cls in E.classes and (E.inline_str and cls != BLOCK or
                             (not rep or E.loading) and (cls in (SCALAR, PATTERN, NIL) or cls not in PIP)):
        a = E.clsattr(cls, m)
        if a is None and not rep:
            a = E.clsattr(cls, '__repr__')
        if a is not None and a[0] == 'Fn':
            return E.call(('BM', a, v), [], {}, st, node)
    if v[0] in ('S', 'R'):
        E.emit('strof', node, st, value=v, rep=rep)
        r = E.der(st, 'repr' if rep else 'str', v, types=STR)
        if cls in (LIST, RANGE, BLOCK) and rep:
            st.facts.setdefault(('d', 'len', r, 0), F0._replace(types=INT, lo=2))
        if ty and ty <= NUM:
            st.facts.setdefault(('d', 'len', r, 0), F0._replace(types=INT, lo=1))
        return [(st, r)]
    return [(st, E.leaf(st, 'str', STR))]


def length(E, v, st, node):
    if isK(v):
        if isinstance(v[2], str):
            return [(st, K(len(v[2])))]
        E.raise_(st, 'TypeError', node, info=f'{v[1]} has no len()')
        return []
    if v[0] == 'T':
        return [(st, K(len(v[1])))]
    if v[0] == 'R':
        o = E.obj(st, v)
        if o.kind == 'inst':
            return cls_len(E, v, o.cls, st, node)
        if o.kind == 'iter' and o.cls in ('generator', 'map', 'zip', 'reversed', 'enumerate'):
            E.raise_(st, 'TypeError', node, info=f'{o.cls} has no len()')
            return []
        if o.elems is not None:
            return [(st, K(len(o.elems)))]
        if o.src is not None and o.src[0] == 'S' and o.kind == 'list':
            pass
        c = ('len', v, len(repr(o.content())) % 9973)
        return [(st, E.der(st, *c, types=INT, lo=o.minlen))]
    if v[0] == 'S':
        ty = E.types(st, v)
        if ty is None:
            return [(st, E.der(st, 'len', v, st.ver.get(v[1], 0), types=INT, lo=0))]
        bad = frozenset(t for t in ty if t in ('int', 'float', 'bool', 'NoneType', 'generator', 'map', 'function')
                        or t in E.classes and E.clsattr(t, '__len__') is None)
        if bad:
            if bad == ty:
                E.raise_(st, 'TypeError', node, info=f'{"/".join(sorted(bad))} has no len()')
                return []
            c = st.copy()
            E.set_types(c, v[1], bad)
            E.raise_(c, 'TypeError', node, info=f'{"/".join(sorted(bad))} has no len()')
            E.drop_types(st, v[1], bad)
            ty = ty - bad
        repo = frozenset(t for t in ty if t in E.classes)
        if not repo:
            return [(st, E.lenof(v, st))]
        out = []
        for t in sorted(ty):
            b = st.copy() if len(ty) > 1 else st
            if E.set_types(b, v[1], frozenset([t])):
                out += cls_len(E, v, t, b, node) if t in E.classes else [(b, E.lenof(v, b))]
        return out
    return [(st, E.leaf(st, 'len', INT, 0))]


def cls_len(E, v, cls, st, node):
    m = E.clsattr(cls, '__len__')
    if m is None:
        E.raise_(st, 'TypeError', node, info=f'{cls} has no len()')
        return []
    return E.call(('BM', m, v), [], {}, st, node)


def intof(E, v, st, node):
    if isK(v) and isinstance(v[2], (int, float)):
        try:
            return [(st, K(int(v[2])))]
        except (OverflowError, ValueError) as e:
            E.raise_(st, type(e).__name__, node)
            return []
    if isK(v) and isinstance(v[2], str):
        try:
            return [(st, K(int(v[2])))]
        except ValueError:
            E.raise_(st, 'ValueError', node, info='int() of non-numeric text')
            return []
    ty = E.types(st, v)
    if ty is None:
        return [(st, E.der(st, 'int', v, types=INT))]
    if ty <= {'int'}:
        return [(st, v)]
    if ty <= NUM:
        lo, los, hi, his = E.num_bounds(st, v)
        return [(st, E.der(st, 'int', v, types=INT, lo=None if lo == -INF else int(math.floor(lo)) if lo < 0 else int(lo),
                           hi=None if hi == INF else int(math.ceil(hi))))]
    out = []
    for t in sorted(ty):
        b = st.copy() if len(ty) > 1 else st
        if v[0] == 'S' and not E.set_types(b, v[1], frozenset([t])):
            continue
        if t in NUM:
            out.append((b, E.der(b, 'int', v, types=INT)))
        elif t == 'str':
            out.append((b, E.der(b, 'int', v, types=INT)))
        elif t in E.classes:
            m = E.clsattr(t, '__int__')
            if m is None:
                E.raise_(b, 'TypeError', node, info=f'int() of {t}')
            elif v[0] == 'R' and E.obj(b, v).kind == 'inst' and any(isK(x) for x in (E.obj(b, v).fields or {}).values()):
                out += E.call(('BM', m, v), [], {}, b, node)
            else:
                # pure: value-numbered
                h = E.der(b, 'int', v, types=INT)
                out.append((b, h))
        else:
            E.raise_(b, 'TypeError', node, info=f'int() of {t}')
    return out


def newset(E, st, vals, src=None):
    """A set of these values: exact if it is known which of them are equal."""
    def key(v, d=0):
        if v[0] == 'K':
            return ('K', v[2])
        if v[0] in ('Fn', 'Cls', 'Ext', 'Mod'):
            return v
        if v[0] == 'T' and d < 6:
            ks = tuple(key(x, d + 1) for x in v[1])
            return ('T',) + ks if None not in ks else None
        if v[0] == 'R' and d < 6:
            o = E.obj(st, v)
            if o.kind == 'inst' and (o.fields or o.cls == NIL):
                ks = tuple((n, key(f, d + 1)) for n, f in sorted((o.fields or {}).items()))
                return ('R', o.cls) + ks if all(k for _, k in ks) else None
            if o.kind == 'list' and o.elems is not None:
                ks = tuple(key(x, d + 1) for x in o.elems)
                return ('L',) + ks if None not in ks else None
        return None
    keys = {}
    for v in vals:
        k = key(v) or ('?', v)
        try:
            keys.setdefault(k, v)
        except TypeError:
            keys.setdefault(('?', v), v)
    if len(keys) > 1 and any(k[0] == '?' for k in keys):
        return E.newlist(st, summ=frozenset(vals), minlen=1, kind='set', src=src)
    return E.newlist(st, list(keys.values()), kind='set', src=src)


def mk_seq(E, v, st, node, kind, cls=None):
    out = []
    for b, spec in E.iterate(v, st, node):
        exact, summ, ml = spec
        if kind == 'tuple' and exact is not None:
            out.append((b, ('T', tuple(exact))))
        elif kind == 'tuple':
            r = E.newlist(b, summ=summ, minlen=ml, kind='list', src=v)
            out.append((b, r))
        elif exact is not None:
            if kind == 'set':
                out.append((b, newset(E, b, exact, v)))
                continue
            out.append((b, E.newlist(b, exact, kind=kind, cls=cls, src=v)))
        else:
            out.append((b, E.newlist(b, summ=summ, minlen=ml, kind=kind, cls=cls, src=v)))
    return out


TYPE_NAMES = {'builtins.str': 'str', 'builtins.int': 'int', 'builtins.float': 'float', 'builtins.bool': 'bool',
              'builtins.list': 'list', 'builtins.tuple': 'tuple', 'builtins.set': 'set', 'builtins.dict': 'dict',
              'builtins.range': 'range', 'builtins.slice': 'slice', 'types.GeneratorType': 'generator',
              'builtins.map': 'map', 'builtins.zip': 'zip', 'itertools.starmap': 'starmap',
              'builtins.complex': 'complex', 'builtins.frozenset': 'frozenset', 'builtins.object': 'object',
              'types.NoneType': 'NoneType', 'builtins.type': 'type', 'builtins.enumerate': 'enumerate',
              'builtins.reversed': 'reversed', 'builtins.filter': 'filter', 'builtins.bytes': 'bytes',
              'itertools.combinations': 'combinations', 'itertools.permutations': 'permutations',
              'itertools.product': 'product', 're.Pattern': 're.Pattern', 're.Match': 're.Match'}


def type_targets(E, v, st):
    """Type tags named by the second argument of isinstance; None if unknown."""
    if v[0] == 'Cls':
        return {v[1]}
    if v[0] == 'Ext':
        return {TYPE_NAMES.get(v[1], v[1])}
    if v[0] == 'T':
        out = set()
        for x in v[1]:
            t = type_targets(E, x, st)
            if t is None:
                return None
            out |= t
        return out
    if v[0] == 'R' and E.obj(st, v).elems is not None:
        return type_targets(E, ('T', E.obj(st, v).elems), st)
    return None


def isinstance_(E, v, tv, st, node):
    targets = type_targets(E, tv, st)
    if targets is None:
        return E.split_bool(st, ('isinstance', v, tv))
    ty = E.types(st, v)
    if ty is None:
        if v[0] != 'S':
            return E.split_bool(st, ('isinstance', v, tv))
        allt = set()
        for t in targets:
            if t in E.classes:
                allt |= set(E.subclasses(t))
            elif t == 'int':
                allt |= {'int', 'bool'}
            else:
                allt.add(t)
        f = E.fact(st, v[1])
        c = st.copy()
        out = []
        if 'object' in targets:
            return [(st, True)]
        yes = frozenset(allt) - f.nt
        if yes:
            E.set_types(st, v[1], yes)
            out.append((st, True))
        E.drop_types(c, v[1], frozenset(allt))
        if E.weak_top:
            # nothing is known about the value: what fails from here on is not definite
            c.mon = dict(c.mon)
            c.mon['~weak'] = True
        out.append((c, False))
        return out
    yes = frozenset(t for t in ty if any(E.isa(t, x) for x in targets))
    no = ty - yes
    if not no:
        return [(st, True)]
    if not yes:
        return [(st, False)]
    c = st.copy()
    E.set_types(st, v[1], yes)
    E.set_types(c, v[1], no)
    return [(st, True), (c, False)]


def minmax(E, name, args, kw, st, node):
    if len(args) == 1 and args[0][0] != 'Star':
        v = args[0]
        out = []
        for b, (exact, summ, ml) in E.iterate(v, st, node):
            vals = exact if exact is not None else sorted(summ, key=repr)
            if ml == 0 and 'default' not in kw:
                c = b.copy() if not (exact is not None) else b
                E.mark_empty(v, c)
                E.raise_(c, 'ValueError', node, info=f'{name}() of an empty sequence')
                if exact is not None and not exact:
                    continue
                E.mark_nonempty(v, b)
            if 'default' in kw:
                vals = list(vals) + [kw['default']]
            if exact is not None and 1 < len(vals) <= 4 and getattr(E, 'orders', False):
                done = best_of(E, name, vals, kw.get('key'), b, node)
                if done is not None:
                    out += done
                    continue
            if 'key' in kw and vals:
                for c, k in E.call(kw['key'], [E.freshen(vals[0], b)], {}, b, node):
                    order_ok(E, [k], c, node, name)
                    out.append((c, E.join_vals(vals, c)))
                continue
            if exact is not None and 'default' in kw and len(vals) > 1:
                vals = vals[:-1]
            if exact is not None and vals and all(isK(x) for x in vals):
                try:
                    out.append((b, K((max if name == 'max' else min)(x[2] for x in vals))))
                except TypeError:
                    E.raise_(b, 'TypeError', node)
                continue
            if vals and order_ok(E, vals, b, node, name):
                r = E.join_vals(vals, b)
                if exact is not None and len(vals) > 1 and all(E.is_num(b, x) for x in vals):
                    tighten(E, name, vals, r, b)
                out.append((b, r))
        return out
    if any(a[0] == 'Star' for a in args):
        vals = set()
        ml = 0
        for a in args:
            if a[0] == 'Star':
                o = E.obj(st, a[1])
                vals |= set(o.summ or o.elems or ())
                ml += o.minlen if o.elems is None else len(o.elems)
            else:
                vals.add(a)
                ml += 1
        if ml == 0:
            E.raise_(st.copy(), 'TypeError', node, info=f'{name}() of nothing')
        return [(st, E.join_vals(sorted(vals, key=repr), st))] if vals else []
    for a in args:
        if not split_none(E, a, st, node, f'{name}() with None'):
            return []
    if all(isK(a) for a in args):
        try:
            return [(st, K((max if name == 'max' else min)(*[a[2] for a in args])))]
        except TypeError:
            E.raise_(st, 'TypeError', node)
            return []
    if all(E.is_num(st, a) for a in args):
        ts = frozenset().union(*[E.types(st, a) for a in args])
        r = E.der(st, name, *args, types=ts)
        tighten(E, name, args, r, st)
        return [(st, r)]
    return [(st, E.join_vals(args, st))]


def all_keys(E, vals, key, st, node):
    """Keys of known items, one state per combination of outcomes; None when some key is no number or text."""
    cur = [(st.copy(), ())]
    for v in vals:
        cur = [(d, ks + (k,)) for c, ks in cur for d, k in (E.call(key, [v], {}, c, node) if key not in (None, NONE) else [(c, v)])]
    for d, ks in cur:
        ts = [E.types(d, k) for k in ks]
        if not all(t and t <= NUM | {'bool'} for t in ts) and not all(t == STR for t in ts):
            return None
    return cur


def best_of(E, name, vals, key, st, node):
    """max and min of known items: a path per order of the keys."""
    cur = all_keys(E, vals, key, st, node)
    if cur is None:
        return None
    out = []
    for d, ks in cur:
        level = [(d, 0)]
        for i in range(1, len(ks)):
            level = [(f, i if t else m) for c, m in level
                     for f, t in E.cmp('>' if name == 'max' else '<', ks[i], ks[m], c, node)]
        out += [(c, vals[m]) for c, m in level]
    return out


def order_of(E, vals, key, reverse, st, node):
    """sorted() of known items: a path per order of the keys."""
    cur = all_keys(E, vals, key, st, node)
    if cur is None:
        return None
    out = []

    def place(c, done, i, at, ks):
        if at == 0:
            return [(c, done[:0] + (i,) + done)]
        a, b = ks[i], ks[done[at - 1]]
        r = []
        for f, t in E.cmp('<', *((b, a) if reverse else (a, b)), c, node):
            r += place(f, done, i, at - 1, ks) if t else [(f, done[:at] + (i,) + done[at:])]
        return r
    for d, ks in cur:
        level = [(d, (0,))]
        for i in range(1, len(ks)):
            level = [x for c, done in level for x in place(c, done, i, len(done), ks)]
        out += [(c, [vals[m] for m in done]) for c, done in level]
    return out


def tighten(E, name, vals, r, st):
    if r[0] != 'S':
        return
    los = [E.num_bounds(st, a)[0] for a in vals]
    his = [E.num_bounds(st, a)[2] for a in vals]
    lo, hi = (max(los), max(his)) if name == 'max' else (min(los), min(his))
    f = E.fact(st, r[1])
    st.facts[r[1]] = f._replace(lo=None if lo == -INF else lo, hi=None if hi == INF else hi, los=False, his=False)
    for a in vals:
        E.rel_set(st, r, a, '>=' if name == 'max' else '<=')


def order_ok(E, vals, st, node, name):
    """Push TypeError when values certainly include unorderable ones."""
    ts = frozenset()
    for v in vals:
        t = E.types(st, v)
        if t is None:
            return True
        ts |= t
    noorder = frozenset(t for t in ts if t in E.classes and E.clsattr(t, '__lt__') is None) | (ts & {'NoneType', 'complex'})
    if noorder:
        E.raise_(st.copy(), 'TypeError', node, info=f'{name}: {"/".join(sorted(noorder))} cannot be ordered')
        if noorder == ts:
            return True
    if ts & NUM and ts & {'str', 'list', 'tuple'} or ('str' in ts and 'list' in ts) or 'list' in ts:
        E.raise_(st.copy(), 'TypeError', node, info=f'{name}: items of unlike types')
    return True


def num_arg(E, v, st, node, fn):
    """Argument must be a number; False if it cannot be."""
    ty = E.types(st, v)
    if ty is None:
        return True
    bad = ty - NUM
    bad = frozenset(t for t in bad if t in ('str', 'list', 'tuple', 'NoneType', 'dict', 'set', 'complex') or t in E.classes)
    if bad:
        if bad == ty or v[0] != 'S':
            E.raise_(st, 'TypeError', node, info=f'{fn}() of {"/".join(sorted(bad))}')
            return False
        c = st.copy()
        E.set_types(c, v[1], bad)
        E.raise_(c, 'TypeError', node, info=f'{fn}() of {"/".join(sorted(bad))}')
        E.drop_types(st, v[1], bad)
    return True


def need(E, v, st, node, lo, strict, exc, info, hi=None):
    """Fork off the path where v is outside its domain; False if nothing is left."""
    ty = E.types(st, v)
    if ty is None or not ty <= NUM:
        return True
    vlo, vlos, vhi, vhis = E.num_bounds(st, v)
    if lo is not None and (vlo < lo or (strict and vlo == lo and not vlos)):
        c = st.copy()
        if E.assume_lt(c, v, K(lo), not strict):
            E.raise_(c, exc, node, info=info)
        if not E.assume_lt(st, K(lo), v, strict):
            return False
    if hi is not None and vhi > hi:
        c = st.copy()
        if E.assume_lt(c, K(hi), v, True):
            E.raise_(c, exc, node, info=info)
        if not E.assume_lt(st, v, K(hi), False):
            return False
    return True


def is_str(E, st, v):
    t = E.types(st, v)
    return t is not None and t <= STR


def builtin(E, name, args, kw, st, node):
    h = E.intrinsics.get(name)
    if h:
        r = h(E, args, kw, st, node)
        if r is not None:
            return r
    short = name[9:] if name.startswith('builtins.') else name
    E.emit('ext', node, st, name=short, args=args, kw=kw)
    if short in FOLD and args and not kw and all(isK(a) and (a[2] is None or isinstance(a[2], (int, float, str, bool))) for a in args) and \
            not any(isinstance(a[2], int) and abs(a[2]) > 10 ** 6 for a in args):
        try:
            f = FOLD[short](*[a[2] for a in args])
            if f is None or isinstance(f, (int, float, str, bool)):
                return [(st, K(f))]
            if isinstance(f, tuple):
                return [(st, ('T', tuple(map(K, f))))]
        except Exception:
            pass        # the model below says what it raises
    fn = BUILTINS.get(short)
    if fn is not None:
        if any(a[0] == 'Star' for a in args) and short not in STAR_OK:
            return [(st, E.leaf(st, short))]
        return fn(E, args, kw, st, node)
    if E.pyexc(short):
        return [(st, ('X', short, tuple(a for a in args if a[0] != 'Star'), E.where(node) + ('',), False))]
    if short.startswith('math.'):
        return math_fn(E, short[5:], args, st, node)
    return [(st, E.leaf(st, short))]


def b_str(E, a, kw, st, node):
    if not a:
        return [(st, K(''))]
    return strof(E, a[0], st, node)


def b_repr(E, a, kw, st, node):
    return strof(E, a[0], st, node, True)


def b_len(E, a, kw, st, node):
    return length(E, a[0], st, node)


def failing(E, st, op, *args):
    """The state in which computing this term fails."""
    c = st.copy()
    if E.orders:
        c.facts[('d', 'fails', ('S', ('d', op) + args))] = F0._replace(truth=True)
    return c


def b_int(E, a, kw, st, node):
    if not a:
        return [(st, K(0))]
    if len(a) > 1:
        if isK(a[0]) and isK(a[1]):
            try:
                return [(st, K(int(a[0][2], a[1][2])))]
            except (ValueError, TypeError) as e:
                E.raise_(st, type(e).__name__, node, info='int() of a text that is no number in this base')
                return []
        E.raise_(failing(E, st, 'intb', *a), 'ValueError', node, info='int() of a text that is no number in this base')
        return [(st, E.der(st, 'intb', *a, types=INT))]
    return intof(E, a[0], st, node)


def b_float(E, a, kw, st, node):
    if a and isK(a[0]):
        try:
            return [(st, K(float(a[0][2])))]
        except Exception as e:
            E.raise_(st, type(e).__name__, node)
            return []
    return [(st, E.der(st, 'float', *a, types={'float'}))]


def b_bool(E, a, kw, st, node):
    if not a:
        return [(st, FALSE)]
    return [(b, K(t)) for b, t in E.truth(a[0], st, node)]


def b_isinstance(E, a, kw, st, node):
    return [(b, K(t)) for b, t in isinstance_(E, a[0], a[1], st, node)]


def b_issubclass(E, a, kw, st, node):
    return [(b, K(t)) for b, t in E.split_bool(st, ('issubclass', a[0], a[1]))]


def b_type(E, a, kw, st, node):
    ty = E.types(st, a[0])
    if ty and len(ty) == 1:
        t = next(iter(ty))
        if t in E.classes:
            return [(st, ('Cls', t))]
        return [(st, ('Ext', 'builtins.' + t))]
    return [(st, E.der(st, 'type', a[0], types={'type'}))]


def b_list(E, a, kw, st, node):
    if not a:
        return [(st, E.newlist(st, ()))]
    return mk_seq(E, a[0], st, node, 'list')


def b_tuple(E, a, kw, st, node):
    if not a:
        return [(st, ('T', ()))]
    return mk_seq(E, a[0], st, node, 'tuple')


def b_set(E, a, kw, st, node):
    if not a:
        return [(st, E.newlist(st, (), kind='set'))]
    return mk_seq(E, a[0], st, node, 'set')


def b_dict(E, a, kw, st, node):
    if not a:
        return [(st, E.alloc(st, Obj('dict', elems=tuple((K(k), v) for k, v in kw.items()))))]
    if a[0][0] == 'R' and E.obj(st, a[0]).kind == 'dict':
        return [(st, E.alloc(st, E.obj(st, a[0]).rep(static=False)))]
    return [(st, E.alloc(st, Obj('dict', summ=frozenset())))]


def b_iter(E, a, kw, st, node):
    return mk_seq(E, a[0], st, node, 'iter', 'iterator')


def b_next(E, a, kw, st, node):
    out = []
    v = a[0]
    if v[0] == 'R' and E.obj(st, v).kind == 'iter':
        o = E.obj(st, v)
        if o.elems is not None:
            if o.elems:
                st.heap[v[1]] = o.rep(elems=o.elems[1:])
                return [(st, o.elems[0])]
            if len(a) > 1:
                return [(st, a[1])]
            E.raise_(st, 'StopIteration', node)
            return []
        if o.summ:
            c = st.copy()
            if len(a) > 1:
                out.append((c, a[1]))
            else:
                E.raise_(c, 'StopIteration', node)
            out.append((st, E.join_vals(sorted(o.summ, key=repr), st)))
            return out
    return [(st, E.leaf(st, 'next'))]


def b_enumerate(E, a, kw, st, node):
    out = []
    start = a[1] if len(a) > 1 else kw.get('start', K(0))
    for b, (exact, summ, ml) in E.iterate(a[0], st, node):
        if exact is not None and isK(start):
            out.append((b, E.newlist(b, [('T', (K(start[2] + i), v)) for i, v in enumerate(exact)], kind='iter', cls='enumerate')))
        else:
            i = E.leaf(b, 'idx', INT, 0)
            out.append((b, E.newlist(b, summ=[('T', (i, v)) for v in (exact or summ)], minlen=ml, kind='iter', cls='enumerate', src=a[0])))
    return out


def zip_specs(E, args, st, node):
    cur = [(st, [])]
    for a in args:
        nxt = []
        for b, sp in cur:
            if a[0] == 'Star':
                o = E.obj(b, a[1])
                vals = o.summ if o.summ is not None else o.elems
                elem = set()
                for v in vals or ():
                    for c, spec in E.iterate(v, b, node):
                        elem |= set(spec[0] if spec[0] is not None else spec[1])
                        b = c
                nxt.append((b, sp + [('star', frozenset(elem))]))
            else:
                for c, spec in E.iterate(a, b, node):
                    nxt.append((c, sp + [spec]))
        cur = nxt
    return cur


def b_zip(E, a, kw, st, node, longest=False):
    out = []
    for b, specs in zip_specs(E, a, st, node):
        if any(s[0] == 'star' for s in specs):
            el = set()
            for s in specs:
                if s[0] == 'star':
                    el |= s[1]
                else:
                    el |= set(s[0] if s[0] is not None else s[1])
            if longest:
                el.add(kw.get('fillvalue', NONE))
            inner = E.newlist(b, summ=frozenset(el), minlen=0)
            out.append((b, E.newlist(b, summ=[inner] if el else (), kind='iter', cls='zip')))
            continue
        if all(s[0] is not None for s in specs):
            lists = [s[0] for s in specs]
            if longest:
                import itertools
                items = list(itertools.zip_longest(*lists, fillvalue=kw.get('fillvalue', NONE)))
            else:
                items = list(zip(*lists))
            out.append((b, E.newlist(b, [('T', tuple(x)) for x in items], kind='iter', cls='zip')))
            continue
        cols = []
        for s in specs:
            vals = list(s[0]) if s[0] is not None else sorted(s[1], key=repr)
            if longest:
                cols.append((vals, kw.get('fillvalue', NONE)))
            else:
                cols.append((vals, None))
        mls = [s[2] for s in specs]
        if longest:
            # every item is real in at least one column: one element per filled column and one with none
            combos = set()
            base = [E.join_vals(v, b) if v else f for v, f in cols]
            combos.add(('T', tuple(base)))
            for k in range(len(cols)):
                x = list(base)
                x[k] = cols[k][1]
                combos.add(('T', tuple(x)))
            out.append((b, E.newlist(b, summ=combos, minlen=max(mls), kind='iter', cls='zip')))
        else:
            if any(not v for v, _ in cols):
                out.append((b, E.newlist(b, (), kind='iter', cls='zip')))
                continue
            el = ('T', tuple(E.join_vals(v, b) if len(v) != 1 else v[0] for v, _ in cols))
            out.append((b, E.newlist(b, summ=[el], minlen=min(mls), kind='iter', cls='zip')))
    return out


def b_zip_longest(E, a, kw, st, node):
    return b_zip(E, a, kw, st, node, True)


def b_map(E, a, kw, st, node):
    out = []
    f = a[0]
    if len(a) == 2 and a[1][0] != 'Star':
        for b, (exact, summ, ml) in E.iterate(a[1], st, node):
            if exact is not None and len(exact) <= (24 if not all(isK(v) for v in exact) else 130):
                cur = [(b, [])]
                for v in exact:
                    cur = [(d, xs + [r]) for c, xs in cur for d, r in E.call(f, [v], {}, c, node)]
                for c, xs in cur:
                    out.append((c, E.newlist(c, xs, kind='iter', cls='map')))
                continue
            vals = exact if exact is not None else sorted(summ, key=repr)
            got = []
            for v in vals[:6]:
                c = b.copy()
                for d, r in E.call(f, [E.freshen(v, c)], {}, c, node):
                    got.append((d, E.newlist(d, summ=[r], minlen=ml, kind='iter', cls='map')))
            if ml == 0 and (not got or any(d.mon != b.mon for d, _ in got)):
                # no item at all; otherwise covered by the list of unknown length
                out.append((b, E.newlist(b, (), kind='iter', cls='map')))
            out += got
        return out
    for b, specs in zip_specs(E, a[1:], st, node):
        if specs and all(isinstance(s[0], (list, tuple)) for s in specs) and min(len(s[0]) for s in specs) <= 24:
            cur = [(b, [])]
            for vs in zip(*[s[0] for s in specs]):
                cur = [(d, xs + [r]) for c, xs in cur for d, r in E.call(f, list(vs), {}, c, node)]
            for c, xs in cur:
                out.append((c, E.newlist(c, xs, kind='iter', cls='map')))
            continue
        args = []
        for s in specs:
            vals = sorted(s[1], key=repr) if s[0] in (None, 'star') else list(s[0])
            args.append(E.join_vals(vals, b) if vals else E.leaf(b, 'maparg'))
        for c, r in E.call(f, args, {}, b, node):
            out.append((c, E.newlist(c, summ=[r], kind='iter', cls='map')))
    return out


def b_starmap(E, a, kw, st, node):
    out = []
    for b, (exact, summ, ml) in E.iterate(a[1], st, node):
        if exact is not None and len(exact) <= 24 and all(v[0] == 'T' for v in exact):
            cur = [(b, [])]
            for v in exact:
                cur = [(d, xs + [r]) for c, xs in cur for d, r in E.call(a[0], list(v[1]), {}, c, node)]
            for c, xs in cur:
                out.append((c, E.newlist(c, xs, kind='iter', cls='starmap')))
            continue
        for v in (exact if exact is not None else sorted(summ, key=repr))[:6]:
            c = b.copy()
            for d, spec in E.iterate(E.freshen(v, c), c, node):
                args = list(spec[0]) if spec[0] is not None else [('Star', E.newlist(d, summ=spec[1]))]
                for e, r in E.call(a[0], args, {}, d, node):
                    out.append((e, E.newlist(e, summ=[r], kind='iter', cls='starmap')))
        out.append((b, E.newlist(b, (), kind='iter', cls='starmap')))
    return out


def b_filter(E, a, kw, st, node):
    out = []
    for b, (exact, summ, ml) in E.iterate(a[1], st, node):
        vals = exact if exact is not None else sorted(summ, key=repr)
        c0 = b.copy()
        out.append((c0, E.newlist(c0, (), kind='iter', cls='filter')))
        for v in vals[:6]:
            c = b.copy()
            v = E.freshen(v, c)
            res = [(c, v)] if isK(a[0]) else E.call(a[0], [v], {}, c, node)
            for d, r in res:
                for e, t in E.truth(r, d, node):
                    if t:
                        out.append((e, E.newlist(e, summ=[v], kind='iter', cls='filter')))
    return out


def const_of(E, v, st):
    """(constant,) for a value made of constants only, else None."""
    if isK(v):
        return (v[2],)
    c = E.contents(v, st)
    if c is None or v[0] == 'R' and E.obj(st, v).kind != 'list':
        return None
    xs = [const_of(E, x, st) for x in c[0]]
    return None if None in xs else ((tuple if v[0] == 'T' else list)(x[0] for x in xs),)


def b_sorted(E, a, kw, st, node):
    out = []
    for b, (exact, summ, ml) in E.iterate(a[0], st, node):
        vals = exact if exact is not None else sorted(summ, key=repr)
        key = kw.get('key', NONE)
        if E.loading and exact is not None and all(isK(v) for v in exact):
            ks = []
            for v in exact:
                k = E.call(key, [v], {}, b, node)[0][1][2] if key != NONE else v[2]
                ks.append(k)
            order = sorted(range(len(exact)), key=lambda i: ks[i],
                           reverse=bool(kw.get('reverse', FALSE)[2]))
            out.append((b, E.newlist(b, [exact[i] for i in order])))
            continue
        if exact is not None and getattr(E, 'inline_eq', False) and isK(kw.get('reverse', FALSE)) and 1 < len(exact) <= 4 \
                and getattr(E, 'orders', False):
            done = order_of(E, exact, key, bool(kw.get('reverse', FALSE)[2]), b, node)
            if done is not None:
                out += [(d, E.newlist(d, r)) for d, r in done]
                continue
        if exact is not None and getattr(E, 'inline_eq', False) and isK(kw.get('reverse', FALSE)) and len(exact) <= 8:
            cur = [(b, ())]
            if key != NONE:
                for v in exact:
                    cur = [(d, ks + (k,)) for c, ks in cur for d, k in E.call(key, [v], {}, c, node)]
            else:
                cur = [(b, tuple(exact))]
            for d, ks in cur:
                consts = [const_of(E, k, d) for k in ks]
                if None in consts:
                    if order_ok(E, list(ks), d, node, 'sorted'):
                        out.append((d, E.newlist(d, exact if len(exact) < 2 else None, summ=None if len(exact) < 2 else frozenset(exact), minlen=ml)))
                    continue
                try:
                    order = sorted(range(len(exact)), key=lambda i: consts[i][0], reverse=bool(kw.get('reverse', FALSE)[2]))
                except TypeError:
                    E.raise_(d, 'TypeError', node, info='unorderable keys')
                    continue
                out.append((d, E.newlist(d, [exact[i] for i in order])))
            continue
        if key != NONE and vals:
            n = 0
            z = b.copy()
            for v in vals[:6]:
                c = b.copy()
                for d, k in E.call(key, [E.freshen(v, c)], {}, c, node):
                    order_ok(E, [k], d, node, 'sorted')
                    out.append((d, E.newlist(d, summ=frozenset(vals), minlen=ml, src=a[0])))
            if ml == 0:
                E.mark_empty(a[0], z)
                out.append((z, E.newlist(z, ())))
            continue
        if vals:
            order_ok(E, vals, b, node, 'sorted')
        if exact is not None and len(exact) <= 1:
            out.append((b, E.newlist(b, exact)))
        else:
            out.append((b, E.newlist(b, summ=frozenset(vals), minlen=ml, src=a[0])))
    return out


def b_reversed(E, a, kw, st, node):
    ty = E.types(st, a[0])
    if ty is not None:
        bad = frozenset(t for t in ty if t in ('int', 'float', 'NoneType', 'generator', 'map', 'zip', 'set')
                        or t in E.classes and not (E.clsattr(t, '__reversed__') or
                                                   E.clsattr(t, '__len__') and E.clsattr(t, '__getitem__')))
        if bad == ty:
            E.raise_(st, 'TypeError', node, info=f'reversed() of {"/".join(sorted(bad))}')
            return []
    out = []
    for b, (exact, summ, ml) in E.iterate(a[0], st, node):
        if exact is not None:
            out.append((b, E.newlist(b, list(exact)[::-1], kind='iter', cls='reversed')))
        else:
            out.append((b, E.newlist(b, summ=summ, minlen=ml, kind='iter', cls='reversed', src=a[0])))
    return out


def new_range(E, st, r):
    v = E.newlist(st, [K(i) for i in r], kind='iter', cls='range')
    st.heap[v[1]] = st.heap[v[1]].rep(fields={'start': K(r.start), 'stop': K(r.stop), 'step': K(r.step)})
    return v


def b_range(E, a, kw, st, node):
    for v in a:
        if not split_none(E, v, st, node, 'range() of None'):
            return []
        ty = E.types(st, v)
        if ty is not None and not ty & {'int', 'bool'}:
            E.raise_(st, 'TypeError', node, info=f'range() of {"/".join(sorted(ty))}')
            return []
        if ty is not None and 'float' in ty and v[0] == 'S':
            c = st.copy()
            E.set_types(c, v[1], frozenset(['float']))
            E.raise_(c, 'TypeError', node, info='range() of float')
            E.drop_types(st, v[1], frozenset(['float']))
    if all(isK(v) for v in a):
        r = range(*[v[2] for v in a])
        if len(r) <= 300:
            return [(st, new_range(E, st, r))]
    lo, hi = (K(0), a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3:
        x = E.leaf(st, 'idx', INT)
        if isK(a[2]) and a[2][2] < 0:
            lo, hi = hi, lo
            bl, bh = E.num_bounds(st, lo)[0], E.num_bounds(st, hi)[2]
            x = E.leaf(st, 'idx', INT, None if bl == -INF else bl + 1, None if bh == INF else bh)
        elif isK(a[2]):
            bl, bh = E.num_bounds(st, lo)[0], E.num_bounds(st, hi)[2]
            x = E.leaf(st, 'idx', INT, None if bl == -INF else bl, None if bh == INF else bh - 1)
        return [(st, E.newlist(st, summ=[x], kind='iter', cls='range'))]
    bl, bh = E.num_bounds(st, lo)[0], E.num_bounds(st, hi)[2]
    x = E.leaf(st, 'idx', INT, None if bl == -INF else bl, None if bh == INF else bh - 1)
    # emptiness: nonempty exactly if lo < hi
    out = []
    b = st.copy()
    if E.assume_lt(b, hi, lo, False):
        if not isK(hi) and not isK(lo):
            E.rel_set(b, hi, lo, E.rel_get(b, hi, lo) & frozenset('<=') or '=')
        out.append((b, E.newlist(b, (), kind='iter', cls='range')))
    if E.assume_lt(st, lo, hi, True):
        out.append((st, E.newlist(st, summ=[x], minlen=1, kind='iter', cls='range')))
    return out


def b_slice(E, a, kw, st, node):
    parts = [NONE, NONE, NONE]
    if len(a) == 1:
        parts[1] = a[0]
    else:
        for i, v in enumerate(a[:3]):
            parts[i] = v
    return [(st, ('Sl',) + tuple(parts))]


def b_abs(E, a, kw, st, node):
    v = a[0]
    if isK(v):
        return [(st, K(abs(v[2])))]
    if not num_arg(E, v, st, node, 'abs'):
        return []
    ty = E.types(st, v)
    r = E.der(st, 'abs', v, types=ty, lo=0)
    if E.excludes(st, v, 0):
        E.num_ne(st, r, 0)
    if ty is not None and ty <= NUM:
        rel = []
        lo, los, hi, his = E.num_bounds(st, v)
        if lo >= 0:
            return [(st, v)]
    return [(st, r)]


def b_radix(name):
    def f(E, a, kw, st, node):
        ty = E.types(st, a[0])
        if ty is not None and ty <= frozenset(INT) | {'bool'}:
            return [(st, E.der(st, name, a[0], types=STR, truth=True))]
        return [(st, E.leaf(st, name, STR))]
    return f


def b_ord(E, a, kw, st, node):
    if isK(a[0]) and isinstance(a[0][2], str) and len(a[0][2]) == 1:
        return [(st, K(ord(a[0][2])))]
    return [(st, E.der(st, 'ord', a[0], types=INT, lo=0, hi=0x10ffff))]


def b_chr(E, a, kw, st, node):
    v = a[0]
    if isK(v):
        try:
            return [(st, K(chr(v[2])))]
        except Exception as e:
            E.raise_(st, type(e).__name__, node)
            return []
    ty = E.types(st, v)
    if ty is not None and not ty <= {'int', 'bool'}:
        if not ty & {'int', 'bool'}:
            E.raise_(st, 'TypeError', node, info='chr() of a non-integer')
            return []
        if v[0] == 'S' and ty & {'float', 'str'}:
            c = st.copy()
            E.set_types(c, v[1], ty - {'int', 'bool'})
            E.raise_(c, 'TypeError', node, info='chr() of a non-integer')
            E.set_types(st, v[1], frozenset(['int', 'bool']))
    lo, los, hi, his = E.num_bounds(st, v)
    if lo < -2 ** 31 or hi > 2 ** 31:
        E.raise_(st.copy(), 'OverflowError', node, info='chr() of a large number')
    if not need(E, v, st, node, 0, False, 'ValueError', 'chr() argument out of range', hi=0x10ffff):
        return []
    r = E.der(st, 'chr', v, types=STR)
    st.facts.setdefault(('d', 'len', r, 0), F0._replace(types=INT, lo=1, hi=1))
    return [(st, r)]


def b_sum(E, a, kw, st, node):
    out = []
    for b, (exact, summ, ml) in E.iterate(a[0], st, node):
        vals = exact if exact is not None else list(summ)
        ts = [E.types(b, v) for v in vals]
        ok = all(t is not None and t <= NUM for t in ts)
        lo = 0 if ok and all(E.num_bounds(b, v)[0] >= 0 for v in vals) else None
        out.append((b, E.leaf(b, 'sum', frozenset({'int'}).union(*ts) - {'bool'} if ok else None, lo)))
    return out


def b_anyall(isall):
    def f(E, a, kw, st, node):
        out = []
        gen = st.mon.get(('gen', a[0])) if a else None
        if gen is not None:
            o = E.obj(st, a[0])
            if o.elems is None and o.summ and len(o.summ) == 1:
                for d, t in E.truth(next(iter(o.summ)), st, node):
                    d.mon.pop(('gen', a[0]), None)
                    if t == isall:
                        # the representative element decides for all of them
                        src, ty = E.checked_source(d, gen[0]), E.types(d, gen[1])
                        if src is not None and ty:
                            E.note_checked(d, src, ty, True, d)
                    out.append((d, K(t)))
                return out
        for b, (exact, summ, ml) in E.iterate(a[0], st, node):
            vals = exact if exact is not None else sorted(summ, key=repr)
            if exact is not None and len(exact) <= 130:
                cur = [(b.copy(), isall)]
                for v in exact:
                    cur = [r for c, t in cur for r in (E.truth(v, c, node) if t == isall else [(c, t)])]
                    if len(cur) > 40:
                        break
                else:
                    out += [(c, K(t)) for c, t in cur]
                    continue
            out.append((b.copy(), K(isall)))
            for v in vals[:40]:
                c = b.copy()
                for d, t in E.truth(E.freshen(v, c), c, node):
                    if t != isall:
                        out.append((d, K(t)))
        return out
    return f


def b_dir(E, a, kw, st, node):
    ty = E.types(st, a[0]) if a else None
    if ty and len(ty) == 1 and next(iter(ty)) in E.classes:
        names = []
        for q in E.mro(next(iter(ty))):
            if q in E.classes:
                names += list(E.classes[q].attrs) + list(E.classes[q].fields or ())
        names += dir(object)
        return [(st, E.newlist(st, [K(n) for n in dict.fromkeys(names)]))]
    return [(st, E.leaf(st, 'dir', {'list'}))]


def b_hasattr(E, a, kw, st, node):
    ty = E.types(st, a[0])
    if isK(a[1]) and ty and len(ty) == 1 and next(iter(ty)) in E.classes:
        c = next(iter(ty))
        return [(st, K(E.clsattr(c, a[1][2]) is not None or E.hasfield(c, a[1][2])))]
    return [(b, K(t)) for b, t in E.split_bool(st, ('hasattr', a[0], a[1]))]


def b_getattr(E, a, kw, st, node):
    if isK(a[1]):
        if len(a) > 2:
            ty = E.types(st, a[0])
            if ty and len(ty) == 1 and next(iter(ty)) in E.classes:
                c = next(iter(ty))
                if E.clsattr(c, a[1][2]) is None and not E.hasfield(c, a[1][2]):
                    return [(st, a[2])]
        return E.getattr_(a[0], a[1][2], st, node)
    E.emit('dyn_getattr', node, st, obj=a[0], name=a[1])
    return [(st, E.der(st, 'dynattr', a[0], a[1]))]


def b_setattr(E, a, kw, st, node):
    if isK(a[1]):
        return [(b, NONE) for b in E.setattr_(a[0], a[1][2], a[2], st, node)]
    E.emit('setattr', node, st, obj=a[0], attr='?', value=a[2])
    return [(st, NONE)]


def b_hash(E, a, kw, st, node):
    E.emit('hash', node, st, value=a[0])
    return [(st, E.der(st, 'hash', a[0], types=INT))]


def b_callable(E, a, kw, st, node):
    return [(b, K(t)) for b, t in E.split_bool(st, ('callable', a[0]))]


def b_print(E, a, kw, st, node):
    for v in a:
        if v[0] in ('S', 'R'):
            pass
    E.emit('print', node, st, args=a, kw=kw)
    return [(st, NONE)]


def b_input(E, a, kw, st, node):
    E.emit('input', node, st, args=a)
    c = st.copy()
    E.raise_(c, 'EOFError', node, info='end of input')
    d = st.copy()
    E.raise_(d, 'KeyboardInterrupt', node, weak=True, info='interrupt')
    return [(st, E.leaf(st, 'input', STR))]


def b_open(E, a, kw, st, node):
    E.emit('open', node, st, args=a, kw=kw)
    c = st.copy()
    E.raise_(c, 'OSError', node, info='open()')
    return [(st, E.leaf(st, 'file', {'file'}))]


def b_round(E, a, kw, st, node):
    if not num_arg(E, a[0], st, node, 'round'):
        return []
    return [(st, E.der(st, 'round', *a, types=INT if len(a) == 1 else None))]


def b_divmod(E, a, kw, st, node):
    out = []
    for b, q in binop(E, ast.FloorDiv(), a[0], a[1], st, node):
        for c, r in binop(E, ast.Mod(), a[0], a[1], b, node):
            out.append((c, ('T', (q, r))))
    return out


def b_pow(E, a, kw, st, node):
    return binop(E, ast.Pow(), a[0], a[1], st, node)


def b_super(E, a, kw, st, node):
    fi = E.fstack[-1]
    me = st.env.get('self') or next(iter(st.env.values()), NONE)
    return [(st, ('M', me, '__super__' + (fi.cls or '')))]


def b_id(E, a, kw, st, node):
    E.emit('nondet', node, st, what='id()')
    return [(st, E.leaf(st, 'id', INT, 0))]


def b_format(E, a, kw, st, node):
    return [(st, E.der(st, 'format', *a, types=STR))]


def b_exit(E, a, kw, st, node):
    E.emit('exit', node, st, args=a)
    E.raises.append((st, ('X', 'SystemExit', tuple(a), E.where(node) + ('',), False)))
    return []


def b_vars(E, a, kw, st, node):
    return [(st, E.leaf(st, 'vars', {'dict'}))]


def exact_args(E, a, st, node):
    """The arguments as lists of known values, or None (nothing consumed unless all are known)."""
    seqs = []
    for x in a:
        if x[0] == 'Star':
            c = E.contents(x[1], st)
            if c is None:
                return None
            seqs += c[0]
        else:
            seqs.append(x)
    st = st.copy()
    out = []
    for i, x in enumerate(seqs):
        if i and isK(x) and not isinstance(x[2], str):
            continue           # a count
        if x[0] == 'S':
            return None
        r = E.iterate(x, st, node) if isK(x) and isinstance(x[2], str) or x[0] == 'T' or x[0] == 'R' else []
        if len(r) != 1 or r[0][1][0] is None:
            return None
        st = r[0][0]
        out.append(tuple(r[0][1][0]))
    return out, st


def product_like(name):
    def f(E, a, kw, st, node):
        vals = set()
        ml = 1
        ex = exact_args(E, a, st, node)
        if ex is not None:
            its, st = ex
            k = kw.get('repeat') if name == 'product' else (a[1] if len(a) > 1 else K(len(its[0])))
            k = K(1) if k is None else k
            if name != 'product':
                its = its[:1]
            if isK(k) and isinstance(k[2], int) and k[2] >= 0:
                import itertools
                got = itertools.product(*its, repeat=k[2]) if name == 'product' else getattr(itertools, name)(its[0], k[2])
                got = list(itertools.islice(got, 201))
                if len(got) <= 200:
                    return [(st, E.newlist(st, [('T', x) for x in got], kind='iter', cls=name))]
        for x in a:
            if x[0] == 'Star':
                o = E.obj(st, x[1])
                for v in o.summ or o.elems or ():
                    for c, spec in E.iterate(v, st, node):
                        st = c
                        vals |= set(spec[0] if spec[0] is not None else spec[1])
            else:
                for c, spec in E.iterate(x, st, node):
                    st = c
                    vals |= set(spec[0] if spec[0] is not None else spec[1])
                    break
                else:
                    return []
                if name != 'product':
                    break
        if name in ('combinations', 'permutations', 'combinations_with_replacement') and len(a) > 1:
            if not need(E, a[1], st, node, 0, False, 'ValueError', f'itertools.{name} with a negative count'):
                return []
        inner = E.newlist(st, summ=frozenset(vals), minlen=0)
        return [(st, E.newlist(st, summ=[inner], kind='iter', cls=name))]
    return f


def b_chain(E, a, kw, st, node):
    ex = exact_args(E, a, st, node)
    if ex is not None:
        return [(ex[1], E.newlist(ex[1], [v for it in ex[0] for v in it], kind='iter', cls='chain'))]
    cur = [(st, set(), 0)]
    for x in a:
        nxt = []
        for b, vals, ml in cur:
            if x[0] == 'Star':
                o = E.obj(b, x[1])
                v2 = set(vals)
                for v in o.summ or o.elems or ():
                    for c, spec in E.iterate(v, b, node):
                        b = c
                        v2 |= set(spec[0] if spec[0] is not None else spec[1])
                nxt.append((b, v2, ml))
            else:
                for c, spec in E.iterate(x, b, node):
                    nxt.append((c, vals | set(spec[0] if spec[0] is not None else spec[1]), ml + spec[2]))
        cur = nxt
    return [(b, E.newlist(b, summ=frozenset(v), minlen=ml, kind='iter', cls='chain')) for b, v, ml in cur]


def b_chain_iter(E, a, kw, st, node):
    out = []
    for b, spec in E.iterate(a[0], st, node):
        vals = set()
        for v in (spec[0] if spec[0] is not None else sorted(spec[1], key=repr)):
            for c, s2 in E.iterate(E.freshen(v, b), b, node):
                b = c
                vals |= set(s2[0] if s2[0] is not None else s2[1])
        out.append((b, E.newlist(b, summ=frozenset(vals), kind='iter', cls='chain')))
    return out


def b_islice(E, a, kw, st, node):
    out = []
    for b, spec in E.iterate(a[0], st, node):
        vals = spec[0] if spec[0] is not None else spec[1]
        out.append((b, E.newlist(b, summ=frozenset(vals), kind='iter', cls='islice')))
    return out


def b_repeat(E, a, kw, st, node):
    n = a[1] if len(a) > 1 else kw.get('times')
    if n is not None and isK(n) and isinstance(n[2], int) and n[2] <= 64:
        return [(st, E.newlist(st, [a[0]] * n[2], kind='iter', cls='repeat'))]
    return [(st, E.newlist(st, summ=[a[0]], kind='iter', cls='repeat'))]


def b_cycle(E, a, kw, st, node):
    out = []
    for b, spec in E.iterate(a[0], st, node):
        vals = spec[0] if spec[0] is not None else spec[1]
        out.append((b, E.newlist(b, summ=frozenset(vals), minlen=spec[2], kind='iter', cls='cycle')))
    return out


def b_count(E, a, kw, st, node):
    start = a[0] if a else kw.get('start', K(0))
    lo = start[2] if isK(start) else None
    return [(st, E.newlist(st, summ=[E.leaf(st, 'idx', INT, lo)], minlen=1, kind='iter', cls='count'))]


def b_reduce(E, a, kw, st, node):
    out = []
    for b, (exact, summ, ml) in E.iterate(a[1], st, node):
        vals = exact if exact is not None else sorted(summ, key=repr)
        if len(a) > 2:
            acc = a[2]
            out.append((b.copy(), acc))
        elif vals:
            if ml == 0:
                E.raise_(b.copy(), 'TypeError', node, info='reduce() of an empty sequence')
            acc = E.join_vals(vals, b)
            out.append((b.copy(), acc))
        else:
            E.raise_(b, 'TypeError', node, info='reduce() of an empty sequence')
            continue
        if vals:
            for c, r in E.call(a[0], [acc, E.join_vals(vals, b)], {}, b, node):
                out.append((c, r))
                d = c.copy()
                out += E.call(a[0], [r, E.join_vals(vals, d)], {}, d, node)
    return out


# random ---------------------------------------------------------------
def b_random(E, a, kw, st, node):
    E.emit('random', node, st, name='random')
    return [(st, E.leaf(st, 'rnd', {'float'}, 0, 1))]


def b_randrange(E, a, kw, st, node):
    E.emit('random', node, st, name='randrange')
    lo, hi = (K(0), a[0]) if len(a) == 1 else (a[0], a[1])
    for v in (lo, hi):
        if not split_none(E, v, st, node, 'randrange() of None'):
            return []
    t1, t2 = E.types(st, lo), E.types(st, hi)
    if t1 is not None and t2 is not None and t1 <= NUM and t2 <= NUM:
        c = st.copy()
        rel = E.rel_get(c, hi, lo)
        if rel & frozenset('<=') and E.assume_lt(c, hi, lo, False):
            E.raise_(c, 'ValueError', node, info='random choice from an empty range')
        if not E.rel_get(st, lo, hi) & frozenset('<') or not E.assume_lt(st, lo, hi, True):
            return []
    bl, bh = E.num_bounds(st, lo)[0], E.num_bounds(st, hi)[2]
    return [(st, E.leaf(st, 'rnd', INT, None if bl == -INF else bl, None if bh == INF else bh - 1))]


def b_choice(E, a, kw, st, node):
    E.emit('random', node, st, name='choice')
    out = []
    for b, (exact, summ, ml) in E.iterate(a[0], st, node):
        if ml == 0:
            c = b.copy()
            E.mark_empty(a[0], c)
            E.raise_(c, 'IndexError', node, info='random choice from an empty sequence')
        vals = exact if exact is not None else sorted(summ, key=repr)
        if vals:
            out.append((b, E.join_vals(vals, b)))
    return out


def b_shuffle(E, a, kw, st, node):
    E.emit('random', node, st, name='shuffle')
    E.emit('mutate', node, st, obj=a[0], how='shuffle')
    v = a[0]
    if v[0] == 'R':
        o = E.obj(st, v)
        if o.elems is not None:
            st.heap[v[1]] = o.rep(elems=None, summ=frozenset(o.elems), minlen=len(o.elems))
    return [(st, NONE)]


def b_seed(E, a, kw, st, node):
    E.emit('random', node, st, name='seed', args=a)
    return [(st, NONE)]


def b_rand_other(nm):
    def f(E, a, kw, st, node):
        E.emit('random', node, st, name=nm)
        return [(st, E.leaf(st, 'rnd'))]
    return f


# re --------------------------------------------------------------------
def b_recompile(E, a, kw, st, node):
    flags = a[1] if len(a) > 1 else kw.get('flags', K(0))
    if isK(a[0]) and isK(flags):
        try:
            re.compile(a[0][2], flags[2])
        except (re.error, TypeError, ValueError) as e:
            E.raise_(st, 're.error' if isinstance(e, re.error) else type(e).__name__, node, info=str(e))
            return []
        return [(st, ('Rx', a[0][2], flags[2]))]
    if a[0][0] == 'Rx':
        return [(st, a[0])]
    E.raise_(st.copy(), 're.error', node, weak=True, info='invalid regular expression')
    return [(st, E.der(st, 're', *a, types={'re.Pattern'}))]


def b_rematch(nm):
    def f(E, a, kw, st, node):
        rx = a[0]
        names = RX_ARGS.get(nm, ['string'])[:2 if nm in ('split', 'sub', 'subn') else 1] + (
            ['count'] if nm in ('sub', 'subn') else []) + ['flags']
        if nm == 'split':
            names = ['string', 'maxsplit', 'flags']
        a, kw = list(a[1:]), dict(kw)
        for n in list(kw):
            if n in names and len(a) <= names.index(n):
                a += [None] * (names.index(n) + 1 - len(a))
                a[names.index(n)] = kw.pop(n)
        flags = a.pop() if len(a) == len(names) else K(0)
        while a and a[-1] is None:
            a.pop()
        a = [K(0) if x is None else x for x in a]
        if isK(rx):
            rx = ('Rx', rx[2], flags[2] if isK(flags) else flags)
        return rx_method(E, rx, nm, a, kw, st, node)
    return f


RX_ARGS = {'match': ['string', 'pos', 'endpos'], 'fullmatch': ['string', 'pos', 'endpos'], 'search': ['string', 'pos', 'endpos'],
           'finditer': ['string', 'pos', 'endpos'], 'findall': ['string', 'pos', 'endpos'], 'split': ['string', 'maxsplit'],
           'sub': ['repl', 'string', 'count'], 'subn': ['repl', 'string', 'count']}


def b_escape(E, a, kw, st, node):
    if isK(a[0]):
        return [(st, K(re.escape(a[0][2])))]
    r = E.der(st, 'escape', a[0], types=STR)
    ml = E.minlen(st, a[0])
    if ml:
        st.facts.setdefault(('d', 'len', r, 0), F0._replace(types=INT, lo=ml))
    return [(st, r)]


def rx_method(E, rx, name, a, kw, st, node):
    names = RX_ARGS.get(name, [])
    if kw and all(n in names for n in kw):
        a, kw = list(a), dict(kw)
        for n in list(kw):
            if len(a) <= names.index(n):
                a += [None] * (names.index(n) + 1 - len(a))
                a[names.index(n)] = kw.pop(n)
        a = [K(0) if x is None else x for x in a]
    limit = None
    if name in ('split', 'sub') and not kw and len(a) == len(names) and isK(a[-1]) and isinstance(a[-1][2], int):
        a, limit = list(a[:-1]), a[-1][2]
    if name in ('match', 'fullmatch', 'search'):
        if rx[0] == 'Rx' and len(a) == 1 and isK(a[0]) and isinstance(a[0][2], str) and isinstance(rx[2], int):
            m = getattr(re.compile(rx[1], rx[2]), name)(a[0][2])
            return [(st, E.der(st, 're' + name, rx, *a, types={'re.Match'}) if m else NONE)]
        for b_ in a[:1]:
            ty = E.types(st, b_)
            if ty is not None and not ty & {'str', 'bytes'}:
                E.raise_(st, 'TypeError', node, info='regex match on a non-string')
                return []
        return [(st, E.der(st, 're' + name, rx, *a, types={'re.Match', 'NoneType'}))]
    if name == 'finditer':
        cs = const_search(E, rx, a, kw, st)
        if cs is not None:
            return [(st, E.newlist(st, [E.der(st, 'rematch', rx, K(cs[1]), K(i), types={'re.Match'}) for i in range(len(cs[0]))],
                                   kind='iter', cls='generator'))]
        return [(st, E.newlist(st, summ=[E.der(st, 'rematch', rx, E.leaf(st, 'm'), types={'re.Match'})], kind='iter', cls='generator'))]
    if name == 'findall':
        cs = const_search(E, rx, a, kw, st)
        if cs is not None:
            lit = lambda x: ('T', tuple(map(K, x))) if isinstance(x, tuple) else K(x)
            return [(st, E.newlist(st, [lit(x) for x in re.compile(rx[1], rx[2]).findall(cs[1])]))]
        return [(st, E.newlist(st, summ=[E.leaf(st, 'found')]))]
    if name in ('sub', 'subn'):
        if name == 'sub' and len(a) == 2 and not kw and a[0][0] in ('Fn', 'BM', 'M') and rx[0] == 'Rx':
            cs = const_search(E, rx, a[1:], kw, st)
            if cs is not None and limit:
                cs = (cs[0][:max(limit, 0)], cs[1])
            if cs is not None:
                out = [(st, ())]
                for i, m in enumerate(cs[0]):
                    out = [(d2, ps + (r,)) for d, ps in out for d2, r in
                           E.call(a[0], [E.der(d, 'rematch', rx, K(cs[1]), K(i), types={'re.Match'})], {}, d, node)]
                if all(isK(r) and isinstance(r[2], str) for d, ps in out for r in ps):
                    ms = cs[0]
                    pre = [cs[1][(ms[i - 1].end() if i else 0):m.start()] for i, m in enumerate(ms)]
                    tail = cs[1][ms[-1].end():] if ms else cs[1]
                    return [(d, K(''.join(x + r[2] for x, r in zip(pre, ps)) + tail)) for d, ps in out]
        if a and a[0][0] in ('Fn', 'BM', 'M') or a and E.types(st, a[0]) == {'function'}:
            c = st.copy()
            m = E.der(c, 'rematch', rx, E.leaf(c, 'm'), types={'re.Match'})
            out = [(st, E.leaf(st, 'sub', STR))]
            for d, r in E.call(a[0], [m], {}, c, node):
                ty = E.types(d, r)
                if ty is not None and not ty <= {'str', 'NoneType'}:
                    E.raise_(d, 'TypeError', node, info=f'replacement function returns {"/".join(sorted(ty))}')
                    continue
                out.append((d, E.leaf(d, 'sub', STR)))
            return out
        if a and not isK(a[0]):
            E.raise_(st.copy(), 're.error', node, weak=True, info='invalid replacement')
        if name == 'sub' and all(isK(x) for x in a) and rx[0] == 'Rx' and isinstance(rx[2], int) and len(a) == 2 and not kw and isinstance(
                a[0][2], str) and isinstance(a[1][2], str):
            try:
                return [(st, K(re.compile(rx[1], rx[2]).sub(a[0][2], a[1][2], count=limit or 0)))]
            except (re.error, IndexError):
                E.raise_(st, 're.error', node, info='invalid replacement')
                return []
        if limit:
            return [(st, E.der(st, 'sub', rx, *a, K(limit), types=STR))]
        return [(st, E.der(st, 'sub', rx, *a, types=STR))]
    if name == 'split':
        cs = const_search(E, rx, a, kw, st)
        if cs is not None:
            return [(st, E.newlist(st, [K(x) for x in re.compile(rx[1], rx[2]).split(cs[1], maxsplit=limit or 0)]))]
        return [(st, E.newlist(st, summ=[E.leaf(st, 'piece', {'str', 'NoneType'} if rx[0] != 'Rx' else STR)], minlen=1))]
    return [(st, E.leaf(st, 'rx'))]


def const_search(E, rx, a, kw, st):
    """The matches of a constant pattern in a constant text, and the text."""
    if rx[0] == 'Rx' and isinstance(rx[2], int) and len(a) == 1 and not kw and isK(a[0]) and isinstance(a[0][2], str):
        try:
            ms = list(re.compile(rx[1], rx[2]).finditer(a[0][2]))
        except re.error:
            return None
        return (ms, a[0][2]) if len(ms) < 40 else None
    return None


def match_attr(E, m, attr, st):
    cm = const_match(m)
    if cm is not None:
        if attr in ('string', 'pos', 'endpos', 'lastindex', 'lastgroup'):
            return K(getattr(cm, attr))
        if attr == 'regs':
            return ('T', tuple(('T', (K(x), K(y))) for x, y in cm.regs))
    if attr in ('string',):
        return E.der(st, 'matchstr', m, types=STR)
    if attr == 'regs':
        x = E.leaf(st, 'idx', INT, -1)
        y = E.leaf(st, 'idx', INT, -1)
        return E.der(st, 'regs', m, types={'tuple'})
    return ('M', m, attr)


_always = {}


def groups_always(pattern, flags):
    """Numbers / names of the groups that take part in every match of a constant pattern."""
    k = (pattern, flags)
    if k not in _always:
        import re._parser as sp
        import re._constants as sc
        out = {0}

        def walk(p):
            for op, av in p:
                if op is sc.SUBPATTERN:
                    if av[0]:
                        out.add(av[0])
                    walk(av[3])
                elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
                    if av[0] > 0:
                        walk(av[2])
                elif op is sc.ATOMIC_GROUP:
                    walk(av)
        try:
            p = sp.parse(pattern, flags)
            walk(p)
            for nm, no in p.state.groupdict.items():
                if no in out:
                    out.add(nm)
        except re.error:
            pass
        _always[k] = out
    return _always[k]


def const_match(m):
    """The match of a constant pattern on a constant string."""
    if m[0] == 'S' and m[1][0] == 'd' and m[1][1] in ('rematch', 'refullmatch', 'research') and len(m[1]) == 4 and \
            m[1][2][0] == 'Rx' and isK(m[1][3]) and isinstance(m[1][3][2], str) and isinstance(m[1][2][2], int):
        return getattr(re.compile(m[1][2][1], m[1][2][2]), m[1][1][2:])(m[1][3][2])
    if m[0] == 'S' and m[1][0] == 'd' and m[1][1] == 'rematch' and len(m[1]) == 5 and m[1][2][0] == 'Rx' and isK(m[1][3]) and isK(m[1][4]):
        return list(re.compile(m[1][2][1], m[1][2][2]).finditer(m[1][3][2]))[m[1][4][2]]
    return None


def match_method(E, m, name, a, kw, st, node):
    cm = const_match(m)
    if cm is not None and name in ('group', 'start', 'end', 'span', 'groups') and all(isK(x) for x in a) and not kw:
        try:
            r = getattr(cm, name)(*[x[2] for x in a])
            return [(st, ('T', tuple(K(x) for x in r)) if isinstance(r, tuple) else K(r))]
        except (IndexError, TypeError):
            pass
    if name == 'group':
        if len(a) <= 1:
            z = not a or isK(a[0]) and a[0][2] == 0
            if not z and isK(a[0]) and m[0] == 'S' and m[1][0] == 'd' and len(m[1]) > 2 and m[1][2][0] == 'Rx':
                z = a[0][2] in groups_always(m[1][2][1], m[1][2][2])
            return [(st, E.der(st, 'group', m, *a, types={'str'} if z else {'str', 'NoneType'}))]
        return [(st, ('T', tuple(E.leaf(st, 'group', {'str', 'NoneType'}) for _ in a)))]
    if name == 'groups':
        return [(st, E.newlist(st, summ=[E.leaf(st, 'group', {'str', 'NoneType'})], minlen=1))]
    if name in ('start', 'end'):
        return [(st, E.der(st, name, m, *a, types=INT, lo=0 if not a else -1))]
    if name == 'span':
        return [(st, ('T', (E.der(st, 'start', m, types=INT, lo=0), E.der(st, 'end', m, types=INT, lo=0))))]
    if name == 'expand':
        return [(st, E.leaf(st, 'expand', STR))]
    return [(st, E.leaf(st, name))]


def math_fn(E, name, a, st, node):
    for v in a:
        if not num_arg(E, v, st, node, name):
            return []
    if all(isK(v) for v in a):
        try:
            return [(st, K(getattr(math, name)(*[v[2] for v in a])))]
        except (ValueError, OverflowError, TypeError, AttributeError) as e:
            E.raise_(st, type(e).__name__, node, info=f'math.{name}')
            return []
    v = a[0]
    if name in ('log', 'log2', 'log10', 'log1p'):
        if not need(E, v, st, node, 0 if name != 'log1p' else -1, True, 'ValueError', f'math.{name} of a nonpositive number'):
            return []
        if len(a) > 1:
            b = a[1]
            if not need(E, b, st, node, 0, True, 'ValueError', 'logarithm to a nonpositive base'):
                return []
            if not E.excludes(st, b, 1):
                c = st.copy()
                if E.num_eq(c, b, 1):
                    E.raise_(c, 'ZeroDivisionError', node, info='logarithm to base 1')
                if not E.num_ne(st, b, 1):
                    return []
        r = E.der(st, 'math.' + name, *a, types={'float'})
        if len(a) == 1 and name != 'log1p' and E.excludes(st, v, 1):
            E.num_ne(st, r, 0)
        return [(st, r)]
    if name == 'sqrt' or name == 'isqrt':
        if not need(E, v, st, node, 0, False, 'ValueError', f'math.{name} of a negative number'):
            return []
        return [(st, E.der(st, 'math.' + name, *a, types={'float'} if name == 'sqrt' else INT, lo=0))]
    if name in ('acos', 'asin'):
        if not need(E, v, st, node, -1, False, 'ValueError', f'math.{name} domain', hi=1):
            return []
    if name in ('fmod', 'remainder') and len(a) > 1:
        if not E.excludes(st, a[1], 0):
            c = st.copy()
            if isK(a[1]) or E.num_eq(c, a[1], 0):
                E.raise_(c, 'ValueError', node, info=f'math.{name} by zero')
            if isK(a[1]) or not E.num_ne(st, a[1], 0):
                return []
    if name in ('exp', 'pow', 'cosh', 'sinh', 'expm1'):
        E.raise_(st.copy(), 'OverflowError', node, weak=True, info=f'math.{name}')
    if name in ('floor', 'ceil', 'trunc'):
        lo, los, hi, his = E.num_bounds(st, v)
        return [(st, E.der(st, 'math.' + name, v, types=INT, lo=None if lo == -INF else math.floor(lo),
                           hi=None if hi == INF else math.ceil(hi)))]
    if name in ('factorial', 'gcd', 'comb', 'perm', 'lcm'):
        if name == 'factorial' and not need(E, v, st, node, 0, False, 'ValueError', 'factorial of a negative number'):
            return []
        return [(st, E.der(st, 'math.' + name, *a, types=INT, lo=0))]
    if name in ('isnan', 'isinf', 'isfinite', 'isclose'):
        return [(b, K(t)) for b, t in E.split_bool(st, ('math.' + name,) + tuple(a))]
    if name in ('log', 'exp'):
        return [(st, E.der(st, 'math.' + name, *a, types={'float'}))]
    rng = {'exp': (0, None), 'cosh': (1, None), 'fabs': (0, None)}.get(name, (None, None))
    r = E.der(st, 'math.' + name, *a, types={'float'}, lo=rng[0])
    if name == 'cos':
        E.num_ne(st, r, 0)      # no double is close enough to an odd multiple of pi/2
    return [(st, r)]


# functions of constants that are computed
FOLD = {k: getattr(builtins, k) for k in ('round', 'divmod', 'abs', 'hex', 'oct', 'bin', 'chr', 'ord', 'len', 'int', 'float', 'str', 'bool',
                                          'min', 'max', 'repr')}
FOLD.update({'math.' + k: getattr(math, k) for k in ('floor', 'ceil', 'trunc', 'gcd', 'isqrt', 'fabs', 'copysign', 'comb', 'perm', 'lcm',
                                                     'isinf', 'isnan', 'isfinite', 'sqrt', 'exp', 'log', 'log2', 'log10', 'sin', 'cos',
                                                     'tan', 'atan', 'atan2', 'pow', 'fmod', 'hypot', 'degrees', 'radians')})
BUILTINS = {
    'str': b_str, 'repr': b_repr, 'ascii': b_repr, 'len': b_len, 'int': b_int, 'float': b_float, 'bool': b_bool,
    'isinstance': b_isinstance, 'issubclass': b_issubclass, 'type': b_type, 'list': b_list, 'tuple': b_tuple,
    'set': b_set, 'frozenset': b_set, 'dict': b_dict, 'iter': b_iter, 'next': b_next, 'enumerate': b_enumerate,
    'zip': b_zip, 'itertools.zip_longest': b_zip_longest, 'map': b_map, 'itertools.starmap': b_starmap,
    'filter': b_filter, 'sorted': b_sorted, 'reversed': b_reversed, 'range': b_range, 'slice': b_slice,
    'abs': b_abs, 'ord': b_ord, 'chr': b_chr, 'sum': b_sum, 'any': b_anyall(False), 'all': b_anyall(True),
    'dir': b_dir, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr, 'hash': b_hash,
    'callable': b_callable, 'bin': b_radix('bin'), 'oct': b_radix('oct'), 'hex': b_radix('hex'), 'print': b_print, 'input': b_input, 'open': b_open, 'round': b_round,
    'divmod': b_divmod, 'pow': b_pow, 'super': b_super, 'id': b_id, 'format': b_format, 'vars': b_vars,
    'max': lambda E, a, kw, st, n: minmax(E, 'max', a, kw, st, n),
    'min': lambda E, a, kw, st, n: minmax(E, 'min', a, kw, st, n),
    'itertools.product': product_like('product'), 'itertools.combinations': product_like('combinations'),
    'itertools.permutations': product_like('permutations'),
    'itertools.combinations_with_replacement': product_like('combinations_with_replacement'),
    'itertools.chain': b_chain, 'itertools.chain.from_iterable': b_chain_iter, 'itertools.islice': b_islice,
    'itertools.repeat': b_repeat, 'itertools.cycle': b_cycle, 'itertools.count': b_count,
    'functools.reduce': b_reduce, 'itertools.takewhile': b_filter, 'itertools.dropwhile': b_filter,
    'random.random': b_random, 'random.randrange': b_randrange, 'random.choice': b_choice,
    'random.shuffle': b_shuffle, 'random.seed': b_seed, 'random.randint': b_rand_other('randint'),
    'random.uniform': b_rand_other('uniform'), 'random.sample': b_rand_other('sample'),
    'random.choices': b_rand_other('choices'), 'random.getrandbits': b_rand_other('getrandbits'),
    're.compile': b_recompile, 're.match': b_rematch('match'), 're.fullmatch': b_rematch('fullmatch'),
    're.search': b_rematch('search'), 're.sub': b_rematch('sub'), 're.split': b_rematch('split'),
    're.findall': b_rematch('findall'), 're.finditer': b_rematch('finditer'), 're.escape': b_escape,
    'exit': b_exit, 'quit': b_exit, 'sys.exit': b_exit, 'os._exit': b_exit,
    'copy.copy': lambda E, a, kw, st, n: copied(E, a[0], st), 'copy.deepcopy': lambda E, a, kw, st, n: copied(E, a[0], st),
}
STAR_OK = {'zip', 'itertools.zip_longest', 'map', 'max', 'min', 'itertools.product', 'itertools.chain', 'print'}


def copied(E, v, st):
    if v[0] == 'S':
        f = E.fact(st, v[1])
        return [(st, E.leaf(st, 'copy', f.types, fresh=True))]
    if v[0] == 'R':
        return [(st, E.alloc(st, E.obj(st, v).rep(static=False)))]
    return [(st, v)]


# ---------------------------------------------------------------------- methods of built-in types
STR_STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'swapcase', 'translate',
           'format', 'zfill', 'ljust', 'rjust', 'center', 'casefold', 'expandtabs', 'removeprefix', 'removesuffix',
           'decode'}
STR_BOOL = {'isalpha', 'isupper', 'islower', 'isdigit', 'isspace', 'isalnum', 'startswith', 'endswith', 'isnumeric',
            'isidentifier', 'isprintable', 'isascii', 'isdecimal', 'istitle'}
LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'clear', '__setitem__', 'update', 'add',
            'discard', 'setdefault', 'popitem', '__delitem__', '__iadd__'}


def method(E, recv, name, args, kw, st, node):
    h = E.intrinsics.get('.' + name)
    if h:
        r = h(E, recv, args, kw, st, node)
        if r is not None:
            return r
    if name.startswith('__super__'):
        return [(st, E.leaf(st, 'super'))]
    if recv[0] == 'M' and recv[2].startswith('__super__'):
        # super().method(...)
        cls = recv[2][9:]
        me = recv[1]
        mro = E.mro(cls)[1:]
        for q in mro:
            c = E.classes.get(q)
            if c and name in c.attrs:
                return E.call(('BM', c.attrs[name], me), args, kw, st, node)
        if name == '__new__':
            o = E.alloc(st, Obj('inst', cls, {}, site=E.where_fn()))
            return [(st, o)]
        return [(st, NONE)]
    if recv[0] == 'Ext':
        return builtin(E, recv[1] + '.' + name, args, kw, st, node)
    if recv[0] == 'Rx':
        return rx_method(E, recv, name, args, kw, st, node)
    ty = E.types(st, recv)
    if name == '__getattribute__' and args and isK(args[0]):
        return E.getattr_(recv, args[0][2], st, node)
    if name in ('__getitem__',) and args:
        return getitem(E, recv, args[0], st, node)
    if recv[0] == 'S' and ty is not None and any(t in E.classes for t in ty):
        return pip_joint(E, recv, name, args, kw, st, node, ty)
    if ty is None:
        E.emit('unknown_method', node, st, recv=recv, name=name, args=args)
        if name in LIST_MUT and recv[0] == 'S':
            E.emit('mutate', node, st, obj=recv, how=name, args=args)
            st.ver[recv[1]] = st.ver.get(recv[1], 0) + 1
        if name == 'copy':
            return [(st, E.leaf(st, 'copy', fresh=True))]
        return [(st, E.leaf(st, '.' + name))]
    if ty <= {'re.Match'}:
        return match_method(E, recv, name, args, kw, st, node)
    if ty <= {'re.Match', 'NoneType'} and 'NoneType' in ty and recv[0] == 'S':
        c = st.copy()
        E.set_types(c, recv[1], frozenset(['NoneType']))
        E.raise_(c, 'AttributeError', node, info=f'None has no attribute {name}')
        E.drop_types(st, recv[1], frozenset(['NoneType']))
        return match_method(E, recv, name, args, kw, st, node)
    if ty <= {'re.Pattern'}:
        return rx_method(E, recv, name, args, kw, st, node)
    if ty <= {'file'}:
        if name in ('read', 'readline'):
            return [(st, E.leaf(st, 'text', STR))]
        return [(st, E.leaf(st, name))]
    if 'NoneType' in ty and not hasattr(None, name):
        if ty == {'NoneType'} or recv[0] != 'S':
            E.raise_(st, 'AttributeError', node, info=f'None has no attribute {name}')
            return []
        c = st.copy()
        E.set_types(c, recv[1], frozenset(['NoneType']))
        E.raise_(c, 'AttributeError', node, info=f'None has no attribute {name}')
        E.drop_types(st, recv[1], frozenset(['NoneType']))
        ty = ty - {'NoneType'}
    if ty == {'str'}:
        return str_method(E, recv, name, args, kw, st, node)
    if ty <= NUM:
        if isK(recv) and not args and hasattr(recv[2], name) and name in ('bit_length', 'is_integer', 'conjugate', '__abs__', '__neg__', '__trunc__'):
            return [(st, K(getattr(recv[2], name)()))]
        if name == 'bit_length':
            return [(st, E.der(st, 'bitlen', recv, types=INT, lo=0))]
        if name == 'is_integer':
            return [(b, K(t)) for b, t in E.split_bool(st, ('isint', recv))]
        return [(st, E.der(st, '.' + name, recv, *args))]
    if recv[0] == 'T' or ty == {'tuple'}:
        if name == 'index':
            return [(st, E.leaf(st, 'idx', INT, 0))]
        if name == 'count':
            return [(st, E.leaf(st, 'cnt', INT, 0))]
        return [(st, E.leaf(st, name))]
    if ty <= {'slice'}:
        return [(st, E.leaf(st, name))]
    return cont_method(E, recv, name, args, kw, st, node, ty)


def pip_joint(E, recv, name, args, kw, st, node, ty):
    """Methods of values of several repository classes at once."""
    if name == 'copy':
        r = E.leaf(st, 'copy', ty, fresh=True)
        st.facts[r[1]] = E.fact(st, recv[1])._replace()
        return [(st, r)]
    if name == 'toNumber':
        lists = ty & {LIST, RANGE}
        rest = ty - lists
        out = []
        if rest:
            b = st.copy() if lists else st
            if E.set_types(b, recv[1], rest):
                out.append((b, E.der(b, 'toNumber', recv, types={'int', 'float'})))
        if lists:
            if E.set_types(st, recv[1], lists):
                out.append((st, E.der(st, 'toNumber', recv, types={'list'})))
        return out
    if name == 'isFinite':
        out = []
        rest = ty - {RANGE}
        if rest:
            b = st.copy()
            if E.set_types(b, recv[1], rest):
                out.append((b, TRUE))
        if RANGE in ty and E.set_types(st, recv[1], frozenset([RANGE])):
            out += E.call(('BM', E.clsattr(RANGE, 'isFinite'), recv), args, kw, st, node)
        return out
    return [(st, E.leaf(st, '.' + name))]


def str_method(E, recv, name, args, kw, st, node):
    if isK(recv) and all(isK(a) for a in args) and not kw and name in STR_STR | STR_BOOL | {'split', 'index', 'find', 'count', 'splitlines'}:
        try:
            r = getattr(recv[2], name)(*[a[2] for a in args])
        except Exception as e:
            E.raise_(st, type(e).__name__, node)
            return []
        if isinstance(r, list):
            return [(st, E.newlist(st, [K(x) for x in r]))]
        return [(st, K(r))]
    if name == 'translate' and isK(recv) and len(args) == 1 and args[0][0] == 'R':
        d = E.obj(st, args[0])
        if d.kind == 'dict' and d.elems is not None and all(isK(k) and isK(v) for k, v in d.elems):
            return [(st, K(recv[2].translate({k[2]: v[2] for k, v in d.elems})))]
    if name in STR_STR:
        return [(st, E.der(st, 'strm', recv, name, *args, types=STR))]
    if name in STR_BOOL:
        return [(b, K(t)) for b, t in E.split_bool(st, ('strb', recv, name) + tuple(args))]
    if name == 'join':
        out = []
        for b, (exact, summ, ml) in E.iterate(args[0], st, node):
            vals = exact if exact is not None else sorted(summ, key=repr)
            bad = False
            for v in vals:
                t = E.types(b, v)
                if t is not None and not t & STR:
                    E.raise_(b, 'TypeError', node, info=f'join of {"/".join(sorted(t))}')
                    bad = True
                    break
            if bad:
                continue
            if exact is not None and isK(recv) and all(isK(v) for v in exact):
                out.append((b, K(recv[2].join(v[2] for v in exact))))
            else:
                out.append((b, E.der(b, 'join', recv, *(exact if exact is not None else [args[0]]), types=STR)))
        return out
    if name in ('split', 'rsplit', 'splitlines'):
        if args and is_str(E, st, args[0]) and E.minlen(st, args[0]) < 1 and not (isK(args[0]) and args[0][2]):
            c = st.copy()
            if E.eqconst(c, args[0]) is None:
                E.assume_len(args[0], c, 0)
            E.raise_(c, 'ValueError', node, info='split on an empty separator')
            if args[0][0] == 'S':
                if not E.assume_lt(st, K(1), E.lenof(args[0], st), False):
                    return []
        return [(st, E.newlist(st, summ=[E.leaf(st, 'piece', STR)], minlen=1 if args else 0))]
    if name in ('find', 'rfind'):
        return [(st, E.der(st, name, recv, *args, types=INT, lo=-1))]
    if name in ('index', 'rindex'):
        E.raise_(failing(E, st, name, recv, *args), 'ValueError', node, info='substring not found')
        return [(st, E.der(st, name, recv, *args, types=INT, lo=0))]
    if name == 'count':
        if args:
            t = E.types(st, args[0])
            if t is not None and not t & STR:
                E.raise_(st, 'TypeError', node, info='str.count of a non-string')
                return []
        return [(st, E.der(st, 'count', recv, *args, types=INT, lo=0))]
    if name in ('partition', 'rpartition'):
        return [(st, ('T', tuple(E.leaf(st, 'piece', STR) for _ in range(3))))]
    if name == 'encode':
        return [(st, E.leaf(st, 'bytes', {'bytes'}))]
    if name == 'maketrans':
        return [(st, E.leaf(st, 'table', {'dict'}))]
    if name.startswith('__'):
        if name == '__contains__':
            return [(b, K(t)) for b, t in E.cmp_in(args[0], recv, st, node)]
    return [(st, E.leaf(st, name))]


def cont_method(E, recv, name, args, kw, st, node, ty):
    """Methods of lists, dicts, sets and iterators."""
    if name in LIST_MUT:
        E.emit('mutate', node, st, obj=recv, how=name, args=args)
    if recv[0] == 'S':
        k = recv[1]
        if name == 'append' and 'list' in ty:
            st.ver[k] = st.ver.get(k, 0) + 1
            st.facts.setdefault(('d', 'len', recv, st.ver[k]), F0._replace(types=INT, lo=1))
            return [(st, NONE)]
        if name in LIST_MUT:
            st.ver[k] = st.ver.get(k, 0) + 1
            if name == '__setitem__':
                return [(st, NONE)]
            if name == 'extend' and args:
                return [(b, NONE) for b, _ in E.iterate(args[0], st, node)]
            if name == 'pop':
                h = E.intrinsics.get('<pop>')
                if h:
                    r = h(E, recv, args, st, node)
                    if r is not None:
                        return r
                e = E.sym_elem(recv, st)
                return [(st, e)]
            return [(st, NONE if name not in ('setdefault', 'popitem') else E.leaf(st, name))]
        if name == 'copy':
            if 'list' in ty:
                return [(st, E.newlist(st, summ=[E.sym_elem(recv, st)], minlen=E.minlen(st, recv), src=recv))]
            return [(st, E.leaf(st, 'copy', ty, fresh=True))]
        if name == 'index':
            E.raise_(st.copy(), 'ValueError', node, info='item not in list')
            return [(st, E.leaf(st, 'idx', INT, 0))]
        if name == 'count':
            return [(st, E.leaf(st, 'cnt', INT, 0))]
        if name == 'get':
            r = E.der(st, 'item', recv, args[0], st.ver.get(k, 0))
            d = args[1] if len(args) > 1 else NONE
            key = (k, '[]', args[0])
            if key in st.sets:
                return [(st, st.sets[key])]
            c = st.copy()
            return [(st, r), (c, d)]
        if name == '__contains__':
            return [(b, K(t)) for b, t in E.cmp_in(args[0], recv, st, node)]
        return [(st, E.leaf(st, name))]
    o = E.obj(st, recv)
    if o.kind == 'dict':
        return dict_method(E, recv, o, name, args, kw, st, node)
    els = o.elems
    summ = o.summ if o.summ is not None else frozenset()

    def put(n):
        if E.loading:
            n.static = o.static
        st.heap[recv[1]] = n
    if name in ('append', 'add'):
        v = args[0]
        if els is not None:
            if name == 'add' and v in els:
                return [(st, NONE)]
            if o.kind == 'set':
                n = E.obj(st, newset(E, st, els + (v,)))
                put(o.rep(elems=n.elems, summ=n.summ, minlen=n.minlen, src=None))
                return [(st, NONE)]
            put(o.rep(elems=els + (v,), src=None))
        else:
            put(o.rep(summ=E.cap(summ | {v}, st), minlen=max(o.minlen, 1) if name == "append" else o.minlen, src=None))
        return [(st, NONE)]
    if name in ('extend', 'update', '__iadd__'):
        out = []
        for b, (ex, sm, ml) in E.iterate(args[0], st, node):
            oo = E.obj(b, recv)
            if oo.kind == 'set' and oo.elems is not None and ex is not None:
                n = E.obj(b, newset(E, b, oo.elems + tuple(ex)))
                b.heap[recv[1]] = oo.rep(elems=n.elems, summ=n.summ, minlen=n.minlen, src=None)
            elif oo.elems is not None and ex is not None:
                b.heap[recv[1]] = oo.rep(elems=oo.elems + tuple(ex), src=None)
            else:
                b.heap[recv[1]] = oo.rep(elems=None, summ=E.cap(frozenset(oo.elems or ()) | (oo.summ or frozenset())
                                         | frozenset(ex if ex is not None else sm), b),
                                         minlen=(len(oo.elems) if oo.elems is not None else oo.minlen) + ml, src=None)
            out.append((b, NONE))
        return out
    if name == 'insert':
        v = args[1]
        if els is not None and isK(args[0]):
            l = list(els)
            l.insert(args[0][2], v)
            put(o.rep(elems=tuple(l), src=None))
        else:
            put(o.rep(elems=None, summ=frozenset(els or ()) | summ | {v}, minlen=(len(els) if els is not None else o.minlen) + 1, src=None))
        return [(st, NONE)]
    if name == 'pop':
        h = E.intrinsics.get('<pop>')
        if h:
            r = h(E, recv, args, st, node)
            if r is not None:
                return r
        if els is not None:
            i = args[0][2] if args and isK(args[0]) else -1
            if not els:
                E.raise_(st, 'IndexError', node, info='pop from an empty list')
                return []
            try:
                v = els[i]
            except IndexError:
                E.raise_(st, 'IndexError', node, info='pop index out of range')
                return []
            l = list(els)
            del l[i]
            put(o.rep(elems=tuple(l), src=None))
            return [(st, v)]
        if o.minlen == 0:
            E.raise_(st.copy(), 'IndexError', node, info='pop from an empty list', weak=True)
        put(o.rep(minlen=max(0, o.minlen - 1), src=None))
        return [(st, E.join_vals(sorted(summ, key=repr), st) if summ else E.leaf(st, 'pop'))]
    if name in ('remove', 'discard'):
        if els is not None and args[0] in els:
            l = list(els)
            l.remove(args[0])
            put(o.rep(elems=tuple(l), src=None))
        elif els is not None:
            put(o.rep(elems=None, summ=frozenset(els), minlen=max(0, len(els) - 1), src=None))
        else:
            put(o.rep(minlen=max(0, o.minlen - 1), src=None))
        if name == 'remove' and not (els is not None and args[0] in els):
            E.raise_(st.copy(), 'ValueError', node, info='list.remove: not in list', weak=els is None)
        return [(st, NONE)]
    if name in ('reverse', 'sort'):
        if name == 'reverse' and els is not None:
            put(o.rep(elems=els[::-1]))
        elif els is not None:
            if 'key' in kw and kw['key'] != NONE and els:
                for c, k in E.call(kw['key'], [els[0]], {}, st, node):
                    order_ok(E, [k], c, node, 'sort')
                    st = c
                    break
                else:
                    return []
            else:
                order_ok(E, els, st, node, 'sort')
            st.heap[recv[1]] = o.rep(elems=None, summ=frozenset(els), minlen=len(els))
        elif name == 'sort' and summ:
            k = kw.get('key', NONE)
            if k != NONE:
                out = []
                for c, kv in E.call(k, [E.join_vals(sorted(summ, key=repr), st)], {}, st, node):
                    order_ok(E, [kv], c, node, 'sort')
                    out.append((c, NONE))
                return out
            order_ok(E, sorted(summ, key=repr), st, node, 'sort')
        return [(st, NONE)]
    if name == 'clear':
        put(o.rep(elems=(), summ=None, minlen=0, src=None))
        return [(st, NONE)]
    if name == 'copy':
        n = o.rep(static=False)
        return [(st, E.alloc(st, n))]
    if name == '__setitem__':
        return [(b, NONE) for b in setitem(E, recv, args[0], args[1], st, node)]
    if name == 'index':
        if els is not None and getattr(E, 'inline_eq', False) and all(isK(a) and a[2] >= 0 for a in args[1:]):
            cur, out = [st], []
            for i in range(args[1][2] if len(args) > 1 else 0, min(len(els), args[2][2] if len(args) > 2 else len(els))):
                nxt = []
                for s in cur:
                    for s2, t in E.cmp_eq(els[i], args[0], s, node):
                        if t:
                            out.append((s2, K(i)))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                E.raise_(s, 'ValueError', node, info='item not in list')
            return out
        E.raise_(st.copy(), 'ValueError', node, info='item not in list')
        return [(st, E.leaf(st, 'idx', INT, 0))]
    if name == 'count':
        if els is not None and getattr(E, 'inline_eq', False):
            cur = [(st, 0)]
            for x in els:
                cur = [(s2, n + t) for s, n in cur for s2, t in E.cmp_eq(x, args[0], s, node)]
            return [(s, K(n)) for s, n in cur]
        return [(st, E.leaf(st, 'cnt', INT, 0))]
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        x = seq_content(E, args[0], st) if args else ([], None, 0)
        return [(st, E.newlist(st, summ=frozenset(els or ()) | summ | frozenset(x[0] or x[1] or ()), kind='set'))]
    if name == '__contains__':
        return [(b, K(t)) for b, t in E.cmp_in(args[0], recv, st, node)]
    return [(st, E.leaf(st, name))]


def dict_method(E, recv, o, name, args, kw, st, node):
    if name in ('items', 'keys', 'values'):
        if o.elems is not None:
            vals = {'items': [('T', kv) for kv in o.elems], 'keys': [k for k, _ in o.elems],
                    'values': [v for _, v in o.elems]}[name]
            return [(st, E.newlist(st, vals, kind='iter', cls='dict_' + name))]
        kvs = [e for e in o.summ or () if e[0] == 'KV']
        vals = {'items': [('T', (k, v)) for _, k, v in kvs], 'keys': [k for _, k, _ in kvs],
                'values': [v for _, _, v in kvs]}[name]
        return [(st, E.newlist(st, summ=frozenset(vals), kind='iter', cls='dict_' + name))]
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        key = args[0] if isK(args[0]) else E.eqconst(st, args[0])
        if o.elems is not None and key is not None and all(isK(k) for k, _ in o.elems):
            for k, v in o.elems:
                if k[2] == key[2]:
                    return [(st, v)]
            return [(st, d)]
        out = []
        for b, t in E.cmp_in(args[0], recv, st, node):
            if t:
                out += dict_get(E, recv, o, args[0], b, node)
            else:
                out.append((b, d))
        return out
    if name == 'copy':
        return [(st, E.alloc(st, o.rep(static=False)))]
    if name == 'setdefault':
        return [(b, args[1] if len(args) > 1 else NONE) for b in setitem(E, recv, args[0], args[1] if len(args) > 1 else NONE, st, node)]
    if name == 'update':
        cur = [st]
        for k, v in kw.items():
            cur = [b for c in cur for b in setitem(E, recv, K(k), v, c, node)]
        if args and args[0][0] == 'R' and E.obj(st, args[0]).kind == 'dict' and E.obj(st, args[0]).elems is not None:
            for k, v in E.obj(st, args[0]).elems:
                cur = [b for c in cur for b in setitem(E, recv, k, v, c, node)]
        return [(c, NONE) for c in cur]
    if name == 'pop':
        if o.elems is not None and args and isK(args[0]):
            for k, v in o.elems:
                if k == args[0]:
                    st.heap[recv[1]] = o.rep(elems=tuple(x for x in o.elems if x[0] != k))
                    return [(st, v)]
            if len(args) > 1:
                return [(st, args[1])]
            E.raise_(st, 'KeyError', node)
            return []
        return [(st, E.leaf(st, 'pop'))]
    if name == 'clear':
        st.heap[recv[1]] = o.rep(elems=(), summ=None)
        return [(st, NONE)]
    if name == '__contains__':
        return [(b, K(t)) for b, t in E.cmp_in(args[0], recv, st, node)]
    return [(st, E.leaf(st, name))]
