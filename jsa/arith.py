"""Polynomial normal forms of integer terms."""
from .terms import *


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or t and t[0] == 'c':
        return t
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def quotient(a, b):
    return ('quot', key(a), key(b))


def key(t):
    return tuple(sorted(poly(t).items(), key=repr))


def _add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def _mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mn = tuple(sorted(m + n, key=repr))
            r[mn] = r.get(mn, 0) + c * d
            if not r[mn]:
                del r[mn]
    return r


def poly(t):
    """{monomial (tuple of atoms): coefficient} of an integer term. Quotients
    are atoms, a remainder a % b is a - b * (a // b)."""
    if t[0] == 'c' and isinstance(t[2], int):
        return {(): int(t[2])} if t[2] else {}
    if t[0] == 'bin' and t[1] in '+-':
        return _add(poly(t[2]), poly(t[3]), 1 if t[1] == '+' else -1)
    if t[0] == 'bin' and t[1] == '*':
        return _mul(poly(t[2]), poly(t[3]))
    if t[0] == 'bin' and t[1] == '//':
        return {(quotient(t[2], t[3]),): 1}
    if t[0] == 'bin' and t[1] == '%':
        return _add(poly(t[2]), _mul(poly(t[3]), {
            (quotient(t[2], t[3]),): 1}), -1)
    if t[0] == 'un' and t[1] == '-':
        return _add({}, poly(t[2]), -1)
    if t[0] == 'call' and t[1][0] == 'ext' and len(t[2]) == 1:
        a = t[2][0]
        if t[1][1] in ('builtins.int', 'math.floor'):
            if a[0] == 'bin' and a[1] == '/':
                return {(quotient(a[2], a[3]),): 1}
            if t[1][1] == 'builtins.int' and a[0] == 'bin':
                return poly(a)
    if t[0] == 'item' and t[1][0] == 'call' and \
            t[1][1] == ('ext', 'builtins.divmod') and t[2][0] == 'c':
        a, b = t[1][2]
        return poly(('bin', '//' if t[2][2] == 0 else '%', a, b))
    return {(t,): 1}
