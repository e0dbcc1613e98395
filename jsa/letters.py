"""Texts of uninterpreted letters. A term is evaluated with its unknown parts
replaced by distinct letters that occur nowhere in the source: comparing,
joining, cutting by computed lengths and searching then have the same result
for all texts of the same lengths, up to renaming. Every operation that does
look into letters (case, digits) is unknown."""
from .terms import *
from .core import *

UNKNOWN = ('?',)


class Blob:
    """A value that is only passed on."""
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Blob) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'Blob(%s)' % (show(self.t),)


def plain(v):
    return isinstance(v, (str, int, bool, type(None), tuple, list))


TEXT_METHODS = {'startswith', 'endswith', 'split', 'rsplit', 'partition',
                'rpartition', 'removeprefix', 'removesuffix', 'replace',
                'strip', 'lstrip', 'rstrip', 'join', 'find', 'rfind',
                'index', 'count', 'format', '__add__', '__len__', '__eq__',
                '__contains__', '__str__', 'lower', 'upper', 'title',
                'capitalize', 'swapcase', 'casefold'}


class Letters:
    """env: term -> text (or another plain value)"""
    def __init__(self, env):
        self.env = env

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        try:
            v = self._ev(t)
        except Exception:
            return UNKNOWN
        return v

    def all(self, ts):
        vs = [self.ev(t) for t in ts]
        return None if any(v is UNKNOWN for v in vs) else vs

    def _ev(self, t):
        k = t[0]
        if k == 'c':
            return t[2] if plain(t[2]) else UNKNOWN
        if k == 'fmt':
            out = ''
            for x in t[1]:
                v = self.ev(x if x[0] != 'spec' or x[2] not in ('', '!s')
                            else x[1])
                if v is UNKNOWN or not isinstance(v, str):
                    return UNKNOWN
                out += v
            return out
        if k == 'spec':
            return self.ev(t[1]) if t[2] in ('', '!s', 's') else UNKNOWN
        if k in ('tup', 'L'):
            vs = self.all(t[1] if k == 'tup' else t[3])
            return UNKNOWN if vs is None else tuple(vs)
        if k == 'bin':
            a = self.ev(t[2])
            if t[1] in ('or', 'and'):
                if a is UNKNOWN:
                    return UNKNOWN
                return self.ev(t[3]) if bool(a) == (t[1] == 'and') else a
            b = self.ev(t[3])
            if a is UNKNOWN or b is UNKNOWN:
                return UNKNOWN
            if t[1] == '+':
                return a + b
            if t[1] == '-':
                return a - b
            if t[1] == '*':
                return a * b
            return UNKNOWN
        if k == 'un':
            a = self.ev(t[2])
            if a is UNKNOWN:
                return UNKNOWN
            return not a if t[1].lower() == 'not' else -a \
                if t[1] in ('-', 'USub') else UNKNOWN
        if k == 'slice' and len(t) >= 4:
            vs = self.all(t[1:4])
            st = self.ev(t[4]) if len(t) > 4 else None
            if vs is None or st is UNKNOWN:
                return UNKNOWN
            return vs[0][vs[1]:vs[2]:st]
        if k in ('item', 'lookup'):
            a, b = self.ev(t[1]), self.ev(t[2])
            return UNKNOWN if a is UNKNOWN or b is UNKNOWN else a[b]
        if k == 'elem':
            a = self.ev(t[1])
            return UNKNOWN if a is UNKNOWN else a[t[2]]
        if k == 'call' and t[1][0] == 'ext' and not t[3]:
            vs = self.all(t[2])
            if vs is None:
                return UNKNOWN
            n = t[1][1]
            if n == 'builtins.len':
                return len(vs[0])
            if n == 'builtins.str' and isinstance(vs[0], str):
                return vs[0]
            if n == 'builtins.bool':
                return bool(vs[0])
            if n in ('builtins.tuple', 'builtins.list'):
                return tuple(vs[0])
            return UNKNOWN
        if k == 'mcall' and t[2] in TEXT_METHODS and not t[4]:
            o = self.ev(t[1])
            vs = self.all(t[3])
            if not isinstance(o, str) or vs is None:
                return UNKNOWN
            r = getattr(o, t[2])(*vs)
            return tuple(r) if isinstance(r, list) else r
        if k in ('eq', 'is', 'in', 'cmp', 'isnone', 'truth'):
            return self.cond(t)
        return UNKNOWN

    def cond(self, c):
        if c[0] == 'truth':
            v = self.ev(c[1])
            return UNKNOWN if v is UNKNOWN else bool(v)
        if c[0] == 'isnone':
            v = self.ev(c[1])
            return UNKNOWN if v is UNKNOWN else v is None
        if c[0] == 'cmp':
            op, a, b = c[1], self.ev(c[2]), self.ev(c[3])
        elif len(c) > 2:
            op, a, b = c[0], self.ev(c[1]), self.ev(c[2])
        else:
            return UNKNOWN
        if a is UNKNOWN or b is UNKNOWN:
            return UNKNOWN
        if op in ('eq', 'is', '=='):
            return a == b
        if op == '!=':
            return a != b
        if op == 'in':
            return a in b
        if op == 'lt' or op == '<':
            return a < b
        if op == 'gt' or op == '>':
            return a > b
        return UNKNOWN

    def feasible(self, facts):
        """False if a fact is known not to hold."""
        for c, v in facts.items():
            try:
                r = self.cond(c)
            except Exception:
                r = UNKNOWN
            if r is not UNKNOWN and bool(r) != v:
                return False
        return True
