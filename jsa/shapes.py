"""Abstract evaluation of terms over texts of known shape and over linear
forms. A text is a sequence of cells: known characters and digits of fields
whose value is unknown. A number is a linear form over fields and over the
quotients floor(A/k) of an unknown positive number A. Dates, times, offsets
and durations are records of such numbers. Nothing is executed: every
operation of the source has a transfer function on this domain, and the value
is UNKNOWN where it has none."""
import re
from fractions import Fraction

from .terms import *

UNKNOWN = type('Unknown', (), {'__repr__': lambda s: 'UNKNOWN'})()
A_MIN, A_MAX = 60, 86399


class Error:
    """The operation raises an exception."""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Error(%s)' % self.why


# -- numbers --------------------------------------------------------------------

class Lin:
    """sum of coefficient * atom; the atom 1 is the constant."""
    def __init__(self, d):
        self.d = {a: Fraction(c) for a, c in d.items() if c}

    def key(self):
        return tuple(sorted(self.d.items(), key=repr))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        def atom(a):
            return 'floor(A/%d)' % a[1] if isinstance(a, tuple) and \
                a[0] == 'F' else str(a)
        return ' + '.join(
            str(c) if a == 1 else atom(a) if c == 1 else '%s*%s' % (c, atom(a))
            for a, c in sorted(self.d.items(), key=repr)) or '0'

    def add(self, o, k=1):
        r = dict(self.d)
        for a, c in o.d.items():
            r[a] = r.get(a, 0) + k * c
        return Lin(r)

    def times(self, k):
        return Lin({a: c * k for a, c in self.d.items()})

    def const(self):
        if not set(self.d) - {1}:
            return self.d.get(1, Fraction(0))
        return None

    def integral(self):
        return all(c.denominator == 1 and whole_atom(a)
                   for a, c in self.d.items())

    def bounds(self):
        lo = hi = Fraction(0)
        d = dict(self.d)
        size = {a: 1 if a == 'A' else a[1] for a in d
                if a == 'A' or isinstance(a, tuple) and a[0] == 'F'}
        for a in sorted(size, key=size.get):
            for b in size:              # a remainder: A/a - (b/a) * A//b
                if a in d and b in d and size[b] > size[a] and \
                        size[b] % size[a] == 0 and \
                        d[b] == -d[a] * (size[b] // size[a]):
                    x, y = sorted((Fraction(0),
                                   d[a] * (size[b] // size[a] - 1)))
                    lo, hi = lo + x, hi + y
                    del d[a], d[b]
        for a, c in d.items():
            b = atom_bounds(a)
            if b is None:
                return None
            x, y = sorted((b[0] * c, b[1] * c))
            lo += x
            hi += y
        return lo, hi


def num(x):
    return Lin({1: x})


def whole_atom(a):
    return not (isinstance(a, tuple) and a[0] in ('?', 'real'))


def atom_bounds(a):
    if a == 1:
        return 1, 1
    if a == 'A':
        return A_MIN, A_MAX
    if isinstance(a, tuple) and a[0] == 'F':
        return A_MIN // a[1], A_MAX // a[1]
    if isinstance(a, str):
        return {'usec': (1, 999999), 'year': (1, 9999), 'month': (1, 12), 'day': (1, 31),
                'microsecond': (0, 999999)}.get(a, (0, 59))
    return None


def floor(l):
    """floor of a linear form, if it is one."""
    if l.integral():
        return l
    out, rest = {}, {}
    for a, c in l.d.items():
        n = c.numerator // c.denominator if whole_atom(a) else 0
        if abs(c) < 1:
            n = 0
        if n:
            out[a] = Fraction(n)
        if c - n:
            rest[a] = c - n
    if len(rest) == 1:
        (a, c), = rest.items()
        if c.numerator == 1 and (a == 'A' or isinstance(a, tuple) and
                                 a[0] == 'F'):
            k = c.denominator * (1 if a == 'A' else a[1])
            if k <= A_MAX:
                out[('F', k)] = out.get(('F', k), 0) + 1
            return Lin(out)
        if a == 1:
            n = c.numerator // c.denominator
            out[1] = out.get(1, 0) + n
            return Lin(out)
    b = Lin(rest).bounds()
    if b and 0 <= b[0] and b[1] < 1:
        return Lin(out)
    return None


def other(name, *ls):
    return Lin({('?', name) + tuple(
        l.key() if isinstance(l, Lin) else l for l in ls): 1})


def div(a, b):
    c = b.const()
    if not c:
        return UNKNOWN
    return a.times(1 / c)


def floordiv(a, b):
    c = b.const()
    if not c:
        return UNKNOWN
    r = floor(a.times(1 / c))
    return other('floor', a.times(1 / c)) if r is None else r


def mod(a, b):
    c = b.const()
    if not c:
        return UNKNOWN
    q = floor(a.times(1 / c))
    if q is None:
        return other('mod', a, b)
    return a.add(q, -c)


def trunc(a):
    b = a.bounds()
    if a.integral():
        return a
    if b and b[0] >= 0:
        r = floor(a)
        return other('int', a) if r is None else r
    if b and b[1] <= 0:
        r = floor(a.times(-1))
        return other('int', a) if r is None else r.times(-1)
    return other('int', a)


# -- texts -------------------------------------------------------------------------

class Str:
    """Cells: a character or (value key, index, width)."""
    def __init__(self, cells):
        self.c = tuple(cells)

    def __eq__(self, o):
        return isinstance(o, Str) and self.c == o.c

    def __hash__(self):
        return hash(self.c)

    def plain(self):
        return ''.join(x if isinstance(x, str) else '0' for x in self.c)

    def known(self):
        return all(isinstance(x, str) for x in self.c)

    def __repr__(self):
        out = ''
        for x in self.c:
            if isinstance(x, str):
                out += x
            elif x[1] == 0:
                out += '<%r>' % (Lin(dict(x[0])),)
            elif out[-1:] != '>':
                out += '<digit %d of %r>' % (x[1], Lin(dict(x[0])))
        return repr(out)


def text(s):
    return Str(tuple(s))


def digits(l, n):
    c = l.const()
    if c is not None and c.denominator == 1 and c >= 0:
        return Str(str(int(c)).zfill(n))
    return Str((l.key(), i, n) for i in range(n))


def number(s):
    """int(text)"""
    c = s.c
    if not c:
        return Error('int of an empty text')
    if c[0] in ('+', '-') and len(c) > 1:
        r = number(Str(c[1:]))
        return r.times(-1) if c[0] == '-' and isinstance(r, Lin) else r
    if s.known():
        try:
            return num(int(s.plain()))
        except ValueError:
            return Error('int of %r' % s.plain())
    if not all(isinstance(x, tuple) or x.isdigit() for x in c):
        return Error('int of %r' % s)
    at = 0
    total = num(0)
    if all(isinstance(x, tuple) for x in c) and c == tuple(
            (c[0][0], i, c[0][2]) for i in range(len(c))):
        if len(c) == c[0][2]:
            return Lin(dict(c[0][0]))
    while at < len(c):
        x = c[at]
        if isinstance(x, str):
            total = total.times(10).add(num(int(x)))
            at += 1
        elif x[1] == 0 and c[at:at + x[2]] == tuple(
                (x[0], i, x[2]) for i in range(x[2])):
            total = total.times(10 ** x[2]).add(Lin(dict(x[0])))
            at += x[2]
        else:
            return other('digits', c)
    return total


class Dt:
    """A date, time or datetime."""
    def __init__(self, kind, f, tz=None, local=False):
        self.kind, self.f, self.tz, self.local = kind, dict(f), tz, local

    def __repr__(self):
        return '%s(%s, %r)' % (self.kind, ', '.join(
            '%s=%r' % i for i in self.f.items()), self.tz)


class Td:
    def __init__(self, l):
        self.l = l

    def __eq__(self, o):
        return isinstance(o, Td) and self.l == o.l

    def __hash__(self):
        return hash(self.l)

    def __repr__(self):
        return 'timedelta(%r s)' % self.l


class Tz:
    """An offset (Lin of seconds, None if it depends on the date), the offset
    for the date of the value, and a name (text, None or UNKNOWN)."""
    def __init__(self, fixed, at=None, name=UNKNOWN):
        self.fixed, self.at, self.name = fixed, at if at is not None \
            else fixed, name

    def __repr__(self):
        return 'timezone(%r)' % (self.at,)


UTC = Tz(num(0), name=text('UTC'))
DATE = ('year', 'month', 'day')
TIME = ('hour', 'minute', 'second', 'microsecond')
DIRECTIVES = {'Y': ('year', 4), 'm': ('month', 2), 'd': ('day', 2),
              'H': ('hour', 2), 'M': ('minute', 2), 'S': ('second', 2),
              'f': ('microsecond', 6)}
COMPOUND = {'F': '%Y-%m-%d', 'T': '%H:%M:%S', 'R': '%H:%M'}


class Re:
    def __init__(self, p):
        self.p = p


class Match:
    def __init__(self, m, s):
        self.m, self.s = m, s


def offset_text(l, colon):
    b = l.bounds()
    if l.const() == 0:
        sign, a = '+', l
    elif b and b[0] >= 0:
        sign, a = '+', l
    elif b and b[1] <= 0:
        sign, a = '-', l.times(-1)
    else:
        return UNKNOWN
    h = floordiv(a, num(3600))
    m = floordiv(mod(a, num(3600)), num(60))
    if not isinstance(h, Lin) or not isinstance(m, Lin):
        return UNKNOWN
    return Str((sign,) + digits(h, 2).c + ((':',) if colon else ()) +
               digits(m, 2).c)


def strftime(dt, pat):
    out = []
    c = list(pat.c)
    i = 0
    while i < len(c):
        x = c[i]
        if x != '%':
            out.append(x)
            i += 1
            continue
        d = c[i + 1] if i + 1 < len(c) else None
        i += 2
        if d in COMPOUND:
            c[i:i] = list(COMPOUND[d])
        elif d == '%':
            out.append('%')
        elif d in DIRECTIVES:
            f, n = DIRECTIVES[d]
            v = dt.f.get(f)
            if v is None:
                v = {'year': num(1900), 'month': num(1),
                     'day': num(1)}.get(f, num(0))
            if not isinstance(v, Lin):
                return UNKNOWN
            out += digits(v, n).c
        elif d == 'y' and isinstance(dt.f.get('year'), Lin):
            out += digits(other('year of the century', dt.f['year']), 2).c
        elif d == 'z' or d == ':' and c[i:i + 1] == ['z']:
            if d == ':':
                i += 1
            if dt.tz is not None:
                o = offset_text(dt.tz.at, d == ':')
                if o is UNKNOWN:
                    return o
                out += o.c
        elif d in ('j', 'I', 'p', 'b', 'B', 'a', 'A', 'U', 'w', 's',
                   'Z', 'c', 'x', 'X', 'G', 'V', 'u', 'e', 'k', 'l', 'D'):
            out.append('\x00%s' % d)        # other text
        else:
            return UNKNOWN
    return Str(out)


def isoformat(dt, sep='T', spec='auto'):
    out = ()
    if dt.kind in ('date', 'datetime'):
        out += strftime(dt, text('%Y-%m-%d')).c
    if dt.kind == 'datetime':
        out += (sep,)
    if dt.kind in ('time', 'datetime'):
        pat = {'hours': '%H', 'minutes': '%H:%M', 'seconds': '%H:%M:%S',
               'microseconds': '%H:%M:%S.%f', 'auto': '%H:%M:%S'}.get(spec)
        if pat is None:
            return UNKNOWN
        us = dt.f.get('microsecond', num(0))
        if spec == 'auto' and us.const() != 0:
            pat += '.%f'
        out += strftime(dt, text(pat)).c
        if dt.tz is not None:
            o = offset_text(dt.tz.at, True)
            if o is UNKNOWN:
                return o
            out += o.c
    return Str(out)


def read_offset(c):
    """(offset, length) at the start of the cells, or None."""
    if c[:1] == ('Z',):
        return num(0), 1
    if c[:1] not in (('+',), ('-',)):
        return None
    n = 1
    parts = []
    for _ in range(2):
        if parts and c[n:n + 1] == (':',):
            n += 1
        r = number(Str(c[n:n + 2]))
        if len(c[n:n + 2]) < 2 or not isinstance(r, Lin):
            return None
        parts.append(r)
        n += 2
    l = parts[0].times(3600).add(parts[1].times(60))
    return (l.times(-1) if c[0] == '-' else l), n


def strptime(s, pat):
    if not pat.known():
        return UNKNOWN
    p = pat.plain()
    for k, v in COMPOUND.items():
        p = p.replace('%' + k, v)
    f = {'year': num(1900), 'month': num(1), 'day': num(1),
         'hour': num(0), 'minute': num(0), 'second': num(0),
         'microsecond': num(0)}
    tz = None
    c = s.c
    at = 0
    i = 0
    bad = Error('%r does not have the form %r' % (s, pat.plain()))
    while i < len(p):
        if p[i] != '%':
            if c[at:at + 1] != (p[i],):
                return bad
            at += 1
            i += 1
            continue
        d = p[i + 1:i + 2]
        i += 2
        if d == '%':
            if c[at:at + 1] != ('%',):
                return bad
            at += 1
        elif d == 'f':
            n = 0
            while n < 6 and at + n < len(c) and (
                    isinstance(c[at + n], tuple) or c[at + n].isdigit()):
                n += 1
            if not n:
                return bad
            r = number(Str(c[at:at + n]))
            if not isinstance(r, Lin):
                return bad
            f['microsecond'] = r.times(10 ** (6 - n))
            at += n
        elif d == 'y':
            r = number(Str(c[at:at + 2]))
            if len(c[at:at + 2]) < 2 or not isinstance(r, Lin):
                return bad
            f['year'] = other('some century', r)
            at += 2
        elif d in DIRECTIVES:
            name, n = DIRECTIVES[d]
            r = number(Str(c[at:at + n]))
            if len(c[at:at + n]) < n or not isinstance(r, Lin):
                return bad
            f[name] = r
            at += n
        elif d == 'z':
            r = read_offset(c[at:])
            if r is None:
                return bad
            tz = Tz(r[0])
            at += r[1]
        else:
            return UNKNOWN
    if at != len(c):
        return bad
    return Dt('datetime', f, tz)


def fromisoformat(kind, s):
    c = s.c
    pats = {'date': ['%Y-%m-%d'], 'time': ['%H:%M:%S', '%H:%M:%S.%f'],
            'datetime': ['%Y-%m-%d{}%H:%M:%S', '%Y-%m-%d{}%H:%M:%S.%f',
                         '%Y-%m-%d']}[kind]
    for p in pats:
        for z in ('', '%z'):
            if kind == 'date' and z:
                continue
            r = strptime(s, text(p.format('T') + z))
            if isinstance(r, Dt):
                return part(r, kind) if kind != 'datetime' else r
    return Error('%r is not in ISO format' % s)


def part(dt, kind):
    keep = DATE if kind == 'date' else TIME
    return Dt(kind, {k: v for k, v in dt.f.items() if k in keep},
              dt.tz if kind == 'timetz' else None)


# -- evaluation -----------------------------------------------------------------------

class Eval:
    """env: {term: value} for the inputs; local: the Tz of naive values."""
    def __init__(self, env, local=None, value=None):
        self.env, self.local, self.value = env, local, value
        self.memo = {}

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        try:
            r = self.ev_(t)
        except (TypeError, ValueError, IndexError, KeyError,
                AttributeError, RecursionError):
            r = UNKNOWN
        self.memo[t] = r
        return r

    def evs(self, ts):
        out = []
        for t in ts:
            v = self.ev(t)
            out.append(v)
        return out

    def ev_(self, t):
        k = t[0]
        if k == 'c':
            if t[1] == 'str':
                return text(t[2])
            if t[1] in ('int', 'float') and t[1] != 'bool':
                return num(Fraction(t[2]))
            if t[1] in ('bool', 'NoneType'):
                return t[2]
            return UNKNOWN
        if k == 'ext':
            if t[1] in ('datetime.timezone.utc', 'datetime.UTC'):
                return UTC
            return UNKNOWN
        if k == 'copy':
            return self.ev(t[1])
        if k == 'tup':
            return tuple(self.evs(t[1]))
        if k == 'L':
            return tuple(self.evs(t[3])) if not any(
                x[0] == '*' for x in t[3]) else UNKNOWN
        if k == 'fmt':
            out = ()
            for p in t[1]:
                v = self.format(self.ev(p[1]), p[2]) if p[0] == 'spec' \
                    else self.str(self.ev(p))
                if not isinstance(v, Str):
                    return v if isinstance(v, Error) else UNKNOWN
                out += v.c
            return Str(out)
        if k == 'attr':
            return self.attr(self.ev(t[1]), t[2], t)
        if k == 'item':
            return self.item(self.ev(t[1]), self.ev(t[2]))
        if k == 'slice':
            o = self.ev(t[1])
            if isinstance(o, Error):
                return o
            ix = [self.ev(x) for x in t[2:5]]
            ix = [int(x.const()) if isinstance(x, Lin) and
                  x.const() is not None else x for x in ix]
            if any(x is not None and not isinstance(x, int) for x in ix):
                return UNKNOWN
            if isinstance(o, Str):
                return Str(o.c[slice(*ix)])
            if isinstance(o, tuple):
                return o[slice(*ix)]
            return UNKNOWN
        if k == 'bin':
            if t[1] in ('or', 'and'):
                a = self.ev(t[2])
                b = self.truth(a)
                if b is None:
                    return UNKNOWN
                return a if b == (t[1] == 'or') else self.ev(t[3])
            return self.binop(t[1], self.ev(t[2]), self.ev(t[3]))
        if k == 'un':
            return self.unop(t[1], self.ev(t[2]))
        if k == 'cmp':
            r = self.compare(t[1], t[2], t[3])
            return UNKNOWN if r is None else r
        if k == 'call' and t[1][0] == 'ext':
            return self.call(t[1][1], t)
        if k == 'mcall':
            return self.method(t)
        return UNKNOWN

    # conversions

    def str(self, v):
        if isinstance(v, (Str, Error)):
            return v
        if isinstance(v, Lin):
            c = v.const()
            if c is not None and c.denominator == 1:
                return text(str(int(c)))
            return Str(((v.key(), 0, '?'),))
        if isinstance(v, Dt):
            return isoformat(v, ' ')
        return UNKNOWN

    def format(self, v, spec):
        if isinstance(v, Lin):
            m = re.fullmatch(r'0(\d+)d?', spec)
            if m:
                b = v.bounds()
                if b is None or b[0] < 0 or not v.integral():
                    return digits(v, int(m.group(1))) if v.integral() and \
                        b and b[0] >= 0 else UNKNOWN
                return digits(v, int(m.group(1)))
        if isinstance(v, Dt) and '%' in spec:
            return strftime(v, text(spec))
        if spec in ('', 's', '!s'):
            return self.str(v)
        if isinstance(v, Lin) and spec in ('d', '+d'):
            return self.str(v)
        return UNKNOWN

    def truth(self, v):
        if v is UNKNOWN or isinstance(v, Error):
            return None
        if isinstance(v, Str):
            return bool(v.c)
        if isinstance(v, Td):
            v = v.l
        if isinstance(v, Lin):
            if v.const() is not None:
                return bool(v.const())
            b = v.bounds()
            if b and (b[0] > 0 or b[1] < 0):
                return True
            if v == Lin({'microsecond': 1}):
                return None
            return None
        if isinstance(v, (Dt, Tz, Match, Re)):
            return True
        return bool(v)

    # operators

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Error):
                return x
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == '+':
                return a.add(b)
            if op == '-':
                return a.add(b, -1)
            if op == '*':
                if b.const() is not None:
                    return a.times(b.const())
                if a.const() is not None:
                    return b.times(a.const())
                return UNKNOWN
            if op == '/':
                return div(a, b)
            if op == '//':
                return floordiv(a, b)
            if op == '%':
                return mod(a, b)
            return UNKNOWN
        if isinstance(a, Td) and isinstance(b, Td):
            if op in '+-':
                return Td(a.l.add(b.l, 1 if op == '+' else -1))
            if op == '/':
                return div(a.l, b.l)
            if op == '//':
                return floordiv(a.l, b.l)
            if op == '%':
                r = mod(a.l, b.l)
                return Td(r) if isinstance(r, Lin) else r
        if isinstance(a, Td) and isinstance(b, Lin):
            if op == '*' and b.const() is not None:
                return Td(a.l.times(b.const()))
            if op == '/' and b.const():
                return Td(a.l.times(1 / b.const()))
        if isinstance(a, Lin) and isinstance(b, Td) and op == '*':
            if a.const() is not None:
                return Td(b.l.times(a.const()))
            if b.l.const() is not None:
                return Td(a.times(b.l.const()))
        if isinstance(a, Str) and isinstance(b, Str) and op == '+':
            return Str(a.c + b.c)
        if isinstance(a, Str) and op == '%' and a.known():
            args = b if isinstance(b, tuple) else (b,)
            out = ()
            pos = 0
            s = a.plain()
            args = list(args)
            for m in re.finditer(r'%(0?\d*)([sdi%])', s):
                out += tuple(s[pos:m.start()])
                pos = m.end()
                if m.group(2) == '%':
                    out += ('%',)
                    continue
                v = args.pop(0)
                v = self.format(v, m.group(1) + 'd') if m.group(1) else \
                    self.str(v)
                if not isinstance(v, Str):
                    return UNKNOWN
                out += v.c
            return Str(out + tuple(s[pos:]))
        return UNKNOWN

    def unop(self, op, a):
        if op == 'not':
            b = self.truth(a)
            return UNKNOWN if b is None else not b
        if op == '-':
            if isinstance(a, Lin):
                return a.times(-1)
            if isinstance(a, Td):
                return Td(a.l.times(-1))
        if op == '+':
            return a
        return UNKNOWN

    def order(self, a, b):
        """The possible signs of a - b as a set, or None."""
        if isinstance(a, Td) and isinstance(b, Td):
            a, b = a.l, b.l
        if isinstance(a, Lin) and isinstance(b, Lin):
            r = a.add(b, -1).bounds()
            if r is None:
                return None
            out = set()
            if r[0] < 0:
                out.add(-1)
            if r[1] > 0:
                out.add(1)
            if r[0] <= 0 <= r[1]:
                out.add(0)
            return out
        return None

    def compare(self, op, ta, tb):
        """True, False or None (unknown)."""
        a, b = self.ev(ta), self.ev(tb)
        if op in ('==', 'eq', 'is', '!=', 'ne', 'is not'):
            r = self.equal(a, b)
            return (None if r is None else
                    r if op in ('==', 'eq', 'is') else not r)
        if op in ('in', 'not in'):
            r = None
            if isinstance(a, Str) and isinstance(b, Str) and a.known():
                if not any(x.isdigit() for x in a.plain()) or b.known():
                    r = a.plain() in b.plain()
                    if any(isinstance(x, str) and x[0] == '\x00'
                           for x in b.c):
                        r = None
            elif isinstance(b, tuple):
                rs = [self.equal(a, x) for x in b]
                r = True if True in rs else None if None in rs else False
            return None if r is None else r == (op == 'in')
        s = self.order(a, b)
        if s is None:
            return None
        ok = {'<': {-1}, 'lt': {-1}, '<=': {-1, 0}, 'le': {-1, 0},
              '>': {1}, 'gt': {1}, '>=': {0, 1}, 'ge': {0, 1}}[op]
        if s <= ok:
            return True
        return False if not s & ok else None

    def equal(self, a, b):
        if a is UNKNOWN or b is UNKNOWN or isinstance(a, Error) or \
                isinstance(b, Error):
            return None
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Str) and isinstance(b, Str):
            if a == b:
                return True
            if len(a.c) != len(b.c) and not any(
                    isinstance(x, tuple) and x[2] == '?'
                    for x in a.c + b.c):
                return False
            if any(isinstance(x, str) and isinstance(y, str) and x != y or
                   isinstance(x, str) and isinstance(y, tuple) and
                   not x.isdigit() or isinstance(y, str) and
                   isinstance(x, tuple) and not y.isdigit()
                   for x, y in zip(a.c, b.c)):
                return False
            return None
        if isinstance(a, (Lin, Td)) and isinstance(b, (Lin, Td)):
            s = self.order(a, b)
            if s is None:
                return None
            return True if s == {0} else False if 0 not in s else None
        if isinstance(a, Tz) and isinstance(b, Tz):
            if a is b:
                return True
            if a.fixed is None or b.fixed is None:
                return False
            return None if a.fixed == b.fixed else False
        if type(a) is not type(b):
            return False
        return None

    # attributes and items

    def attr(self, o, name, t):
        if isinstance(o, Error):
            return o
        if isinstance(o, Dt):
            if name in o.f:
                return o.f[name]
            if name == 'tzinfo':
                return o.tz
            if name in ('fold',):
                return num(0)
            return Error('no attribute %s' % name)
        if isinstance(o, Td):
            c = o.l.const()
            b = o.l.bounds()
            if b is None:
                return UNKNOWN
            day = 0 if b[0] >= 0 and b[1] < 86400 else \
                -1 if b[1] < 0 and b[0] >= -86400 else None
            if day is None:
                return UNKNOWN
            if name == 'days':
                return num(day)
            if name == 'seconds':
                return o.l.add(num(-86400 * day))
            if name == 'microseconds':
                return num(0)
            return UNKNOWN
        return UNKNOWN

    def item(self, o, i):
        if isinstance(o, Error):
            return o
        if isinstance(o, Match):
            return self.group(o, i)
        if isinstance(i, Lin) and i.const() is not None:
            n = int(i.const())
            if isinstance(o, Str):
                try:
                    return Str((o.c[n],))
                except IndexError:
                    return Error('index %d of %r' % (n, o))
            if isinstance(o, tuple):
                try:
                    return o[n]
                except IndexError:
                    return Error('index %d of %d' % (n, len(o)))
        return UNKNOWN

    # calls

    def kw(self, layers):
        out = {}
        for l in layers:
            if l[0] != 'k' or l[1][0] != 'c':
                return None
            out[l[1][2]] = self.ev(l[2])
        return out

    def call(self, f, t):
        if any(a[0] == '*' for a in t[2]):
            return UNKNOWN
        a = self.evs(t[2])
        kw = self.kw(t[3])
        if kw is None:
            return UNKNOWN
        for x in a + list(kw.values()):
            if isinstance(x, Error):
                return x
        if f == 'builtins.getattr':
            if not isinstance(a[1], Str):
                return UNKNOWN
            r = self.attr(a[0], a[1].plain(), t)
            known = isinstance(a[0], (Dt, Td, Tz))
            if isinstance(a[0], Tz):
                r = Error('no attribute') if a[1].plain() not in (
                    'utcoffset', 'tzname', 'dst') else UNKNOWN
            if isinstance(r, Error) and known and len(a) > 2:
                return a[2]
            return r
        if f == 'builtins.hasattr' and isinstance(a[1], Str):
            if isinstance(a[0], Dt):
                return not isinstance(self.attr(a[0], a[1].plain(), t),
                                      Error)
            if isinstance(a[0], Tz):
                return a[1].plain() in ('utcoffset', 'tzname', 'dst')
            return UNKNOWN
        if f == 'builtins.int' and len(a) == 1:
            if isinstance(a[0], Lin):
                return trunc(a[0])
            if isinstance(a[0], Str):
                return number(a[0])
            return UNKNOWN
        if f in ('builtins.float', 'fractions.Fraction') and len(a) == 1:
            return a[0] if isinstance(a[0], Lin) else \
                number(a[0]) if isinstance(a[0], Str) else UNKNOWN
        if f == 'math.trunc' and isinstance(a[0], Lin):
            return trunc(a[0])
        if f == 'math.floor' and isinstance(a[0], Lin):
            r = floor(a[0])
            return other('floor', a[0]) if r is None else r
        if f in ('math.ceil', 'builtins.round') and isinstance(a[0], Lin):
            if a[0].integral():
                return a[0]
            return other(f, a[0], *[x for x in a[1:]])
        if f == 'builtins.abs':
            return self.abs(a[0])
        if f == 'builtins.bool':
            r = self.truth(a[0])
            return UNKNOWN if r is None else r
        if f == 'builtins.str':
            return self.str(a[0])
        if f == 'builtins.format':
            return self.format(a[0], a[1].plain() if len(a) > 1 else '')
        if f == 'builtins.len' and isinstance(a[0], (Str, tuple)):
            return num(len(a[0].c if isinstance(a[0], Str) else a[0]))
        if f == 'builtins.divmod':
            x = self.binop('//', a[0], a[1])
            y = self.binop('%', a[0], a[1])
            return (x, y)
        if f in ('builtins.tuple', 'builtins.list') and \
                isinstance(a[0], tuple):
            return a[0]
        if f == 'datetime.timedelta':
            names = ('days', 'seconds', 'microseconds', 'milliseconds',
                     'minutes', 'hours', 'weeks')
            unit = {'days': 86400, 'seconds': 1,
                    'microseconds': Fraction(1, 10 ** 6),
                    'milliseconds': Fraction(1, 1000), 'minutes': 60,
                    'hours': 3600, 'weeks': 7 * 86400}
            total = num(0)
            for n, v in list(zip(names, a)) + list(kw.items()):
                if not isinstance(v, Lin):
                    return UNKNOWN
                total = total.add(v.times(unit[n]))
            return Td(total)
        if f == 'datetime.timezone':
            o = a[0] if a else kw.get('offset')
            n = a[1] if len(a) > 1 else kw.get('name', UNKNOWN)
            return Tz(o.l, name=n) if isinstance(o, Td) else UNKNOWN
        if f in ('datetime.date', 'datetime.time', 'datetime.datetime'):
            kind = f[9:]
            names = {'date': DATE, 'time': TIME + ('tzinfo',),
                     'datetime': DATE + TIME + ('tzinfo',)}[kind]
            d = {n: num(0) for n in names if n in TIME}
            tz = None
            for n, v in list(zip(names, a)) + list(kw.items()):
                if n == 'tzinfo':
                    tz = v
                elif n in names:
                    d[n] = v
            if tz is UNKNOWN or UNKNOWN in d.values():
                return UNKNOWN
            return Dt(kind, d, tz)
        if f.startswith('datetime.') and f.count('.') == 2:
            return self.classmethod_(f.split('.')[1], f.split('.')[2], a, kw)
        if f in ('re.compile',) and isinstance(a[0], Str):
            return Re(a[0].plain())
        if f in ('re.search', 're.match', 're.fullmatch', 're.sub',
                 're.split'):
            return self.regex(Re(a[0].plain()), f[3:], a[1:])
        return UNKNOWN

    def abs(self, v):
        if isinstance(v, Td):
            r = self.abs(v.l)
            return Td(r) if isinstance(r, Lin) else r
        if isinstance(v, Lin):
            b = v.bounds()
            if b and b[0] >= 0:
                return v
            if b and b[1] <= 0:
                return v.times(-1)
            return other('abs', v)
        return UNKNOWN

    def classmethod_(self, cls, name, a, kw):
        if name == 'strptime' and cls == 'datetime':
            s = a[0]
            p = a[1] if len(a) > 1 else kw.get('format')
            if isinstance(s, Str) and isinstance(p, Str):
                return strptime(s, p)
            return UNKNOWN
        if name == 'fromisoformat' and isinstance(a[0], Str):
            return fromisoformat(cls, a[0])
        if name == 'combine':
            d = a[0] if a else kw.get('date')
            t = a[1] if len(a) > 1 else kw.get('time')
            tz = a[2] if len(a) > 2 else kw.get('tzinfo', t.tz if isinstance(
                t, Dt) else None)
            if not isinstance(d, Dt) or not isinstance(t, Dt) or \
                    tz is UNKNOWN:
                return UNKNOWN
            f = {k: d.f[k] for k in DATE}
            f.update({k: t.f[k] for k in TIME})
            return Dt('datetime', f, tz)
        if name in ('now', 'utcnow', 'today'):
            tz = a[0] if a else kw.get('tz')
            return Dt('datetime', {}, tz, local=True)
        return UNKNOWN

    def method(self, t):
        o = self.ev(t[1])
        name = t[2]
        if t[1][0] == 'ext' and t[1][1].startswith('datetime.') and \
                o is UNKNOWN:
            return self.call(t[1][1] + '.' + name,
                             ('call', t[1], t[3], t[4]))
        if t[1] == ('ext', 're'):
            return self.call('re.' + name, ('call', t[1], t[3], t[4]))
        if isinstance(o, Error):
            return o
        if any(x[0] == '*' for x in t[3]):
            return UNKNOWN
        a = self.evs(t[3])
        kw = self.kw(t[4])
        if kw is None:
            return UNKNOWN
        for x in a + list(kw.values()):
            if isinstance(x, Error):
                return x
        if isinstance(o, Str):
            return self.str_method(o, name, a, kw)
        if isinstance(o, Dt):
            return self.dt_method(o, name, a, kw)
        if isinstance(o, Td) and name == 'total_seconds':
            return o.l
        if isinstance(o, Tz):
            if name == 'utcoffset' and a:
                if a[0] is None:
                    return None if o.fixed is None else Td(o.fixed)
                if isinstance(a[0], Dt) and (o.fixed is not None or
                                             not a[0].local):
                    return Td(o.at)
                if isinstance(a[0], Dt):
                    return Error('the offset is that of another date')
            if name == 'tzname' and a:
                return o.name if a[0] is None or o.fixed is not None \
                    else UNKNOWN
            return UNKNOWN
        if isinstance(o, Re):
            return self.regex(o, name, a)
        if isinstance(o, Match):
            if name == 'group':
                if len(a) > 1:
                    return tuple(self.group(o, x) for x in a)
                return self.group(o, a[0] if a else num(0))
            if name == 'groups':
                return tuple(self.group(o, num(i + 1))
                             for i in range(len(o.m.groups())))
            if name in ('start', 'end') and not a:
                return num(getattr(o.m, name)())
            return UNKNOWN
        return UNKNOWN

    def dt_method(self, o, name, a, kw):
        if name == 'strftime' and isinstance(a[0] if a else
                                             kw.get('format'), Str):
            return strftime(o, a[0] if a else kw['format'])
        if name == '__format__' and isinstance(a[0], Str):
            return strftime(o, a[0])
        if name == 'isoformat':
            names = ('sep', 'timespec') if o.kind == 'datetime' else \
                ('timespec',)
            d = dict(zip(names, a))
            d.update(kw)
            if any(not isinstance(x, Str) for x in d.values()):
                return UNKNOWN
            return isoformat(o, d['sep'].plain() if 'sep' in d else 'T',
                             d['timespec'].plain() if 'timespec' in d
                             else 'auto')
        if name in ('date', 'time'):
            return part(o, name)
        if name == 'timetz':
            r = part(o, 'time')
            r.tz = o.tz
            return r
        if name == 'replace':
            f = dict(o.f)
            tz = o.tz
            names = DATE + TIME if o.kind == 'datetime' else \
                DATE if o.kind == 'date' else TIME
            for k, v in list(zip(names, a)) + list(kw.items()):
                if v is UNKNOWN:
                    return UNKNOWN
                if k == 'tzinfo':
                    tz = v
                else:
                    f[k] = v
            return Dt(o.kind, f, tz, o.local)
        if name == 'utcoffset':
            return Td(o.tz.at) if o.tz is not None else None
        if name == 'tzname':
            return o.tz.name if o.tz is not None else None
        if name == 'astimezone' and not a and not kw:
            if o.local or o.tz is None:
                return Dt('datetime', {} if o.local else o.f, self.local,
                          o.local)
        if name == 'astimezone' and isinstance(a[0] if a else None, Tz) and \
                not o.local:
            to = a[0]
            if o.tz is not None and o.tz.at == to.at:
                return Dt('datetime', o.f, to)
            return Dt('datetime', {k: other('moved', v) for k, v in
                                   o.f.items()}, to, o.local)
        return UNKNOWN

    def str_method(self, o, name, a, kw):
        if kw:
            if name in ('split', 'rsplit') and set(kw) <= {'maxsplit',
                                                           'sep'}:
                a = [kw.get('sep', a[0] if a else None)] + (
                    [kw['maxsplit']] if 'maxsplit' in kw else [])
            else:
                return UNKNOWN
        s = o.plain()
        xs = []
        for x in a:
            if isinstance(x, Str):
                if not x.known() or any(ch.isdigit() for ch in x.plain()):
                    if name == 'replace' and isinstance(a[0], Str):
                        break
                    return UNKNOWN
                xs.append(x.plain())
            elif isinstance(x, Lin) and x.const() is not None:
                xs.append(int(x.const()))
            elif isinstance(x, tuple) and name in ('startswith', 'endswith'):
                xs.append(tuple(y.plain() for y in x))
            elif isinstance(x, tuple) and name == 'join':
                out = ()
                for i, y in enumerate(x):
                    if not isinstance(y, Str):
                        return y if isinstance(y, Error) else UNKNOWN
                    out += (o.c if i else ()) + y.c
                return Str(out)
            else:
                return UNKNOWN
        if name in ('split', 'rsplit', 'partition', 'rpartition'):
            out = []
            at = 0
            parts = getattr(s, name)(*xs)
            for i, x in enumerate(parts):
                if name in ('split', 'rsplit'):
                    out.append(Str(o.c[at:at + len(x)]))
                    at += len(x) + len(xs[0])
                else:
                    out.append(Str(o.c[at:at + len(x)]))
                    at += len(x)
            return tuple(out)
        if name == 'replace':
            old, new = a[0], a[1]
            if len(old.c) == 0:
                return UNKNOWN
            n = int(a[2].const()) if len(a) > 2 else -1
            out = ()
            i = 0
            while i < len(o.c):
                if n and o.c[i:i + len(old.c)] == old.c:
                    out += new.c
                    i += len(old.c)
                    n -= 1
                else:
                    out += o.c[i:i + 1]
                    i += 1
            return Str(out)
        if name in ('strip', 'rstrip', 'lstrip', 'removesuffix',
                    'removeprefix'):
            r = getattr(s, name)(*xs)
            i = 0
            if name in ('lstrip', 'removeprefix'):
                i = len(s) - len(r)
            elif name == 'strip':
                i = len(s) - len(s.lstrip(*xs))
            return Str(o.c[i:i + len(r)])
        if name in ('startswith', 'endswith', 'isdigit'):
            return getattr(s, name)(*xs)
        if name in ('find', 'rfind', 'count', 'index', 'rindex'):
            try:
                return num(getattr(s, name)(*xs))
            except ValueError:
                return Error('%r not in %r' % (xs[0], o))
        if name in ('upper', 'lower'):
            return Str(getattr(x, name)() if isinstance(x, str) else x
                       for x in o.c)
        if name == 'zfill':
            if len(o.c) == 1 and isinstance(o.c[0], tuple) and \
                    o.c[0][2] == '?':
                return digits(Lin(dict(o.c[0][0])), xs[0])
            return Str(('0',) * (xs[0] - len(o.c)) + o.c)
        if name == '__str__':
            return o
        if name == 'format' and o.known():
            import string
            out = ()
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(s):
                out += tuple(lit)
                if field is None:
                    continue
                v = a[auto if field == '' else int(field)]
                auto += 1
                v = self.format(v, spec or '')
                if not isinstance(v, Str):
                    return UNKNOWN
                out += v.c
            return Str(out)
        return UNKNOWN

    def regex(self, r, name, a):
        bare = re.sub(r'\[0-9\]|\{[\d,]*\}|\\d', '', r.p)
        if any(ch.isdigit() for ch in bare):
            return UNKNOWN
        if name in ('search', 'match', 'fullmatch') and \
                isinstance(a[0], Str):
            m = getattr(re.compile(r.p), name)(a[0].plain())
            return Match(m, a[0]) if m else None
        if name == 'sub' and isinstance(a[0], Str) and \
                isinstance(a[1], Str) and a[0].known():
            o = a[1]
            out = ()
            at = 0
            for m in re.finditer(r.p, o.plain()):
                out += o.c[at:m.start()]
                rep = a[0].plain()
                i = 0
                while i < len(rep):
                    g = re.match(r'\\(\d)|\\g<(\w+)>', rep[i:])
                    if g:
                        k = g.group(1) or g.group(2)
                        k = int(k) if k.isdigit() else k
                        out += o.c[m.start(k):m.end(k)]
                        i += g.end()
                    else:
                        out += (rep[i],)
                        i += 1
                at = m.end()
            return Str(out + o.c[at:])
        if name == 'split' and isinstance(a[0], Str):
            out = []
            at = 0
            for m in re.finditer(r.p, a[0].plain()):
                out.append(Str(a[0].c[at:m.start()]))
                for i in range(len(m.groups())):
                    out.append(Str(a[0].c[m.start(i + 1):m.end(i + 1)]))
                at = m.end()
            return tuple(out + [Str(a[0].c[at:])])
        return UNKNOWN

    def group(self, m, i):
        k = int(i.const()) if isinstance(i, Lin) else i.plain()
        if m.m.start(k) < 0:
            return None
        return Str(m.s.c[m.m.start(k):m.m.end(k)])

    # facts

    def holds(self, c, v):
        """False if the fact cannot hold, True if it does, else None."""
        r = None
        k = c[0]
        if k == 'truth':
            r = self.truth(self.ev(c[1]))
        elif k in ('eq', 'is', 'lt', 'gt', 'le', 'ge', 'in'):
            r = self.compare(k, c[1], c[2])
        elif k == 'isnone':
            x = self.ev(c[1])
            if x is not UNKNOWN and not isinstance(x, Error):
                r = x is None
        elif k == 'isinst':
            r = self.isinst(self.ev(c[1]), c[2])
        return None if r is None else r == v

    def isinst(self, x, cls):
        names = [cls] if cls[0] != 'tup' else list(cls[1])
        if isinstance(x, Dt):
            mine = {'datetime': {'datetime.datetime', 'datetime.date'},
                    'date': {'datetime.date'},
                    'time': {'datetime.time'}}[x.kind]
        elif isinstance(x, Td):
            mine = {'datetime.timedelta'}
        elif isinstance(x, Str):
            mine = {'builtins.str'}
        elif isinstance(x, Tz):
            mine = {'datetime.tzinfo'}
        else:
            return None
        if any(n[0] != 'ext' for n in names):
            return None
        if isinstance(x, Tz) and any(n[1] == 'datetime.timezone'
                                     for n in names):
            return None
        return any(n[1] in mine | {'builtins.object'} for n in names)

    def feasible(self, facts):
        return all(self.holds(c, v) is not False for c, v in facts.items())
