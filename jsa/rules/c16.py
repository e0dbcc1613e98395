"""Key transformers over the alphabet. Every transformer is executed
abstractly for an unknown string; the string it returns is described by the
kinds of characters it may contain (capitals, other letters, digits, hyphen,
underscore, others), the kinds it may start with and whether it may be empty.
Every string operation has a transfer function on these descriptions; where it
is not exact the result is left undecided."""
from ..objects import *
import re._parser as sre

KINDS = 'ULD_-O'
NAMES = {'U': 'a capital', 'L': 'a lower-case letter', '_': 'an underscore',
         '-': 'a hyphen'}
TRANSFORMERS = {
    'KEY_TRANSFORMER_SNAKECASE': ('U-', '', 'snakecase'),
    'KEY_TRANSFORMER_LISPCASE': ('U_', '', 'lispcase'),
    'KEY_TRANSFORMER_CAMELCASE': ('-_', 'U', 'camelcase'),
    'KEY_TRANSFORMER_PASCALCASE': ('-_', 'L', 'pascalcase')}


def check(ctx):
    ctx.rule('the transformers return a string for every string')
    ctx.rule('the result has no character that its case excludes and does '
             'not start with one')
    for name, (never, first, case) in sorted(TRANSFORMERS.items()):
        q = transformer(ctx, name)
        if q is not None:
            one(ctx, q, case, never, first)


def transformer(ctx, name):
    """The function that a constant of the package stands for."""
    r = ctx.prog.resolve_name(ctx.prog.root if hasattr(
        ctx.prog, 'root') else 'jsons', name)
    for _ in range(4):
        if r and r[0] == 'func':
            return r[1].qual
        if r and r[0] == 'value' and isinstance(r[-1], ast.Name):
            r = ctx.prog.resolve_name('jsons', r[-1].id)
            continue
        break
    it = Interp(ctx.prog, Policy())
    v = it.module_value('jsons', name) if hasattr(it, 'module_value') \
        else None
    if v and v[0] == 'func':
        return v[1]
    low = TRANSFORMERS[name][2]
    for q in ctx.prog.functions:
        if q.endswith('.' + low):
            return q
    ctx.undecide('%s was not found' % name)
    return None


def one(ctx, q, case, never, first):
    r = ctx.analyse(q, 1, (), iters=2, fallback=False, dedup=400,
                    ext_raise=False, raise_ops=False, inline_all=True)
    if r is None:
        return
    s = ('sym', first_params(ctx, q, 1)[0])
    for p in r[1]:
        ev = Chars(p.facts)
        ev.define(s, Text(KINDS, KINDS, 0, s=s))
        if not ev.feasible:
            continue
        ctx.count('obligations')
        at = place(ctx, q)
        if p.ctl != 'N':
            ctx.report('error', short(q), '%s raises an error for some '
                       'string' % case, ev=at)
            continue
        v = ev.ev(p.val)
        if isinstance(v, Bad):
            ctx.report('error', short(q), '%s raises an error for some '
                       'string: %s' % (case, v.why), ev=at)
            continue
        if v is None or v is NOTEXT or not isinstance(v, Text):
            if v is NOTEXT:
                ctx.report('type', short(q), '%s returns %s and no string'
                           % (case, short_show(p.val)), ev=at)
            else:
                ctx.undecide('%s returns %s' % (case, short_show(p.val)))
            continue
        bad = [k for k in never if k in v.any]
        start = [k for k in first if k in v.first and v.max]
        if not bad and not start:
            continue
        if not v.exact:
            ctx.undecide('%s returns %s' % (case, short_show(p.val)))
            continue
        ctx.report('case', short(q), 'what %s returns may %s: %s' % (
            case, 'contain ' + NAMES[bad[0]] if bad else
            'start with ' + NAMES[start[0]], short_show(p.val)), ev=at)


# -- the domain ---------------------------------------------------------------------

class Bad:
    def __init__(self, why):
        self.why = why


NOTEXT = object()


class Text:
    """Kinds of characters anywhere, at the start, minimal length, whether it
    has at most one character; `head` is the term whose first character this
    is made of, `tail` the term whose remaining characters this is."""
    def __init__(self, any_, first, min_, max_=2, exact=True, s=None,
                 head=None, tail=None):
        self.any = frozenset(any_)
        self.first = frozenset(first) & self.any
        self.min, self.max, self.exact = min_, max_, exact
        self.head, self.tail = head, tail

    def but(self, **kw):
        d = dict(any_=self.any, first=self.first, min_=self.min,
                 max_=self.max, exact=self.exact, head=self.head,
                 tail=self.tail)
        d.update(kw)
        return Text(**d)


class Many:
    """A list of texts; each of them is like `each`."""
    def __init__(self, each, min_=0, known=None):
        self.each, self.min, self.known = each, min_, known


def kind(ch):
    return ch if ch in '_-' else 'D' if ch.isdigit() else \
        'U' if ch != ch.lower() else 'L' if ch != ch.upper() else 'O'


def literal(s):
    return Text([kind(c) for c in s], [kind(s[0])] if s else [], len(s),
                min(len(s), 2))


def join2(a, b):
    """Either of two texts."""
    return Text(a.any | b.any, a.first | b.first, min(a.min, b.min),
                max(a.max, b.max), a.exact and b.exact)


def concat(a, b):
    if not a.max or not b.max:
        return b if not a.max else a
    if a.head is not None and a.head == b.tail:
        first = a.first             # nothing remains without a start
        m = a.min + b.min
        return Text(a.any | b.any, first, m, 2 if b.max else a.max,
                    a.exact and b.exact)
    first = a.first if a.min else a.first | b.first
    return Text(a.any | b.any, first, a.min + b.min,
                min(2, a.max + b.max), a.exact and b.exact,
                head=None)


def lower(k):
    return {'L' if x == 'U' else x for x in k}


def upper(k):
    return {'U' if x == 'L' else x for x in k}


class Chars:
    def __init__(self, facts):
        self.env = {}
        self.memo = {}
        self.facts = facts
        self.feasible = True

    def define(self, t, v):
        self.env[t] = self.refine(t, v)

    def refine(self, t, v):
        """What the facts say about the text t."""
        if not isinstance(v, Text):
            return v
        for c, b in self.facts.items():
            k = c[0]
            if k == 'truth' and c[1] == t:
                v = v.but(min_=max(v.min, 1)) if b else \
                    v.but(any_='', max_=0)
            elif k in ('eq', 'is') and t in c[1:]:
                o = c[2] if c[1] == t else c[1]
                if o[0] == 'c' and o[1] == 'str':
                    if b:
                        if v.min > len(o[2]) or set(
                                kind(x) for x in o[2]) - v.any:
                            self.feasible = False
                        v = literal(o[2]).but(exact=v.exact)
                    elif o[2] == '':
                        v = v.but(min_=max(v.min, 1))
                    elif o[2] in ('_', '-') and v.max == 1:
                        v = v.but(any_=v.any - {o[2]})
            elif k == 'in' and c[2] == t and c[1][0] == 'c' and \
                    c[1][2] in ('_', '-'):
                v = v.but(min_=max(v.min, 1)) if b else \
                    v.but(any_=v.any - {c[1][2]})
            elif k == 'in' and c[1] == t and v.max == 1 and \
                    c[2][0] == 'c' and isinstance(c[2][2], str):
                ks = {x for x in c[2][2] if x in '_-'}
                if b and ks == set(c[2][2]):
                    v = v.but(any_=v.any & ks)
                elif not b:
                    v = v.but(any_=v.any - ks)
            elif k in ('lt', 'eq') and any(
                    x[0] == 'call' and x[1] == ('ext', 'builtins.len') and
                    x[2][0] == t for x in c[1:]):
                n, known = self.length(c, b, t)
                if n is not None:
                    v = v.but(min_=max(v.min, n))
                if known == 0:
                    v = v.but(any_='', max_=0)
                elif known == 1:
                    v = v.but(max_=min(v.max, 1))
            elif k in ('lt', 'eq') and self.parts_of(c, t):
                n, known = self.length(c, b, None)
                if known == 1:
                    v = v.but(any_=v.any - set(self.parts_of(c, t)))
            elif k == 'truth' and c[1][0] == 'mcall' and c[1][1] == t and \
                    not c[1][3]:
                m = c[1][2]
                ks = {'isupper': 'U', 'islower': 'L', 'isdigit': 'D'}.get(m)
                if m in ('isalpha', 'isalnum') and v.max == 1 and b:
                    v = v.but(any_=v.any - set('_-'))
                if ks and v.max == 1:
                    v = v.but(any_=v.any & set(ks) if b else
                              v.any - set(ks))
                elif m == 'islower' and b:
                    v = v.but(any_=v.any - {'U'})
                elif m == 'isupper' and b:
                    v = v.but(any_=v.any - {'L'})
            elif k == 'truth' and c[1][0] == 'mcall' and c[1][1] == t and \
                    c[1][2] == 'startswith' and c[1][3] and \
                    c[1][3][0][0] == 'c' and isinstance(c[1][3][0][2], str):
                x = c[1][3][0][2]
                if b and x:
                    v = v.but(min_=max(v.min, len(x)), first={kind(x[0])})
                elif x in ('_', '-'):
                    v = v.but(first=v.first - {x})
        if v.min and not v.any:
            self.feasible = False
        return v

    def length(self, c, b, t):
        """(lower bound, exact or upper bound 0/1) of the len in a fact."""
        a, o = c[1], c[2]
        if c[0] == 'eq':
            n = o[2] if o[0] == 'c' else a[2] if a[0] == 'c' else None
            if not isinstance(n, int):
                return None, None
            return (n, n) if b else (1 if n == 0 else None, None)
        if a[0] == 'c' and isinstance(a[2], int):       # n < len
            return (a[2] + 1, None) if b else (None, a[2])
        if o[0] == 'c' and isinstance(o[2], int):       # len < n
            return (None, o[2] - 1) if b else (o[2], None)
        return None, None

    def parts_of(self, c, t):
        for x in c[1:]:
            if x[0] == 'call' and x[1] == ('ext', 'builtins.len') and \
                    x[2][0][0] == 'mcall' and x[2][0][1] == t and \
                    x[2][0][2] in ('split', 'rsplit') and \
                    len(x[2][0][3]) == 1 and x[2][0][3][0][0] == 'c':
                sep = x[2][0][3][0][2]
                return sep if sep in ('_', '-') else None
            if x[0] == 'call' and x[1] == ('ext', 'builtins.len') and \
                    x[2][0][0] in ('call', 'mcall'):
                y = x[2][0]
                args = y[2] if y[0] == 'call' else y[3]
                if y[0] == 'call' and y[1] == ('ext', 're.split') and \
                        len(args) == 2 and args[1] == t and \
                        args[0][0] == 'c':
                    return removed(args[0][2])
        return None

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        v = self.ev_(t)
        v = self.refine(t, v)
        self.memo[t] = v
        return v

    def ev_(self, t):
        k = t[0]
        if k == 'c':
            return literal(t[2]) if t[1] == 'str' else NOTEXT
        if k == 'copy':
            return self.ev(t[1])
        if k in ('D', 'O', 'func', 'cls'):
            return NOTEXT
        if k in ('L', 'tup'):
            return self.listed(t)
        if k == 'fmt':
            r = literal('')
            for p in t[1]:
                v = self.ev(p)
                if not isinstance(v, Text):
                    return v if isinstance(v, Bad) else None
                r = concat(r, v)
            return r
        if k == 'bin' and t[1] in ('or', 'and'):
            a, b = self.ev(t[2]), self.ev(t[3])
            if isinstance(a, Text) and isinstance(b, Text):
                if a.min:
                    return a if t[1] == 'or' else b
                return join2(a, b)
            return None
        if k == 'bin' and t[1] == '+':
            a, b = self.ev(t[2]), self.ev(t[3])
            for x in (a, b):
                if isinstance(x, Bad):
                    return x
            if isinstance(a, Text) and isinstance(b, Text):
                return concat(a, b)
            return None
        if k == 'slice':
            return self.slice(t)
        if k == 'item':
            o = self.ev(t[1])
            if isinstance(o, Bad):
                return o
            i = t[2]
            n = i[2] if i[0] == 'c' and isinstance(i[2], int) else None
            if isinstance(o, Text) and n is not None:
                need = n + 1 if n >= 0 else -n
                if o.min < need:
                    return Bad('character %d of a text that may be shorter'
                               % n)
                return Text(o.first if n == 0 else o.any, o.first if n == 0
                            else o.any, 1, 1, o.exact,
                            head=t[1] if n == 0 else None)
            if isinstance(o, Many) and n is not None:
                if o.known is not None and -len(o.known) <= n < \
                        len(o.known):
                    return o.known[n]
                need = n + 1 if n >= 0 else -n
                if o.min < need:
                    return Bad('part %d of a list that may be shorter' % n)
                return o.each
            return None
        if k == 'elem':
            o = self.ev(t[1])
            if isinstance(o, Text):
                return Text(o.any, o.any, 1, 1, o.exact)
            if isinstance(o, Many):
                return o.each
            return o if isinstance(o, Bad) else None
        if k == 'call' and t[1][0] == 'ext':
            return self.call(t)
        if k == 'mcall':
            return self.method(t)
        return None

    def listed(self, t):
        items = t[3] if k_is(t, 'L') else t[1]
        vals = []
        loop = False
        for x in items:
            if x[0] == '*':
                v = self.ev(x[1])
                if isinstance(v, Bad):
                    return v
                if not isinstance(v, Many):
                    return None
                loop = True
                vals.append(v.each)
                continue
            v = self.ev(x)
            if isinstance(v, Bad):
                return v
            if not isinstance(v, Text):
                return None
            loop = loop or any(s[0] == 'elem' for s in subterms(x))
            vals.append(v)
        if not vals:
            return Many(literal(''), 0, [])
        each = vals[0]
        for v in vals[1:]:
            each = join2(each, v)
        return Many(each, len(vals), None if loop else vals)

    def slice(self, t):
        o = self.ev(t[1])
        if isinstance(o, Bad):
            return o
        a, b, d = (x[2] if x[0] == 'c' else '?' for x in t[2:5])
        for x in t[2:5]:
            if x[0] != 'c' and isinstance(self.ev(x), Bad):
                return self.ev(x)
        if isinstance(o, Text):
            if d not in (None, 1):
                return o.but(exact=False, min_=0, first=o.any, head=None,
                             tail=None)
            if a in (None, 0) and b == 1:
                return Text(o.first, o.first, min(o.min, 1), 1, o.exact,
                            head=t[1])
            if a in (None, 0) and isinstance(b, int) and b > 0:
                return Text(o.any, o.first, min(o.min, b), 2, o.exact)
            if a == 1 and b is None:
                return Text(o.any, o.any, max(0, o.min - 1), o.max,
                            o.exact, tail=t[1])
            return Text(o.any, o.any, 0, o.max, o.exact)
        if isinstance(o, Many):
            return Many(o.each, 0, o.known[slice(a, b, d)]
                        if o.known is not None and '?' not in (a, b, d)
                        else None)
        return None

    def call(self, t):
        f = t[1][1]
        if f.startswith('re.'):
            return self.regex(f[3:], t[2], None)
        if f == 'builtins.str' and t[2]:
            return self.ev(t[2][0])
        if f in ('builtins.list', 'builtins.tuple', 'builtins.iter',
                 'builtins.reversed', 'builtins.sorted') and t[2]:
            o = self.ev(t[2][0])
            if isinstance(o, Text):
                return Many(Text(o.any, o.any, 1, 1, o.exact), o.min)
            return o
        if f in ('builtins.len', 'builtins.bool', 'builtins.int'):
            return NOTEXT
        if f == 'builtins.filter' and len(t[2]) == 2 and t[2][0] in (
                NONE, ('ext', 'builtins.len'), ('ext', 'builtins.str')):
            o = self.ev(t[2][1])
            if isinstance(o, Many):
                return Many(o.each.but(min_=1), 0)
            return o
        if f == 'builtins.map' and len(t[2]) == 2 and \
                t[2][0][0] == 'ext' and t[2][0][1].startswith(
                    'builtins.str.'):
            o = self.ev(t[2][1])
            if isinstance(o, Many):
                r = self.apply(o.each, t[2][0][1][13:], (), None)
                return Many(r, o.min) if isinstance(r, Text) else r
            return o if isinstance(o, Bad) else None
        if f == 'string.capwords':
            return None
        return None

    def method(self, t):
        if t[1] == ('ext', 're'):
            return self.regex(t[2], t[3], None)
        if t[1][0] == 'call' and t[1][1] == ('ext', 're.compile'):
            return self.regex(t[2], t[1][2][:1] + t[3], None)
        if t[1] == ('ext', 'builtins.str') and t[3]:
            o = self.ev(t[3][0])
            return self.apply(o, t[2], t[3][1:], t) \
                if isinstance(o, Text) else o
        o = self.ev(t[1])
        if isinstance(o, Bad):
            return o
        if isinstance(o, Text):
            return self.apply(o, t[2], t[3], t)
        return None

    def apply(self, o, m, args, t):
        a = [self.ev(x) for x in args]
        for x in a:
            if isinstance(x, Bad):
                return x
        lit = [x[2] if x[0] == 'c' else None for x in args]
        if m in ('lower', 'casefold'):
            return o.but(any_=lower(o.any), first=lower(o.first))
        if m == 'upper':
            return o.but(any_=upper(o.any), first=upper(o.first))
        if m == 'swapcase':
            sw = {'U': 'L', 'L': 'U'}
            return o.but(any_={sw.get(x, x) for x in o.any},
                         first={sw.get(x, x) for x in o.first})
        if m == 'capitalize':
            if o.max == 1:
                return o.but(any_=upper(o.any), first=upper(o.first))
            return o.but(any_=lower(o.any) | upper(o.first),
                         first=upper(o.first))
        if m == 'title':
            if o.max == 1:
                return o.but(any_=upper(o.any), first=upper(o.first))
            more = {'U'} if o.any & {'U', 'L'} else set()
            return o.but(any_=lower(o.any) | more, first=upper(o.first))
        if m == 'replace' and len(a) >= 2 and isinstance(a[1], Text) and \
                isinstance(lit[0], str):
            x = lit[0]
            new = a[1]
            if len(args) > 2:
                return o.but(any_=o.any | new.any, first=o.first |
                             new.first | o.any, min_=0, head=None,
                             tail=None)
            if x in ('_', '-'):
                if x not in o.any:
                    return o
                any_ = o.any - {x} | new.any
                first = o.first - {x} | (
                    (new.first if new.min else new.first | (o.any - {x}))
                    if x in o.first else frozenset())
                return o.but(any_=any_, first=first,
                             min_=o.min if new.min else 0,
                             head=o.head if new.min else None,
                             tail=o.tail if new.min else None)
            if not x or set(kind(c) for c in x) - o.any:
                return o if x else o.but(exact=False)
            return o.but(any_=o.any | new.any, first=o.first | new.first |
                         (frozenset() if new.min else o.any),
                         min_=o.min if new.min else 0, head=None, tail=None)
        if m in ('split', 'rsplit'):
            if not args or lit[0] is None:
                return Many(Text(o.any, o.any, 1, 2, o.exact), 0)
            drop = {lit[0]} if lit[0] in ('_', '-') and len(args) == 1 \
                else set()
            rest = o.any - drop
            n = 1
            for c, b in self.facts.items():
                if t is not None and c[0] in ('lt', 'eq') and any(
                        x[0] == 'call' and x[1] == (
                            'ext', 'builtins.len') and x[2][0] == t
                        for x in c[1:]):
                    k, _ = self.length(c, b, t)
                    n = max(n, k or 1)
            return Many(Text(rest, rest, 0, 2, o.exact), n)
        if m in ('partition', 'rpartition'):
            side = o.any - ({lit[0]} if lit[0] in ('_', '-') and m ==
                            'partition' else set())
            whole = Text(o.any, o.any, 0, 2, o.exact)
            mid = literal(lit[0]).but(min_=0) if isinstance(
                lit[0], str) else whole
            h = Text(side, o.first & side, 0, 2, o.exact)
            return Many(whole, 3, [h, mid, whole] if m == 'partition' else
                        [whole, mid, Text(o.any - {lit[0]}, o.any, 0, 2,
                                          o.exact)])
        if m == 'join' and len(a) == 1:
            l = a[0]
            if isinstance(l, Text):
                l = Many(Text(l.any, l.any, 1, 1, l.exact), l.min)
            if not isinstance(l, Many):
                return None
            if l.known is not None:
                r = literal('')
                for i, v in enumerate(l.known):
                    r = concat(concat(r, o), v) if i else v
                return r
            any_ = l.each.any | o.any
            first = l.each.first | (o.first if not l.each.min else
                                    frozenset())
            return Text(any_, first, l.each.min if l.min else 0, 2,
                        l.each.exact and o.exact)
        if m in ('strip', 'lstrip', 'rstrip'):
            if args and isinstance(lit[0], str):
                gone = set(lit[0]) & set('_-')
                first = o.any - gone if m != 'rstrip' else o.first
                return o.but(first=first, min_=0, head=None, tail=None)
            return o.but(first=o.any, min_=0, head=None, tail=None)
        if m in ('removeprefix', 'removesuffix'):
            return o.but(first=o.any if m == 'removeprefix' else o.first,
                         min_=0, head=None, tail=None)
        if m == '__str__':
            return o
        if m in ('index', 'rindex'):
            if t is not None and any(c[0] == 'in' and b and c[2] == t[1] and args and
                   c[1] == args[0] for c, b in self.facts.items()):
                return NOTEXT
            return Bad('%s of a character that may be absent' % m)
        if m in ('encode', 'find', 'count', 'isupper', 'islower',
                 'startswith', 'endswith'):
            return NOTEXT
        return None

    # regular expressions

    def regex(self, name, args, t):
        if name == 'split' and len(args) == 2 and args[0][0] == 'c':
            o = self.ev(args[1])
            ks = removed(args[0][2])
            if isinstance(o, Text):
                rest = o.any - (ks or set())
                if capturing(args[0][2]):
                    rest = o.any
                return Many(Text(rest, rest, 0, 2, o.exact and
                                 ks is not None), 1)
            return o if isinstance(o, Bad) else None
        if name == 'findall' and len(args) == 2 and args[0][0] == 'c':
            o = self.ev(args[1])
            if isinstance(o, Text):
                return Many(Text(o.any, o.any, 0, 2, False), 0)
            return None
        if name != 'sub' or len(args) != 3 or args[0][0] != 'c':
            return None
        o = self.ev(args[2])
        if not isinstance(o, Text):
            return o if isinstance(o, Bad) else None
        if args[1][0] != 'c':
            return Text(KINDS, KINDS, 0, 2, False)
        try:
            parts, kept = template(args[0][2], args[1][2])
        except (re_error, KeyError, ValueError):
            return None
        new = set(kind(c) for c in parts if isinstance(c, str))
        ks = removed(args[0][2])
        if ks is not None and not any(isinstance(c, int) for c in parts):
            # every character of these kinds is replaced
            rest = o.any - ks
            lit = literal(''.join(parts))
            if not ks & o.any:
                return o
            return Text(rest | lit.any, (o.first - ks) | (
                (lit.first if parts else rest) if o.first & ks else
                frozenset()), o.min if parts else 0, 2, o.exact,
                head=o.head if parts and o.max == 1 else None)
        first = set(o.first)
        if not parts or isinstance(parts[0], str):
            first |= {kind(parts[0])} if parts else o.any
        return Text(o.any | new, first, o.min if kept else 0, 2,
                    o.exact and kept)


def k_is(t, k):
    return t[0] == k


re_error = re_err = __import__('re').error


def capturing(pattern):
    return sre.parse(pattern).state.groups > 1


def removed(pattern):
    """Kinds of characters all of which a pattern matches wherever they are:
    it is one character class, perhaps repeated. None for other patterns."""
    try:
        p = list(sre.parse(pattern))
    except re_error:
        return None
    if len(p) != 1:
        return None
    op, av = p[0]
    if str(op) in ('MAX_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub = av
        if lo > 1 or lo == 0:
            return None
        sub = list(sub)
        if len(sub) != 1:
            return None
        op, av = sub[0]
    if str(op) == 'SUBPATTERN':
        sub = list(av[3])
        if len(sub) != 1:
            return None
        op, av = sub[0]
    chars = set()
    if str(op) == 'LITERAL':
        chars.add(chr(av))
    elif str(op) == 'IN':
        for o, v in av:
            if str(o) == 'LITERAL':
                chars.add(chr(v))
            elif str(o) == 'RANGE':
                continue            # ASCII letters only: not all of a kind
            elif str(o) == 'CATEGORY':
                if str(v) in ('CATEGORY_NOT_WORD',):
                    chars.add('-')
                elif str(v) == 'CATEGORY_NOT_DIGIT':
                    chars |= set('-_')
                elif str(v) == 'CATEGORY_WORD':
                    chars.add('_')
            elif str(o) == 'NEGATE':
                return None
    else:
        return None
    return chars & set('_-')


def template(pattern, repl):
    """(characters and group numbers of the replacement, every character that
    is matched is kept by it)"""
    tree = sre.parse(pattern)
    t = sre.parse_template(repl, __import__('re').compile(pattern))
    parts = []
    for x in t:
        if isinstance(x, str):
            parts += list(x)
        else:
            parts.append(x)
    groups = [x for x in parts if isinstance(x, int)]
    top = []
    for op, av in tree:
        if str(op) == 'SUBPATTERN':
            top.append(av[0])
        elif str(op) in ('AT', 'ASSERT', 'ASSERT_NOT'):
            continue
        else:
            top.append(None)
    kept = None not in top and groups == top or groups == [0]
    return parts, kept
