"""A load gives an instance of the type that it was asked for. Every default
deserializer is executed abstractly for an unknown value and an unknown type.
On each path that returns, the type of the returned term is derived: what is
made by calling the asked class (or what it is without its generics), by
calling the class the deserializer was registered for, by methods of known
result, or what the conditions of the path say to be an instance. It must be
the asked class, or the one supported type the deserializer is registered for.
A string type that is asked for explicitly must give text on every path that
is possible for such a type. load itself may only return the result of the
deserializer or a value that is of the asked type already."""
from ..objects import *
from ..interp import Interp, Policy, Budget

PLAIN = {'typing.List': 'builtins.list', 'typing.Tuple': 'builtins.tuple',
         'typing.Dict': 'builtins.dict', 'typing.Set': 'builtins.set',
         'typing.DefaultDict': 'collections.defaultdict',
         'typing.FrozenSet': 'builtins.frozenset',
         'collections.abc.Mapping': 'typing.Mapping',
         'collections.abc.Iterable': 'typing.Iterable'}
# Types that have no instances of their own, or whose subclasses users write.
OPEN = {'typing.Iterable', 'typing.Mapping', 'enum.Enum', 'enum.IntEnum',
        'pathlib.PurePath', 'builtins.object', 'builtins.str',
        'builtins.dict'}
STRIP = {'get_naked_class', 'get_origin', 'get_type', 'get_orig_class',
         'naked_class', '_get_naked_class'}
STRIP_ATTR = {'__origin__', '__extra__', '__supertype__'}
SAME = {'replace', 'astimezone', '__add__', '__sub__', 'normalize', 'strip',
        'copy', 'lower', 'upper', 'resolve', 'absolute', 'union'}
MAKERS = {'strptime', 'fromisoformat', 'fromtimestamp', 'combine', 'now',
          'utcnow', 'utcfromtimestamp', 'today', 'fromordinal', 'fromkeys',
          'from_float', 'fromhex', 'fromisocalendar'}
TEXTS = {'str', 'fmt'}
KNOWN = {'builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool',
         'builtins.list', 'builtins.dict', 'builtins.set', 'builtins.tuple',
         'builtins.frozenset', 'builtins.bytes', 'builtins.complex',
         'collections.defaultdict', 'collections.OrderedDict',
         'collections.deque', 'datetime.datetime', 'datetime.date',
         'datetime.time', 'datetime.timezone', 'datetime.timedelta',
         'decimal.Decimal', 'fractions.Fraction', 'uuid.UUID',
         'zoneinfo.ZoneInfo', 'pathlib.PurePath', 'pathlib.Path'}
RESULT = {'builtins.sorted': 'builtins.list', 'builtins.repr': 'builtins.str',
          'builtins.format': 'builtins.str', 'builtins.len': 'builtins.int',
          'builtins.abs': None, 'builtins.round': None}
ASKED = 'ASKED'


def check(ctx):
    ctx.rule('every value that a default deserializer returns is an instance '
             'of the asked type or of the supported type it derives from')
    ctx.rule('an explicitly asked string type never gives anything but text')
    ctx.rule('load returns the result of the deserializer, or a value that '
             'is of the asked type')
    groups = {}
    for k, fn, classes, prio, e in ctx.registry():
        if k == 'deserializer' and fn and fn[0] == 'func':
            g = groups.setdefault(fn[1], set())
            for c in classes:
                g.add(PLAIN.get(c[1], c[1]) if c and c[0] == 'ext'
                      else None)
    n = 0
    for q, g in sorted(groups.items()):
        n += lizer(ctx, q, g) or 0
    ctx.require(n, 'no default deserializer is understood')
    of_load(ctx)


def lizer(ctx, q, g):
    if 'builtins.object' in g:
        r = object_run(ctx, more={'RAISE'})
        r = r and r[3:]
    else:
        B = load_boundary(ctx)
        r = ctx.analyse(q, 2, B, B | {'UCALL', 'RAISE'}, iters=1,
                        fallback=False, quiet=True, dedup=400,
                        max_states=60000)
        if r is None:
            r = ctx.analyse(q, 2, B | task_helpers(ctx),
                            B | {'UCALL', 'RAISE'}, iters=1, fallback=False,
                            dedup=400, ext_raise=False, max_states=60000)
    if r is None:
        return 0
    it, ps = r
    names = first_params(ctx, q, 2)
    if not names:
        ctx.undecide('%s has no parameter for the value' % short(q))
        return 0
    obj, cls = (('sym', n) for n in (names + ['-no type'])[:2])
    seen = set()
    for p in ps:
        if p.ctl != 'N':
            continue
        ctx.count('obligations')
        t = Typing(ctx, it, p, obj, cls)
        key = (p.val, tuple(sorted(map(repr, p.facts.items()))))
        if key in seen:
            continue
        seen.add(key)
        if 'typing.Union' in g or 'typing.Optional' in g:
            union(ctx, q, p, t)
        elif 'builtins.str' in g:
            string(ctx, q, p, t)
        else:
            plain(ctx, q, p, t, g)
    return 1


def at(ctx, q, p):
    for e in p.events:
        if e.res == p.val and e.func in ctx.prog.functions:
            return e
    return place(ctx, q)


def plain(ctx, q, p, t, g):
    got = t.of(p.val)
    if got is None:
        ctx.undecide('%s returns %s' % (short(q), short_show(p.val)))
        return
    single = g - {None}
    want = {ASKED}
    if 'builtins.NoneType' in single:
        want.add('NoneType')
    if len(single) == 1 and not single & OPEN:
        want |= single
    if 'builtins.dict' in single and t.not_subclass():
        want.add('builtins.dict')
    bad = got - want - {'NoneType'} if t.none_ok(p.val) else got - want
    if 'builtins.tuple' in bad | got and t.named() and got != {ASKED}:
        bad = got
    if bad:
        ctx.report('type', '%s/%s' % (short(q), sorted(bad)[0]),
                   '%s can return %s for a type of %s%s' % (
                       short(q), tell(bad, p.val),
                       ', '.join(sorted(x.split('.')[-1] for x in single)),
                       why(p)), ev=at(ctx, q, p))


def tell(bad, val):
    b = sorted(bad)[0]
    if b == 'GIVEN':
        return 'the given value as it is'
    if b == 'NoneType':
        return 'None'
    if b == 'OTHER':
        return short_show(val, 80)
    return 'an instance of %s (%s)' % (b.split('.')[-1],
                                       short_show(val, 60))


def why(p):
    out = []
    for c, v in p.facts.items():
        if c[0] in ('isinst', 'isnone', 'eq', 'is', 'truth', 'hasattr'):
            out.append('%s%s(%s)' % ('' if v else 'not ', c[0], ', '.join(
                short_show(x, 40) for x in c[1:] if isinstance(x, tuple))))
    return '' if not out else ' (if %s)' % '; '.join(sorted(out)[:3])


class Typing:
    """Types of the terms of a path."""

    def __init__(self, ctx, it, p, obj, cls):
        self.ctx, self.it, self.p = ctx, it, p
        self.obj, self.cls = obj, cls
        self.evs = {e.res: e for e in p.events if e.res is not None}

    # the asked class ---------------------------------------------------------

    def target(self, t):
        """t is the asked type, maybe without its generics."""
        if t == self.cls:
            return True
        if t[0] == 'call' and t[1][0] in ('func', 'ext') and t[2]:
            n = t[1][1].rsplit('.', 1)[-1]
            if n in STRIP or n == 'cast' and len(t[2]) > 1:
                return self.target(t[2][-1])
            if t[1] == ('ext', 'builtins.getattr') and len(t[2]) > 1 and \
                    t[2][1][0] == 'c' and t[2][1][2] in STRIP_ATTR:
                return self.target(t[2][0])
        if t[0] == 'attr' and t[2] in STRIP_ATTR:
            return self.target(t[1])
        if t[0] == 'ite':
            return self.target(t[2]) and self.target(t[3])
        if t[0] == 'bin' and t[1] in ('or', 'and'):
            return self.target(t[2]) and self.target(t[3])
        return False

    def is_asked(self, t):
        """The conditions entail that t is of the asked type, or that every
        value is."""
        return entails(self.ctx, self.p.facts, lambda f: ASKED in
                       self.isinst(t, f) or anything(f, self.cls))

    def isinst(self, t, facts=None):
        """True if the conditions say that t is of the asked type; a name of
        a type if they say that t is of that."""
        out = set()
        for c, v in (self.p.facts if facts is None else facts).items():
            if not v:
                continue
            if c[0] == 'isinst' and c[1] == t:
                if self.target(c[2]):
                    return {ASKED}
                if c[2][0] == 'ext':
                    out.add(c[2][1])
            if c[0] in ('eq', 'is'):
                for a, b in ((c[1], c[2]), (c[2], c[1])):
                    if a in (('call', ('ext', 'builtins.type'), (t,), ()),
                             ('attr', t, '__class__')):
                        if self.target(b):
                            return {ASKED}
                        if b[0] == 'ext':
                            out.add(b[1])
            if c[0] == 'isnone' and c[1] == t:
                return {'NoneType'}
            if c[0] == 'truth' and c[1][0] == 'call' and c[1][1] == (
                    'ext', 'builtins.isinstance') and c[1][2][0] == t and \
                    self.target(c[1][2][1]):
                return {ASKED}
        return out

    def implied(self, t):
        """What the predicates of the package among the conditions say."""
        for c, v in self.p.facts.items():
            if c[0] == 'truth' and contains(c[1], t):
                cs = cases(self.ctx, c[1], v)
                if cs:
                    return set.intersection(*(self.isinst(t, f)
                                              for f in cs))
        return set()

    def none_ok(self, t):
        return self.p.facts.get(('isnone', self.obj)) is True

    def named(self):
        for c, v in self.p.facts.items():
            if v and (c[0] == 'hasattr' and self.target(c[1]) and
                      '_fields' in repr(c[2:]) or
                      c[0] == 'truth' and '_fields' in repr(c[1]) and
                      contains(c[1], self.cls)):
                return True
        return False

    def not_subclass(self):
        """The asked type is known to be no class of its own."""
        return any(v and c[0] in ('is', 'eq') and any(
            self.target(x) for x in c[1:]) and any(
            x[0] == 'ext' for x in c[1:]) for c, v in self.p.facts.items())

    # terms ---------------------------------------------------------------------

    def of(self, t, depth=0):
        """The possible types of t, or None if they are not known."""
        if depth > 8:
            return None
        facts = self.isinst(t) or self.implied(t)
        if facts & {ASKED, 'NoneType'}:
            return facts & {ASKED, 'NoneType'}
        r = self._of(t, depth)
        if r is None or r == {'GIVEN'}:
            if facts:
                return {PLAIN.get(f, f) for f in facts}
        return r

    def _of(self, t, depth):
        k = t[0]
        if t == self.obj:
            return {ASKED if self.is_asked(t) else 'GIVEN'}
        if k == 'c':
            return {'NoneType' if t == NONE else 'builtins.' + t[1]}
        if k == 'fmt':
            return {'builtins.str'}
        if k == 'L':
            return {'builtins.' + t[1] if '.' not in t[1] else t[1]}
        if k == 'D':
            return {'builtins.dict'}
        if k == 'tup':
            return {'builtins.tuple'}
        if k == 'ite':
            return self.join(t[2:], depth)
        if k == 'bin':
            if t[1] in ('or', 'and'):
                return self.join(t[2:], depth)
            a = self.of(t[2], depth + 1)
            if a and len(a) == 1 and next(iter(a)).split('.')[0] in (
                    'datetime', 'decimal'):
                return a
            return None
        if k == 'evt':
            return self.made(t[2], self.evs.get(t), t, depth)
        if k == 'call':
            return self.made(t[1], None, t, depth)
        if k == 'item':
            if self.target(t[1]) or self.members(t[1]):
                return {ASKED}
            if contains(t[1], self.obj) and not self.within(t):
                return {'OTHER'}
            return self.part(t[1])
        if k == 'attr':
            if t[2] != '__self__' and (self.of(t[1], depth + 1) ==
                                       {ASKED}):
                return {'OTHER'}
            return None
        if k == 'mcall':
            return self.method(t, depth)
        if k == 'new':
            return {'OTHER'}
        if k == 'get' and self.members(t[1]):
            d = self.of(t[3], depth + 1)
            return None if d is None else d | {ASKED}
        if k == 'lookup' and self.members(t[1]):
            return {ASKED}
        if k == 'sym' and t == self.cls:
            return {'OTHER'}
        if k == 'O':
            if isinstance(t[2], tuple):
                return {ASKED} if self.target(t[2]) else {'OTHER'}
            return None
        return None

    def members(self, t):
        return t[0] == 'attr' and t[2] in (
            '__members__', '_member_map_', '_value2member_map_') and \
            self.target(t[1])

    def part(self, t):
        """The type of the items of a loaded container."""
        e = self.evs.get(t)
        if t[0] != 'evt' or e is None or \
                not self.ctx.is_call(e, {self.ctx.fn('load')}):
            return None
        c = load_args(self.ctx, e)[1]
        if c is None or c[0] != 'item' or c[1][0] != 'ext':
            return None
        a = c[2][1][-1] if c[2][0] == 'tup' and c[2][1] else c[2]
        return {PLAIN.get(a[1], a[1])} if a[0] == 'ext' and \
            PLAIN.get(a[1], a[1]) in KNOWN else None

    def within(self, t):
        """t is made by a call somewhere within."""
        return any(s[0] in ('call', 'evt', 'mcall') for s in subterms(t))

    def join(self, ts, depth):
        out = set()
        for x in ts:
            if not isinstance(x, tuple):
                continue
            r = self.of(x, depth + 1)
            if r is None:
                return None
            out |= r
        return out

    def made(self, f, ev, t, depth):
        if self.target(f):
            return {ASKED}
        if f[0] == 'ext':
            n = PLAIN.get(f[1], f[1])
            if n in KNOWN:
                return {n}
            if n in RESULT:
                return {RESULT[n]} if RESULT[n] else None
            base, _, m = n.rpartition('.')
            if base in KNOWN and m in MAKERS:
                return {base}
            if n == 'builtins.object.__new__' or n == 'copy.copy':
                a = t[2] if k_args(t) else ()
                return {ASKED} if a and self.target(a[0]) else None
            if n == 'builtins.getattr' and len(t[2]) > 1 and \
                    self.target(t[2][0]):
                d = self.of(t[2][2], depth + 1) if len(t[2]) > 2 else set()
                return None if d is None else d | {ASKED}
            return None
        if f == ('attr', self.obj, '__class__') or f == (
                'call', ('ext', 'builtins.type'), (self.obj,), ()):
            return {'GIVEN'}
        if f[0] == 'attr' and self.target(f[1]):
            if f[2] in MAKERS or f[2] in ('__getitem__', '__new__', '_make',
                                          '__call__'):
                return {ASKED}
            return None
        if f[0] == 'func' and f[1] == self.ctx.fn('load'):
            return self.load(ev or self.evs.get(t), t)
        if f[0] == 'func' and f[1] in self.ctx.prog.functions and \
                t[0] == 'call':
            return self.function(t, depth)
        return None

    def load(self, e, t):
        """The type that a nested load was asked for."""
        if e is not None:
            c = load_args(self.ctx, e)[1]
        elif t[0] == 'call':
            c = t[2][1] if len(t[2]) > 1 else (get(t[3], 'cls') or
                                               (0, None))[1]
        else:
            return None
        if c is None or c == NONE:
            return {'OTHER'}
        if self.target(c):
            return {ASKED}
        if c[0] == 'ext':
            n = PLAIN.get(c[1], c[1])
            return {n} if n in KNOWN else None
        for s in subterms(c):
            if s[0] == 'ext' and PLAIN.get(s[1], s[1]) in KNOWN and \
                    c[0] == 'item' and c[1] == s:
                return {PLAIN.get(s[1], s[1])}
        return None

    def function(self, t, depth):
        """What a function of the package returns."""
        memo = self.ctx.prog.__dict__.setdefault('_c33', {})
        key = (t, self.obj, self.cls)
        if key in memo:
            return memo[key]
        memo[key] = None
        it = Interp(self.ctx.prog, Policy(max_states=2000, iters=1,
                                          force=(t[1][1],)))
        try:
            ps = it.run(t[1], tuple(t[2]), tuple(t[3]))
        except Budget:
            return None
        out = set()
        for p in ps:
            if p.ctl != 'N':
                continue
            if p.val == t:
                return None
            r = Typing(self.ctx, it, p, self.obj, self.cls).of(
                p.val, depth + 1)
            if r is None:
                return None
            out |= r
        memo[key] = out or None
        return memo[key]

    def method(self, t, depth):
        m = t[2]
        if self.target(t[1]):
            return {ASKED} if m in MAKERS | {'__getitem__', '__call__',
                                             '_make'} else None
        a = self.of(t[1], depth + 1)
        if not a or len(a) > 1:
            return None
        a = next(iter(a))
        if a == 'datetime.datetime' and m == 'date':
            return {'datetime.date'}
        if a == 'datetime.datetime' and m in ('time', 'timetz'):
            return {'datetime.time'}
        if m in ('isoformat', 'strftime', 'format', 'join', '__str__'):
            return {'builtins.str'}
        if m in ('timestamp', 'total_seconds', '__float__'):
            return {'builtins.float'}
        if m in SAME:
            return {a}
        return None


def k_args(t):
    return t[0] == 'call'


# -- unions -------------------------------------------------------------------

def union(ctx, q, p, t):
    v = p.val
    if not is_load(ctx, v):
        got = t.of(v)
        if v == t.obj and any(x and c[0] == 'isinst' and c[1] == v and
                              contains(c[2], t.cls)
                              for c, x in p.facts.items()):
            return
        if got is None:
            ctx.undecide('%s returns %s' % (short(q), short_show(v)))
        elif got - {ASKED} and not (got == {'NoneType'} and
                                    t.none_ok(v)):
            ctx.report('type', short(q), '%s can return %s, which is not the '
                       'result of loading a member of the union' % (
                           short(q), short_show(v, 80)), ev=at(ctx, q, p))
        return
    e = t.evs.get(v)
    c = load_args(ctx, e)[1] if e else None
    if c is None or not contains(c, t.cls):
        ctx.report('member', short(q), '%s loads into %s, which is no member '
                   'of the union' % (short(q), show(c) if c else
                                     'any type'), ev=e or at(ctx, q, p))


# -- strings -------------------------------------------------------------------

def string(ctx, q, p, t):
    """What is returned for a string type that is asked for explicitly."""
    got = t.of(p.val)
    for kind in ('str', 'subclass', 'newtype'):
        ctx.count('string_obligations')
        o = possible(t, kind)
        if o is False:
            continue
        ok = {ASKED} if kind == 'subclass' else {ASKED, 'builtins.str'}
        if got is not None and got <= ok:
            continue
        if t.none_ok(p.val) and got is not None and got <= ok | {'NoneType'}:
            continue
        what = {'str': 'str', 'subclass': 'a subclass of str',
                'newtype': 'a new type of str'}[kind]
        if got is None:
            ctx.undecide('%s returns %s' % (short(q), short_show(p.val)))
        elif o is None:
            ctx.undecide('%s: whether a path is possible for %s' % (
                short(q), what))
        else:
            ctx.report('text', '%s/%s' % (short(q), kind), '%s can return '
                       '%s although %s is asked for%s' % (
                           short(q), tell(got - ok, p.val), what, why(p)),
                       ev=at(ctx, q, p))
    if got is None or not got <= {ASKED, 'builtins.str',
                                  'datetime.datetime'}:
        if got is None:
            ctx.undecide('%s returns %s' % (short(q), short_show(p.val)))
        elif not (got == {'NoneType'} and t.none_ok(p.val)):
            ctx.report('text', '%s/other' % short(q), '%s can return %s, '
                       'neither text nor a datetime' % (
                           short(q), tell(got, p.val)), ev=at(ctx, q, p))


def possible(t, kind, facts=None, depth=3):
    """Whether the conditions of the path hold for the kind of type, asked
    for explicitly: False no, True yes, None unknown."""
    res = True
    for c, v in (t.p.facts if facts is None else facts).items():
        r = holds(t, c, kind)
        if r is None and c[0] == 'truth' and depth:
            cs = cases(t.ctx, c[1], v)      # of a predicate of the package
            if cs:
                rs = [possible(t, kind, f, depth - 1) for f in cs]
                if True in rs:
                    continue
                if None not in rs:
                    return False
        if r is None:
            if any(contains(x, t.cls) for x in c[1:]
                   if isinstance(x, tuple)):
                res = None
            continue
        if r is not v:
            return False
    return res


STR = ('ext', 'builtins.str')
CLASS = {('ext', 'builtins.type'), ('ext', 'abc.ABCMeta')}


def value(t, x, kind):
    """What a term of a type is: 'str', 'sub', 'new', ('ext', ..) or None."""
    own = {'str': 'str', 'subclass': 'sub', 'newtype': 'new'}[kind]
    if x == t.cls:
        return own
    if x == STR:
        return 'str'
    if x == NONE:
        return 'none'
    if x[0] == 'ext':
        return x
    if x[0] == 'attr' and x[2] == '__supertype__' and x[1] == t.cls:
        return 'str' if own == 'new' else None
    if x[0] == 'call' and x[1] == ('ext', 'builtins.getattr') and \
            len(x[2]) > 1 and x[2][1] == const('__supertype__') and \
            x[2][0] == t.cls:
        if own == 'new':
            return 'str'
        return value(t, x[2][2], kind) if len(x[2]) > 2 else None
    if x[0] == 'call' and x[1][0] in ('func', 'ext') and len(x[2]) == 1 and \
            x[1][1].rsplit('.', 1)[-1] in STRIP:
        return value(t, x[2][0], kind)
    if x[0] == 'bin' and x[1] == 'or':
        return value(t, x[2], kind)     # types are true
    return None


def holds(t, c, kind):
    k = c[0]
    if k == 'truth':
        x = c[1]
        if x[0] == 'opt':
            return False if x[2] == '_inferred_cls' else None
        if x[0] == 'get' and x[2] == const('_inferred_cls'):
            return False
        if x[0] == 'call' and x[1] == ('ext', 'builtins.issubclass'):
            return below(value(t, x[2][0], kind), x[2][1], t, kind)
        if x[0] == 'call' and x[1] == ('ext', 'inspect.isclass'):
            a = value(t, x[2][0], kind)
            return None if a is None else a in ('str', 'sub')
        if value(t, x, kind):
            return value(t, x, kind) != 'none'
        return None
    if k == 'isnone':
        a = value(t, c[1], kind)
        return None if a is None else a == 'none'
    if k == 'isinst':
        a = value(t, c[1], kind)
        if a is None:
            return None
        if c[2] in CLASS:
            return a in ('str', 'sub')
        return None
    if k == 'hasattr':
        a = value(t, c[1], kind)
        if a and c[2:] and '__supertype__' in repr(c[2:]):
            return a == 'new'
        return None
    if k in ('eq', 'is'):
        a, b = (value(t, x, kind) for x in c[1:3])
        if a is None or b is None:
            return None
        return a == b
    if k == 'in':
        ms = _members(c[2])
        a = value(t, c[1], kind)
        if ms is None or a is None:
            return None
        vs = [value(t, m, kind) for m in ms]
        return True if a in vs else None if None in vs else False
    return None


def _members(x):
    return list(x[1]) if x[0] == 'tup' else list(x[3]) if x[0] == 'L' else \
        None


def below(a, x, t, kind):
    """a is a subclass of x"""
    if a is None or a == 'new':
        return None
    if x[0] == 'tup':
        rs = [below(a, y, t, kind) for y in x[1]]
        return True if True in rs else None if None in rs else False
    b = value(t, x, kind)
    if b == 'str':
        return True
    if x == ('ext', 'builtins.object'):
        return True
    if isinstance(b, tuple):
        return False if b[1] in KNOWN else None
    return None


# -- load itself --------------------------------------------------------------

def of_load(ctx):
    fl = ctx.fn('load')
    B = ctx.api('get_deserializer', 'get_validator', 'announce_class',
                'get_serializer')
    r = ctx.analyse(fl, 2, B, B | {'VCALL'}, iters=1, fallback=False)
    if r is None:
        return
    obj, cls = (('sym', n) for n in first_params(ctx, fl, 2))
    n = 0
    for p in r[1]:
        if p.ctl != 'N':
            continue
        ctx.count('obligations')
        t = Typing(ctx, r[0], p, obj, cls)
        e = t.evs.get(p.val)
        if e is not None and e.kind == 'ucall' and \
                is_lizer_result(ctx, e.callee):
            n += 1
            continue
        if p.val == obj:
            if t.is_asked(obj) or t.isinst(obj) == {'NoneType'}:
                continue
            ctx.report('load', 'load/given', 'load can return the given '
                       'value as it is, which is not known to be of the '
                       'asked type%s' % why(p), ev=place(ctx, fl))
            continue
        got = t.of(p.val)
        if got is None:
            ctx.undecide('load returns %s' % short_show(p.val))
        elif got != {ASKED}:
            ctx.report('load', 'load/other', 'load can return %s' %
                       short_show(p.val, 80), ev=place(ctx, fl))
    ctx.require(n, 'load never returns the result of a deserializer')


def anything(facts, cls):
    """The asked type is one that every value is of."""
    for c, v in facts.items():
        if v and c[0] in ('eq', 'is') and cls in c[1:] and (
                ('ext', 'typing.Any') in c[1:] or
                ('ext', 'builtins.object') in c[1:]):
            return True
        if v and c[0] == 'in' and c[1] == cls and (_members(c[2]) or [0]) \
                and all(m in (('ext', 'typing.Any'),
                              ('ext', 'builtins.object'))
                        for m in _members(c[2]) or [0]):
            return True
    return False
