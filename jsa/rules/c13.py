"""Writers and readers of the scalar types. What the serializer of a type
returns is computed for an unknown value of the type (cells of text, linear
forms, dicts of parts), and the deserializer is evaluated on exactly that. The
value at the end must be the value at the beginning, for every feasible path
of the writer and of the reader; precision may be cut where the option for it
is given only. Enum members are compared by the choice between name and value
that the facts of both sides say."""
from ..dates import *

T = Lin({('real', 'seconds of the timedelta'): 1})
RE = Lin({('real', 'real part'): 1})
IM = Lin({('real', 'imaginary part'): 1})
NAME = Str(((Lin({'name of the zone': 1}).key(), 0, '?'),))


def check(ctx):
    ctx.rule('the reader of a type returns the value that its writer wrote')
    ctx.rule('enum members are written and read by the same choice between '
             'name and value')
    for kind in ('date', 'time', 'datetime'):
        dates(ctx, kind)
    for dotted, value in VALUES:
        if registered(ctx, 'serializer', dotted) and \
                registered(ctx, 'deserializer', dotted):
            scalar(ctx, dotted, value)
    enums(ctx)


def registered(ctx, kind, dotted):
    return any(k == kind and ('ext', dotted) in classes
               for k, fn, classes, prio, e in ctx.registry())


# -- dates ----------------------------------------------------------------------

def dates(ctx, kind):
    dotted = 'datetime.' + kind
    wq, wn, wp = runs(ctx, 'serializer', dotted)
    rq, rn, rp = runs(ctx, 'deserializer', dotted)
    ctx.require(wp is not None and rp is not None,
                'the writer or reader of %s was not analysed' % dotted)
    ctx.count('paths', len(wp) + len(rp))
    cases = offsets() if kind == 'datetime' else [
        ('', None, None, num(0))]
    for what, tz, local, off in cases:
        for micro in (False, True) if kind != 'date' else (False,):
            f = fields_of(kind, micro)
            ctx.count('cases')
            for p, v in evaluate(ctx, wp, {('sym', wn): Dt(kind, f, tz)},
                                 local):
                cut = micro and p.facts.get(
                    ('truth', entry_opt('strip_microseconds')))
                g = dict(f)
                if cut:
                    g['microsecond'] = num(0)
                one(ctx, kind, wq, p, v, rq, rn, rp, what, g,
                    off if kind == 'datetime' else None)


def one(ctx, kind, wq, p, v, rq, rn, rp, what, f, off):
    at = place(ctx, wq)
    name = 'a %s %s' % (kind, what) if what else 'a %s' % kind
    if isinstance(v, Error):
        ctx.report('write', short(wq), '%s cannot be written: %s' % (
            name, v.why), ev=at)
        return
    if not isinstance(v, Str):
        ctx.undecide('%s of %s: %s' % (short(wq), name, short_show(p.val)))
        return
    res = evaluate(ctx, rp, {('sym', rn): v})
    if not res:
        ctx.undecide('no path of %s for %r' % (short(rq), v))
    for r, d in res:
        ctx.count('obligations')
        if isinstance(d, Error):
            ctx.report('read', short(rq), 'what is written for %s, %r, '
                       'cannot be read: %s' % (name, v, d.why),
                       ev=place(ctx, rq))
        elif not isinstance(d, Dt):
            ctx.undecide('%s of %r: %s' % (short(rq), v,
                                           short_show(r.val)))
        elif d.kind != kind:
            ctx.report('kind', short(rq), 'a %s is read as a %s' % (
                kind, d.kind), ev=place(ctx, rq))
        else:
            for n in FIELDS[kind]:
                if d.f.get(n) is UNKNOWN:
                    ctx.undecide('%s of %r: %s' % (short(rq), v, n))
                elif d.f.get(n) != f[n]:
                    ctx.report('field', short(rq), 'the %s of %s is written '
                               'and read as %r, the text is %r' % (
                                   n, name, d.f.get(n), v),
                               ev=place(ctx, rq))
                    return
            if off is not None and isinstance(d.tz, Tz) and \
                    off.const() == 0 and d.tz.at != num(0):
                ctx.report('field', short(rq), 'a datetime at UTC is read '
                           'with the offset %r' % d.tz.at,
                           ev=place(ctx, rq))


# -- other scalars -----------------------------------------------------------------

class Inst:
    """A value that is known by its parts and its texts only."""
    def __init__(self, dotted):
        self.dotted = dotted

    def __eq__(self, o):
        return isinstance(o, Inst) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)

    def __repr__(self):
        return 'the ' + self.dotted


class Lossy:
    def __init__(self, what):
        self.what = what


class Dict(dict):
    pass


def text_key(dotted, what='text'):
    return Str(((Lin({'%s of the %s' % (what, dotted): 1}).key(), 0, '?'),))


CX, DEC, UUID = Inst('builtins.complex'), Inst('decimal.Decimal'), \
    Inst('uuid.UUID')
PATH, ZONE = Inst('pathlib.PurePath'), Inst('zoneinfo.ZoneInfo')
VALUES = [('builtins.complex', CX), ('datetime.timedelta', Td(T)),
          ('datetime.timezone', Tz(T, name=NAME)), ('decimal.Decimal', DEC),
          ('uuid.UUID', UUID), ('pathlib.PurePath', PATH),
          ('zoneinfo.ZoneInfo', ZONE)]
TEXTS = {'__str__': (DEC, UUID, PATH, ZONE), 'as_posix': (PATH,),
         '__fspath__': (PATH,), '__format__': (DEC, UUID, PATH, ZONE)}
ATTRS = {(CX, 'real'): RE, (CX, 'imag'): IM, (ZONE, 'key'): None,
         (UUID, 'urn'): None, (UUID, 'hex'): 'hex', (UUID, 'int'): 'int',
         (UUID, 'bytes'): 'bytes', (PATH, '_str'): None}
CUT = {'builtins.int', 'builtins.float', 'builtins.round', 'builtins.abs',
       'math.floor', 'math.ceil', 'math.trunc', 'os.path.basename',
       'os.path.dirname', 'os.path.normpath', 'os.path.abspath'}
CUT_ATTRS = {'name', 'stem', 'parent', 'parts', 'suffix', 'fields', 'node',
             'time', 'numerator', 'quantize', 'normalize', 'to_integral',
             'to_integral_value', '__int__', '__float__', '__round__',
             'resolve', 'absolute', 'with_suffix', 'with_name', 'root',
             'relative_to', 'days', 'seconds', 'conjugate', 'lower', 'upper'}
CUT_TEXT = {'strip', 'rstrip', 'lstrip', 'split', 'replace', 'partition',
            'rpartition', 'rsplit', 'removeprefix', 'removesuffix',
            'title', 'capitalize', 'casefold', 'swapcase', 'expandtabs'}


class Values(Eval):
    def __init__(self, ctx, path, env, depth=0):
        Eval.__init__(self, env)
        self.ctx, self.path, self.depth = ctx, path, depth

    def str(self, v):
        if isinstance(v, Inst) and v in TEXTS['__str__']:
            return text_key(v.dotted)
        if isinstance(v, Tz) and isinstance(v.name, Str):
            return v.name
        if isinstance(v, Lossy):
            return v
        return Eval.str(self, v)

    def format(self, v, spec):
        if isinstance(v, Inst) and v == DEC and spec == 'f':
            return text_key(v.dotted)
        if isinstance(v, Inst) and spec not in ('', 's', '!s'):
            return Lossy('format %s' % spec)
        if isinstance(v, Lin) and spec not in ('', '!s', '!r'):
            return Lossy('format %s' % spec)
        return Eval.format(self, v, spec)

    def ev_(self, t):
        k = t[0]
        if k == 'fmt' and len(t[1]) == 1 and t[1][0][0] != 'spec':
            return self.str(self.ev(t[1][0]))
        if k == 'fmt':
            for p in t[1]:
                v = self.ev(p[1] if p[0] == 'spec' else p)
                if isinstance(v, Lossy):
                    return v
                if isinstance(v, Inst) and p[0] == 'spec':
                    f = self.format(v, p[2])
                    if isinstance(f, Lossy):
                        return f
        if k == 'slice':
            o = self.ev(t[1])
            if isinstance(o, Str) and not o.known():
                return Lossy('a slice of the text')
            if isinstance(o, Lossy):
                return o
        if k == 'D':
            d = Dict()
            for l in t[2]:
                if l[0] == 'rest':
                    b = self.ev(l[1])
                    if not isinstance(b, Dict):
                        return UNKNOWN
                    d.update(b)
                    continue
                if l[0] != 'k':
                    return UNKNOWN
                key = self.ev(l[1])
                d[key] = self.ev(l[2])
            return d
        if k == 'get':
            o = self.ev(t[1])
            if isinstance(o, Dict):
                key = self.ev(t[2])
                return o[key] if key in o else self.ev(t[3])
            return o if isinstance(o, Lossy) else UNKNOWN
        if k == 'evt':
            return self.event(t)
        if k == 'call' and t[1][0] == 'ext':
            r = self.build(t[1][1], t[2], t[3])
            if r is not UNKNOWN:
                return r
        return Eval.ev_(self, t)

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Lossy):
                return x
        return Eval.binop(self, op, a, b)

    def item(self, o, i):
        if isinstance(o, Lossy):
            return o
        if isinstance(o, Dict):
            if i in o:
                return o[i]
            if isinstance(i, Str):
                return Error('there is no key %r' % i)
            return UNKNOWN
        return Eval.item(self, o, i)

    def attr(self, o, name, t):
        if isinstance(o, Lossy):
            return o
        if isinstance(o, Inst):
            if (o, name) in ATTRS:
                a = ATTRS[o, name]
                return text_key(o.dotted) if a is None else \
                    text_key(o.dotted, a) if isinstance(a, str) else a
            if name in CUT_ATTRS:
                return Lossy('.%s of the value' % name)
        if isinstance(o, Td) and name in ('days', 'seconds'):
            return Lossy('.%s of the value' % name)
        return Eval.attr(self, o, name, t)

    def method(self, t):
        o = self.ev(t[1])
        if isinstance(o, Lossy):
            return o
        if isinstance(o, Inst):
            if o in TEXTS.get(t[2], ()) and not (
                    t[2] == '__format__' and t[3] and
                    self.ev(t[3][0]) != text('')):
                return text_key(o.dotted)
            if t[2] in CUT_ATTRS:
                return Lossy('.%s of the value' % t[2])
            return UNKNOWN
        if isinstance(o, Str) and not o.known() and t[2] in CUT_TEXT:
            return Lossy('%s of the text' % t[2])
        if isinstance(o, Dict) and t[2] == 'get' and t[3]:
            k = self.ev(t[3][0])
            return o[k] if k in o else \
                self.ev(t[3][1]) if len(t[3]) > 1 else None
        return Eval.method(self, t)

    def build(self, f, args, layers):
        a = self.evs(args)
        kw = self.kw(layers)
        if kw is None:
            for l in layers:
                if l[0] == 'rest' and isinstance(self.ev(l[1]), Dict):
                    kw = dict(kw or {}, **{k.plain(): v for k, v in
                                           self.ev(l[1]).items()})
        for x in a + list((kw or {}).values()):
            if isinstance(x, (Error, Lossy)):
                return x
        if f == 'builtins.complex' and kw is not None:
            d = dict(zip(('real', 'imag'), a))
            d.update(kw)
            if UNKNOWN in d.values():
                return UNKNOWN
            if d.get('real') == RE and d.get('imag') == IM:
                return CX
            return Lossy('complex(%r, %r)' % (d.get('real'), d.get('imag')))
        if f in ('os.fspath', 'builtins.format') and a and \
                isinstance(a[0], Inst) and len(a) == 1:
            return text_key(a[0].dotted)
        if f == 'builtins.str' and a and isinstance(a[0], (Inst, Tz)):
            return self.str(a[0])
        if f == 'builtins.format' and a and isinstance(a[0], (Inst, Lin)):
            return self.format(a[0], a[1].plain() if len(a) > 1 else '')
        if f == 'builtins.repr' and a and isinstance(a[0], Inst):
            return Str(tuple('repr(') + text_key(a[0].dotted).c + (')',))
        inst = next((v for d, v in VALUES if d == f), None)
        if isinstance(inst, Inst):
            if len(a) == 1 and not kw or not a and len(kw or {}) == 1:
                k, v = (None, a[0]) if a else list(kw.items())[0]
                return self.parsed(inst, k, v)
            return UNKNOWN
        if f in CUT and a and (isinstance(a[0], Inst) or isinstance(
                a[0], Str) and not a[0].known() or isinstance(
                    a[0], Lin) and f not in ('builtins.float',
                                             'builtins.abs') or isinstance(
                        a[0], Td)):
            return Lossy(f.replace('builtins.', '') + ' of the value')
        return UNKNOWN

    def parsed(self, inst, k, v):
        if v == inst or isinstance(v, Lossy):
            return v
        if isinstance(v, Str):
            if v == text_key(inst.dotted) and k in (None, 'hex', 'value',
                                                    'key'):
                return inst
            if inst == UUID and k is not None and v == text_key(
                    inst.dotted, k) or inst == UUID and k is None and \
                    v == text_key(inst.dotted, 'hex'):
                return inst
            return Error('%r is no text of the value' % v)
        return UNKNOWN

    # nested dumps and loads

    def event(self, t):
        e = next((e for e in self.path.events if e.res == t), None)
        if e is None:
            return UNKNOWN
        ctx = self.ctx
        ps = params_of(ctx, e)
        if e.kind == 'ucall' and len(e.args) == 1 and not e.kw and \
                e.callee[0] == 'sym' and self.env.get(e.callee):
            return self.parsed(self.env[e.callee], None,
                               self.ev(e.args[0]))
        for kind, fn in (('serializer', 'dump'), ('deserializer', 'load')):
            if ctx.is_call(e, {ctx.fn(fn)}):
                j = e.args[0] if e.args else lookup(e, ps[0], ps)[1]
                c = lookup(e, 'cls', ps)
                return self.nested(kind, self.ev(j), c[1] if c else None)
        return UNKNOWN

    def nested(self, kind, v, cls):
        if isinstance(v, (Lossy, Error)) or v is UNKNOWN or self.depth > 2:
            return v
        if cls is not None and any(s == ('ext', 'builtins.int')
                                   for s in subterms(cls)):
            return Lossy('%s as %s' % (kind[:-4], short_show(cls)))
        dotted = None
        if cls is not None and cls[0] == 'ext' and registered(
                self.ctx, kind, cls[1]) and not cls[1].startswith(
                    ('builtins.', 'typing.')):
            dotted = cls[1]
        elif kind == 'serializer' and cls is None and isinstance(v, Td):
            dotted = 'datetime.timedelta'
        if dotted is None:
            return v                # a JSON value stays what it is
        rs = through(self.ctx, kind, dotted, v, self.depth + 1)
        rs = [r for _, r in rs or ()]
        if rs and all(r == rs[0] for r in rs):
            return rs[0]
        return UNKNOWN


def through(ctx, kind, dotted, value, depth=0):
    """[(path, value)] of the lizer of a type for a value."""
    q, name, paths = runs(ctx, kind, dotted)
    if paths is None:
        return None
    env = {('sym', name): value}
    if kind == 'deserializer':
        cls = first_params(ctx, q, 2)
        inst = next((v for d, v in VALUES if d == dotted), None)
        if len(cls) > 1 and isinstance(inst, Inst):
            env[('sym', cls[1])] = inst
            env[entry_opt('cls')] = inst
    out = []
    for p in paths:
        if p.ctl != 'N':
            continue
        e = Values(ctx, p, env, depth)
        if e.feasible(p.facts):
            out.append((p, e.ev(p.val)))
    return out


def scalar(ctx, dotted, value):
    wq = ctx.lizer_for('serializer', dotted)
    rq = ctx.lizer_for('deserializer', dotted)
    ws = through(ctx, 'serializer', dotted, value)
    ctx.require(ws is not None, '%s was not analysed' % short(wq))
    ctx.count('cases')
    for p, v in ws:
        ctx.count('obligations')
        if wrong(ctx, wq, dotted, v, p, 'written'):
            continue
        if isinstance(v, Dict) and any(
                wrong(ctx, wq, dotted, x, p, 'written', k)
                for k, x in v.items()):
            continue
        for r, x in through(ctx, 'deserializer', dotted, v) or ():
            ctx.count('obligations')
            if wrong(ctx, rq, dotted, x, r, 'read'):
                continue
            if not same(x, value):
                ctx.report('value', short(rq), 'the %s that is written is '
                           'read as %r' % (dotted, x), ev=place(ctx, rq))


def same(a, b):
    if isinstance(a, Tz) and isinstance(b, Tz):
        return a.fixed == b.fixed and a.name == b.name
    return a == b


def wrong(ctx, q, dotted, v, p, how, part=None):
    if isinstance(v, Lossy):
        ctx.report('lossy', short(q), 'of a %s, %s is %s' % (
            dotted, v.what, how), ev=place(ctx, q))
    elif isinstance(v, Error):
        ctx.report('error', short(q), 'a %s cannot be %s: %s' % (
            dotted, how, v.why), ev=place(ctx, q))
    elif v is UNKNOWN:
        ctx.undecide('%s returns %s' % (short(q), short_show(p.val)))
    else:
        return False
    return True


# -- enums ---------------------------------------------------------------------------

def enums(ctx):
    USE = entry_opt('use_enum_name')
    wq = ctx.lizer_for('serializer', 'enum.Enum')
    rq = ctx.lizer_for('deserializer', 'enum.Enum')
    for opt, without in ((True, ()), (False, ()), (None,
                                                   ('use_enum_name',))):
        ws = choices(ctx, 'serializer', wq, opt, without, USE)
        rs = choices(ctx, 'deserializer', rq, opt, without, USE)
        ctx.count('cases')
        for w, p in ws:
            for r, x in rs:
                ctx.count('obligations')
                if w is None or r is None:
                    continue
                if w[:1] != r[:1] or opt is not None and len(set(r)) > 1 \
                        and r[0] != w[0]:
                    ctx.report('enum', short(rq), 'with %s, members are '
                               'written by %s and read by %s' % (
                                   'use_enum_name=%s' % opt if opt is not
                                   None else 'the defaults', w[0], r[0]),
                               ev=place(ctx, rq))
            want = {True: 'name', False: 'value'}.get(opt)
            if w is not None and want and w[0] != want:
                ctx.report('enum', short(wq), 'with use_enum_name=%s, '
                           'members are written by %s' % (opt, w[0]),
                           ev=place(ctx, wq))


def choices(ctx, kind, q, opt, without, USE):
    """[(('name'|'value',) in the order they are tried, path)]"""
    n = 1 if kind == 'serializer' else 2
    r = ctx.analyse(q, n, part_boundary(ctx), {'UCALL'}, iters=1,
                    fallback=False, dedup=400, ext_raise=False,
                    raise_ops=False, inline_all=True, without=without)
    if r is None:
        return []
    ps = first_params(ctx, q, 2)
    obj = ('sym', ps[0])
    cls = ('sym', ps[1]) if len(ps) > 1 else entry_opt('cls')
    out = []
    for p in r[1]:
        if p.ctl != 'N' or opt is not None and not optional(
                p.facts, USE, opt):
            continue
        out.append((choice(ctx, kind, q, p, obj, cls), p))
    return out


def optional(facts, USE, opt):
    """The facts about the option can hold for its value."""
    for c, v in facts.items():
        if not contains(c, USE):
            continue
        r = None
        if c == ('truth', USE):
            r = opt
        elif c == ('isnone', USE):
            r = False
        elif c[0] in ('is', 'eq') and USE in c[1:]:
            o = c[2] if c[1] == USE else c[1]
            if o[0] == 'c':
                r = o[2] is opt or c[0] == 'eq' and o[2] == opt
        if r is not None and r != v:
            return False
    return True


def choice(ctx, kind, q, p, obj, cls):
    t = p.val
    if kind == 'serializer':
        if t[0] == 'attr' and t[1] == obj:
            n = t[2].strip('_')
            if n in ('name', 'value'):
                return n,
        ctx.undecide('%s returns %s' % (short(q), short_show(t)))
        return None
    if t[0] == 'item' and contains(t[1], cls) and t[2] == obj:
        return 'name',
    if t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and \
            t[2][:2] == (cls, obj):
        return 'name',
    if t[0] == 'evt':
        e = next((e for e in p.events if e.res == t), None)
        if e is not None and e.callee == cls and e.args == (obj,):
            return 'value',
    if t[0] == 'elem' and t[1] == cls:
        for c, v in p.facts.items():
            if v and c[0] in ('eq', 'is') and obj in c[1:]:
                o = c[2] if c[1] == obj else c[1]
                if o[0] == 'attr' and o[1] == t:
                    n = o[2].strip('_')
                    if n in ('name', 'value'):
                        return n,
    ctx.undecide('%s returns %s' % (short(q), short_show(t)))
    return None
