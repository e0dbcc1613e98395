"""Constructor arguments come from the input, then getters, then defaults. The
object deserializer and the one for (named) tuples are executed abstractly. On
every path on which the class is called, the value that is passed for each
parameter is classified (loaded from the key of the input, result of the
getter, default, None, nothing) and compared with what the path conditions say
about the sources that come first. The same holds for the paths that raise the
error for a parameter without a value."""
from ..objects import *
from ..interp import Interp, Policy
from ..caching import cached

GETTERS = entry_opt('attr_getters')
EMPTY = ('ext', 'inspect.Parameter.empty')
VARS = (('ext', 'inspect.Parameter.VAR_POSITIONAL'),
        ('ext', 'inspect.Parameter.VAR_KEYWORD'))


def check(ctx):
    ctx.rule('a parameter takes its value from the input, else from its '
             'getter, else its default, else None')
    ctx.rule('the error for a missing value is raised only if there is none '
             'of these')
    of_objects(ctx)
    of_namedtuples(ctx)


class Source:
    """Where the values of the parameters may come from."""

    def __init__(self, ctx, obj, cls, p, named):
        self.ctx, self.obj, self.cls = ctx, obj, cls
        self.p = p
        self.named = named
        self.reach = ctx.prog.__dict__.get('_c28_reach')
        if self.reach is None:
            self.reach = ctx.prog._c28_reach = Interp(
                ctx.prog, Policy()).reach

    def is_params(self, t):
        """t is the mapping or sequence of the parameters."""
        if not contains(t, self.cls):
            return False
        if self.named:
            return t == ('attr', self.cls, '_fields') or \
                t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and \
                t[2][1:2] == (const('_fields'),)
        if t[0] == 'attr' and t[2] in ('parameters', 'args'):
            t = t[1]
        if t[0] != 'call':
            return False
        f = t[1]
        if f[0] == 'ext':
            return f[1] in ('inspect.signature', 'inspect.getfullargspec')
        return f[0] == 'func' and 'ext:inspect.signature' in \
            self.reach.closed(f[1]) | set()

    def names(self):
        """{term of the name of a parameter: the parameter's element}"""
        out = {}
        for t in self.terms():
            for s in subterms(t):
                if s[0] == 'elem' and self.is_params(s[1]):
                    out[s] = s
                if s[0] == 'attr' and s[2] == 'name' and \
                        self.param_of(s[1]) is not None:
                    out[s] = self.param_of(s[1])
        return out

    def terms(self):
        for c in self.p.facts:
            for x in c[1:]:
                if isinstance(x, tuple):
                    yield x
        for e in self.p.events:
            for a in e.args:
                yield a
            for l in e.kw:
                if l[0] == 'k':
                    yield l[1]
                    yield l[2]

    def param_of(self, t):
        """The element of the parameter whose object t is."""
        if t[0] == 'item' and self.is_params(t[1]) and t[2][0] == 'elem':
            return t[2]
        return None

    def of_input(self, t):
        return contains(t, self.obj)


def same(src, t, k, names):
    return t == k or names.get(t) == k


def in_input(src, facts, k, names):
    """True/False/None: the input has a value for the parameter."""
    res = None
    for c, v in facts.items():
        if c[0] == 'in' and same(src, c[1], k, names) and \
                src.of_input(c[2]) and not is_result(c[2]):
            return v
        if c[0] == 'truth' and not v and (
                c[1] == src.obj or inputs(src, c[1])):
            res = False
        if c[0] in ('is', 'eq') and c[1][0] == 'get' and \
                same(src, c[1][2], k, names) and src.of_input(c[1][1]) and \
                c[2] == c[1][3] and c[2] != NONE:
            return not v
    if res is None and any(
            e.kind == 'loop' and src.of_input(e.callee) and
            e.args[:2] == (const(0), const('exhausted'))
            for e in src.p.events):
        return False            # there is nothing in the input
    return res


def inputs(src, t):
    """A dict with the (transformed) keys of the input."""
    return t[0] == 'D' and t[2] and all(
        l[0] == 'k' and src.of_input(l[2]) for l in t[2])


def is_result(t):
    """The dict of the arguments that were found already."""
    return t[0] == 'D' and any(l[0] == 'k' and l[2][0] == 'evt'
                               for l in t[2])


def is_getters(t):
    if t == GETTERS:
        return True
    if t[0] == 'D':
        return any(l[0] in ('rest', 'all') and l[1] == GETTERS or
                   contains(('x',) + tuple(x for x in l if isinstance(
                       x, tuple)), GETTERS) for l in t[2])
    if t[0] == 'bin' and t[1] == 'or':
        return is_getters(t[2])
    if t[0] == 'call' and t[1] == ('ext', 'builtins.dict') and t[2]:
        return is_getters(t[2][0])
    return False


def in_getters(src, facts, k, names):
    res = None
    for c, v in facts.items():
        if c[0] == 'in' and same(src, c[1], k, names) and is_getters(c[2]):
            return v
        if c[0] == 'truth' and not v and is_getters(c[1]):
            res = False
        if c[0] == 'isnone' and v and is_getters(c[1]):
            res = False
        if c[0] in ('truth', 'isnone', 'is', 'eq') and getter_of(
                src, c[1], k, names):
            if c[0] == 'truth':
                res = v
            elif c[0] == 'isnone':
                res = not v
            elif c[1][0] == 'get' and c[2] == c[1][3]:
                res = not v
    return res


def getter_of(src, t, k, names):
    """t is the getter of the parameter."""
    return t[0] in ('item', 'get', 'lookup') and is_getters(t[1]) and \
        same(src, t[2], k, names)


def param(src, t, k, names):
    return src.param_of(t) == k


def default_of(src, t, k, names):
    if src.named:
        return t[0] in ('item', 'get', 'lookup') and is_defaults(
            src, t[1]) and same(src, t[2], k, names)
    return t[0] == 'attr' and t[2] == 'default' and param(
        src, t[1], k, names)


def is_defaults(src, t):
    return t in (('attr', src.cls, '_field_defaults'),
                 ('attr', src.cls, '__new__')) or \
        t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and \
        t[2][1:2] == (const('_field_defaults'),)


def has_default(src, facts, k, names):
    for c, v in facts.items():
        if src.named:
            if c[0] == 'in' and same(src, c[1], k, names) and \
                    is_defaults(src, c[2]):
                return v
            if c[0] == 'truth' and not v and is_defaults(src, c[1]):
                return False
            continue
        if c[0] in ('eq', 'is'):
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if default_of(src, a, k, names) and is_empty(src, b):
                    return not v
    return None


def is_empty(src, t):
    return t in (EMPTY, ('ext', 'inspect._empty'),
                 ('ext', 'inspect.Signature.empty')) or \
        t[0] == 'attr' and t[2] == 'empty' and src.param_of(
            t[1]) is not None


def variadic(src, facts, k, names):
    """True/False/None"""
    no = set()
    for c, v in facts.items():
        if c[0] == 'in' and kind_of(src, c[1], k, names):
            ms = members(c[2])
            if ms and all(any(same_kind(src, m, w) for w in VARS)
                          for m in ms):
                if v:
                    return True
                no |= {w for m in ms for w in VARS if same_kind(src, m, w)}
            elif ms and not v:
                no |= {w for m in ms for w in VARS if same_kind(src, m, w)}
        if c[0] in ('eq', 'is'):
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                for w in VARS:
                    if kind_of(src, a, k, names) and same_kind(src, b, w):
                        if v:
                            return True
                        no.add(w)
    return False if len(no) == 2 else None


def same_kind(src, t, w):
    return t == w or t[0] == 'attr' and 'ext' in (w[0],) and \
        w[1].endswith('.' + t[2]) and src.param_of(t[1]) is not None


def kind_of(src, t, k, names):
    return t[0] == 'attr' and t[2] == 'kind' and param(src, t[1], k, names)


def members(t):
    if t[0] == 'tup':
        return list(t[1])
    if t[0] == 'L':
        return list(t[3])
    return None


def is_self(src, facts, k, names):
    return any(v and c[0] in ('eq', 'is') and const('self') in c[1:] and any(
        same(src, x, k, names) for x in c[1:]) for c, v in facts.items())


def unknown(t):
    return any(s[0] in ('havoc', 'unknownarg', '*') for s in subterms(t))


# -- objects ------------------------------------------------------------------------

def of_objects(ctx):
    r = object_run(ctx, {'RAISE'})
    if r is None:
        return
    q, obj, cls, it, paths = r
    seen = run(ctx, q, obj, cls, paths, False)
    for what in ('input', 'getter', 'default', 'None', 'nothing', 'error'):
        if what not in seen:
            ctx.report('never', '%s/%s' % (short(q), what), '%s: no '
                       'parameter gets %s' % (short(q), OUTCOME[what]),
                       ev=place(ctx, q))
    carried(ctx, q, obj, cls)


def carried(ctx, q, obj, cls):
    """Two parameters: nothing is carried over from the one before. What does
    not load anything is not looked into."""
    B = load_boundary(ctx)
    load = ctx.fn('load')
    it = Interp(ctx.prog, Policy())
    opq = {f for f in ctx.prog.functions
           if load not in it.reach.closed(f)} - B - {q}
    r = ctx.analyse(q, 2, B, B | {'UCALL', 'RAISE'}, iters=2,
                    fallback=False, max_states=60000, raise_ops=False,
                    dedup=400, quiet=True, once=(obj,),
                    opaque=tuple(sorted(opq)))
    if r is None:
        return
    ctx.count('runs_with_2_parameters')
    for p in r[1]:
        names = None
        for e in constructor_calls(p, cls):
            if names is None:
                names = Source(ctx, obj, cls, p, False).names()
            for l in e.kw:
                if l[0] != 'k' or l[1] not in names:
                    continue
                ctx.count('obligations')
                k = names[l[1]]
                ev = load_of(ctx, p, l[2])
                ts = [l[2]] if ev is None else [
                    x for x in load_args(ctx, ev) if x is not None]
                for t in ts:
                    about = {names[s] for s in subterms(t) if s in names}
                    if about and k not in about:
                        ctx.report('carried', short(q), 'a parameter gets '
                                   'what belongs to another one: %s' %
                                   short_show(t), ev=e)


OUTCOME = {'input': 'the value of its key', 'getter': 'its getter\'s result',
           'default': 'its default', 'None': 'None', 'nothing': 'nothing',
           'error': 'an error'}


def of_namedtuples(ctx):
    q = ctx.lizer_for('deserializer', 'builtins.tuple')
    obj, cls = (('sym', n) for n in first_params(ctx, q, 2))
    B = load_boundary(ctx)
    for n in (2, 1):
        r = ctx.analyse(q, 2, B, B | {'UCALL', 'RAISE'}, iters=n,
                        fallback=False, max_states=60000, raise_ops=False,
                        dedup=400, quiet=n > 1,
                        opaque=tuple(sorted(set(cached(ctx)) - B)))
        if r is not None:
            break
    else:
        return
    seen = run(ctx, q, obj, cls, r[1], True)
    for what in ('input', 'default', 'error'):
        if what not in seen:
            ctx.report('never', '%s/%s' % (short(q), what), '%s: no '
                       'field gets %s' % (short(q), OUTCOME[what]),
                       ev=place(ctx, q))


def run(ctx, q, obj, cls, paths, named):
    seen = set()
    built = 0
    for p in paths:
        src = Source(ctx, obj, cls, p, named)
        names = src.names()
        if named:
            pairing(ctx, q, src)
        if p.ctl == 'X':
            k = missing(ctx, p.val)
            if k is not None:
                seen.add('error')
                error(ctx, q, src, p, names.get(k, k), names)
            continue
        for e in constructor_calls(p, cls):
            built += 1
            if named:
                fields(ctx, q, src, p, e, names, seen)
            else:
                call(ctx, q, src, p, e, names, seen)
            ctx.count('constructor_calls')
            if p.val != e.res and not unknown(p.val) and not contains(
                    p.val, e.res):
                ctx.report('result', short(q), '%s returns %s instead of '
                           'the instance' % (short(q), short_show(p.val)),
                           ev=e)
    ctx.require(built, '%s: the class is never called' % short(q))
    return seen


def pairing(ctx, q, src):
    """Positions of a list belong to the fields in order."""
    for e in src.p.events:
        for a in list(e.args) + [l[2] for l in e.kw if l[0] == 'k']:
            for s in subterms(a):
                if s[0] != 'call' or s[1] != ('ext', 'builtins.zip') or \
                        len(s[2]) != 2:
                    continue
                f, v = s[2]
                if not contains(f, ('attr', src.cls, '_fields')) or \
                        not src.of_input(v):
                    continue
                ctx.count('obligations')
                if not src.is_params(plain(f)) or plain(v) != src.obj:
                    ctx.report('pairing', short(q), 'the values of a list '
                               'are paired as %s' % short_show(s), ev=e)


def plain(t):
    while t[0] == 'call' and t[1] in (
            ('ext', 'builtins.list'), ('ext', 'builtins.tuple'),
            ('ext', 'builtins.iter')) and len(t[2]) == 1:
        t = t[2][0]
    return t


def missing(ctx, t):
    """The name in an error for a parameter without a value."""
    if t[0] != 'new' or not any(
            k and k[0] == 'class' and short(k[1].qual) ==
            'UnfulfilledArgumentError'
            for k in ctx.prog.mro(ctx.prog.classes[t[1]])):
        return None
    from .c11 import bind
    b = bind(ctx, t)
    return b.get('argument', ()) if b else ()


def error(ctx, q, src, p, k, names):
    if k not in names and k not in names.values():
        ctx.undecide('%s: the error names %s' % (short(q), short_show(
            k) if k else '?'))
        return
    facts = p.facts
    ctx.count('obligations')
    ev = next((e for e in reversed(p.events) if e.kind == 'raise'),
              None) or place(ctx, q)
    if src.named:
        has = in_input(src, facts, k, names)
        if none_in_input(src, facts, k, names):
            has = True
        elif has is not False:
            ctx.report('error', short(q), 'a field is called missing '
                       'although the input has it', ev=ev)
        if has is not True and has_default(src, facts, k,
                                             names) is not False:
            ctx.report('error', short(q) + '/default', 'a field is called '
                       'missing although it may have a default', ev=ev)
        return
    for f, want, what in ((in_input, False, 'be in the input'),
                          (in_getters, False, 'have a getter'),
                          (has_default, False, 'have a default'),
                          (variadic, False, 'be variadic')):
        if f(src, facts, k, names) is not want:
            ctx.report('error', '%s/%s' % (short(q), f.__name__),
                       'a parameter is called missing although it may ' +
                       what, ev=ev)


def none_in_input(src, facts, k, names):
    return any(c[0] == 'isnone' and v and value_of_input(
        src, c[1], k, names) for c, v in facts.items())


def value_of_input(src, t, k, names):
    """t is the value that the input has for the parameter."""
    if t[0] in ('item', 'get', 'lookup'):
        return src.of_input(t[1]) and same(src, t[2], k, names)
    if t[0] == 'elem' and src.named:
        return src.of_input(t[1]) and t[2] == k[2] if k[0] == 'elem' \
            else False
    # The value of the entry whose transformed key is the parameter.
    return False


def call(ctx, q, src, p, e, names, seen):
    facts = e.facts
    params = set(names.values())
    given = {}
    for l in e.kw:
        if l[0] != 'k':
            ctx.undecide('%s: the arguments of the class include %s' % (
                short(q), short_show(l[1]) if len(l) > 1 else '?'))
            return
        k = names.get(l[1])
        if k is None:
            if l[1][0] == 'c' or not unknown(l[1]):
                ctx.report('name', short(q), 'an argument is passed under '
                           'the name %s' % short_show(l[1]), ev=e)
            continue
        given[k] = l[2]
    if e.args:
        ctx.undecide('%s passes arguments by position' % short(q))
        return
    for k in sorted(params, key=repr):
        ctx.count('obligations')
        if k in given:
            seen.add(value(ctx, q, src, p, e, facts, k, names, given[k]))
        elif not is_self(src, facts, k, names) and not any(
                (c[0] == 'truth' and not v or c[0] == 'isnone' and v) and
                names.get(c[1]) == k
                for c, v in facts.items()):     # names are not empty
            if variadic(src, facts, k, names) is True and \
                    has_value(src, facts, k, names) is not True:
                seen.add('nothing')
            else:
                ctx.report('nothing', short(q), 'the class is called '
                           'without an argument for a parameter', ev=e)


def has_value(src, facts, k, names):
    return in_input(src, facts, k, names) or in_getters(
        src, facts, k, names) or has_default(src, facts, k, names)


def fields(ctx, q, src, p, e, names, seen):
    """The fields of a named tuple are passed in order."""
    order = sorted(set(names.values()), key=lambda k: k[2])
    loops = [u.args[0][2] for u in p.events if u.kind == 'loop' and
             u.args[1] == const('exhausted') and src.is_params(u.callee)]
    if loops:       # a loop over something else may have gone further
        order = order[:max(loops)]
    args = list(e.args)
    if any(a[0] == '*' for a in args):
        ctx.undecide('%s: arguments %s' % (short(q), short_show(args[0])))
        return
    given = {}
    for l in e.kw:
        if l[0] != 'k' or names.get(l[1]) is None:
            ctx.undecide('%s: keyword arguments of the class' % short(q))
            return
        given[names[l[1]]] = l[2]
    rest = [k for k in order if k not in given]
    if len(rest) != len(args):
        ctx.report('nothing', short(q), '%d of %d fields are passed to the '
                   'class' % (len(args) + len(given), len(order)), ev=e)
        return
    for k, v in list(zip(rest, args)) + list(given.items()):
        ctx.count('obligations')
        seen.add(value(ctx, q, src, p, e, e.facts, k, names, v))


def value(ctx, q, src, p, e, facts, k, names, v):
    """Judge value v that is passed for parameter k; what it is."""
    has = in_input(src, facts, k, names)
    get = in_getters(src, facts, k, names)
    dflt = has_default(src, facts, k, names)

    def late(known, what, wanted=False):
        if known is not wanted:
            ctx.report('order', '%s/%s' % (short(q), what), '%s passes %s '
                       'for a parameter although %s may come first' % (
                           short(q), short_show(v, 60), what), ev=e)
    l = load_of(ctx, p, v)
    if l is not None:
        j, c = load_args(ctx, l)
        if j is None or unknown(j):
            ctx.undecide('%s loads %s' % (short(q), short_show(j or NONE)))
        elif value_of_input(src, j, k, names) or j == NONE and src.named:
            if src.named and has is not True and (
                    j == NONE or j[0] == 'get'):
                late(dflt, 'the default')
            return 'input'
        elif transformed(src, p, j, k, names):
            return 'input'
        else:
            ctx.report('other', short(q), 'a parameter gets the loaded '
                       'value of %s' % short_show(j), ev=e)
        return 'input'
    if v[0] == 'evt' and getter_of(src, v[2], k, names):
        late(has, 'the input')
        return 'getter'
    if default_of(src, v, k, names):
        late(has, 'the input')
        if not src.named:
            late(get, 'the getter')
        late(dflt, 'the absence of a default', True)
        return 'default'
    if is_none(facts, v):
        late(has, 'the input')
        late(get, 'the getter')
        late(dflt, 'the default')
        if variadic(src, facts, k, names) is not False:
            ctx.report('variadic', short(q), 'None is passed for a variadic '
                       'parameter', ev=e)
        return 'None'
    if unknown(v):
        ctx.undecide('%s passes %s' % (short(q), short_show(v)))
    elif value_of_input(src, v, k, names):
        ctx.report('raw', short(q), 'a parameter gets the value of the input '
                   'without loading it', ev=e)
    else:
        ctx.report('other', short(q), 'a parameter gets %s' % short_show(v),
                   ev=e)
    return None


def transformed(src, p, j, k, names):
    """j is the value of an entry whose (transformed) key is k."""
    if j[0] not in ('item', 'elem') or not src.of_input(j):
        return False
    key = j[2] if j[0] == 'item' else None
    res = {u.res for u in p.events if u.kind == 'ucall' and key in u.args}
    for c, v in p.facts.items():
        if v and c[0] in ('eq', 'is') and (key in c[1:] or any(
                x in res for x in c[1:])):
            if any(same(src, x, k, names) for x in c[1:]):
                return True
    return False
