"""A union takes its first member, left to right, that fits. The default
union serializer and deserializer are executed abstractly. The attempts of a
path are its nested dumps or loads; the members are the type parameters of the
given union, read directly and uncached from the class. On every path the k-th
attempt is made with the k-th member, it is made only after all earlier ones
failed, the result of the first attempt that succeeds is what is returned, an
attempt that fails with an error of the library is not raised while members
are left, and the final error is raised only when the members are used up."""
from ..objects import *
from ..caching import cached

PARAMS = ('__args__', '__union_params__')


def check(ctx):
    ctx.rule('attempt k of a union uses member k of the parameters as '
             'written; the first result is returned, failures are skipped')
    for kind in ('serializer', 'deserializer'):
        q = ctx.lizer_for(kind, 'typing.Union')
        union(ctx, kind, q)


def union(ctx, kind, q):
    B = ctx.api('load', 'dump', 'get_serializer', 'get_deserializer')
    r = None
    for iters in ((3, 2, 1) if ctx.tier == 'thorough' else (2, 1)):
        r = ctx.analyse(q, 2, B, B | {'RAISE', 'UCALL'}, fallback=False,
                        iters=iters, dedup=400, max_states=20000, quiet=True)
        if r is not None:
            break
    if r is None:
        return ctx.undecide('%s: state budget exceeded' % q)
    it, paths = r
    obj, cls = (('sym', n) for n in first_params(ctx, q, 2))
    if kind == 'serializer':
        cls = ('sym', 'cls') if cls[1] != 'cls' else cls
    line = ctx.prog.functions[q].node.lineno
    place = Place(q, line)
    work = 0
    for p in paths:
        ctx.count('paths')
        att = attempts(ctx, p)
        work += len(att)
        failed, result = [], None
        for k, e in enumerate(att):
            src, i = member(ctx, e, cls)
            if src is None:
                ctx.report('member', '%s/%s' % (short(q), 'source'),
                           'an attempt of %s uses %s, which is no member of '
                           'the union as written' % (short(q), show(
                               type_of(ctx, e) or NONE)), ev=e)
                continue
            ctx.count('obligations')
            if e.args and e.args[0] != obj:
                ctx.report('value', short(q), 'an attempt of %s is made with '
                           '%s instead of the value' % (
                               short(q), short_show(e.args[0])), ev=e)
            if i is None:
                ctx.note('%s: the index of an attempt is not known' % q)
            elif i != k and not skipped(e, src, i, k, obj):
                ctx.report('order', short(q), 'attempt %d of %s uses member '
                           '%s of the union' % (k + 1, short(q), i + 1), ev=e)
            if result is None:
                if caught(p, e):
                    failed.append(e)
                elif not (p.ctl == 'X' and p.val[0] == 'exc' and
                          p.val[1] == exc_of(e)):
                    result = e
            elif k:
                ctx.report('again', short(q), '%s goes on to another member '
                           'after one has fitted' % short(q), ev=e)
        ctx.count('obligations')
        if p.ctl == 'N':
            if result is not None:
                if p.val != result.res:
                    ctx.report('result', short(q), '%s returns %s although '
                               'an attempt succeeded' % (
                                   short(q), short_show(p.val)), ev=result)
            elif not shortcut(p, obj, cls):
                ctx.report('result', short(q) + '/none', '%s returns %s '
                           'although no attempt succeeded' % (
                               short(q), short_show(p.val)), ev=place)
            continue
        if p.val[0] == 'exc' and att and any(
                p.val[1] == exc_of(e) for e in att):
            e = [e for e in att if p.val[1] == exc_of(e)][0]
            if library(ctx, p, p.val) and not exhausted(p, att):
                ctx.report('skip', short(q), 'the error of a member is '
                           'raised by %s while members are left' % short(q),
                           ev=e)
            continue
        if p.val[0] != 'new':
            continue
        if result is not None:
            ctx.report('error', short(q), '%s raises %s although an attempt '
                       'succeeded' % (short(q), short(p.val[1])), ev=result)
        elif not exhausted(p, att):
            ctx.report('early', short(q), '%s gives up before all members '
                       'have been tried' % short(q), ev=place)
        elif not is_package_error(ctx, p.val):
            ctx.report('error', short(q) + '/type', '%s fails with %s' % (
                short(q), short_show(p.val)), ev=place)
    ctx.require(work, '%s makes no attempts' % q)


class Place:
    def __init__(self, func, line):
        self.func, self.line = func, line


def attempts(ctx, p):
    fns = ctx.api('load', 'dump')
    return [e for e in p.events if ctx.is_call(e, fns) or
            e.kind == 'ucall' and is_lizer_result(ctx, e.callee)]


def type_of(ctx, e):
    c = lookup(e, 'cls', params_of(ctx, e))
    if c is None and e.kind == 'ucall' and len(e.args) > 1:
        return e.args[1]
    return c[1] if c else None


def exc_of(e):
    return e.n


def caught(p, e):
    return any(c.kind == 'caught' and c.callee[0] == 'exc' and
               c.callee[1] == exc_of(e) for c in p.events)


def library(ctx, p, exc):
    T = ('cls', ctx.cls('JsonsError'))
    return p.facts.get(('isinst', exc, T)) is not False


def exhausted(p, att):
    """The loops that made the attempts ran to their end."""
    ends = [e for e in p.events if e.kind == 'loop' and e.args and
            len(e.args) > 1]
    if not ends:
        # no loop over a collection: counting by hand is not followed
        return True
    for e in ends:
        n, how = e.args[0], e.args[1]
        if how != const('exhausted'):
            return False
    return True


def skipped(e, src, i, k, obj):
    """Members before i were left out for a reason that makes them fail."""
    if i is None or i < k:
        return False
    left = 0
    for j in range(i):
        for t in (('elem', src, j), ('item', src, const(j))):
            for c, v in e.facts.items():
                if v and c[0] in ('eq', 'is') and t in c[1:] and \
                        ('ext', 'builtins.NoneType') in c[1:] and \
                        e.facts.get(('isnone', obj)) is False:
                    left += 1
    return left == i - k


def shortcut(p, obj, cls):
    """None for a union that has None among its members."""
    return is_none(p.facts, obj) and (p.val == obj or p.val == NONE) and any(
        v and c[0] in ('in', 'eq', 'is') and
        ('ext', 'builtins.NoneType') in c[1:] for c, v in p.facts.items())


def member(ctx, e, cls):
    """(source, index) of the member an attempt is made with."""
    t = type_of(ctx, e)
    if t is None or t[0] not in ('elem', 'item'):
        return None, None
    i = t[2]
    if t[0] == 'item':
        if i[0] != 'c' or not isinstance(i[2], int):
            return (t[1], None) if written(ctx, t[1], cls) else (None, None)
        i = i[2]
    src = t[1]
    while src[0] == 'call' and src[1] in (
            ('ext', 'builtins.list'), ('ext', 'builtins.tuple'),
            ('ext', 'builtins.iter')) and len(src[2]) == 1:
        src = src[2][0]
    if not written(ctx, src, cls):
        return None, None
    return t[1], i


def written(ctx, t, cls, seen=()):
    """t denotes the type parameters of cls in the order written."""
    if t[0] == 'bin' and t[1] == 'or':
        return written(ctx, t[2], cls) and written_or_empty(ctx, t[3], cls)
    if t[0] == 'attr' and t[2] in PARAMS:
        return t[1] == cls
    if t[0] == 'call' and t[1] == ('ext', 'typing.get_args'):
        return bool(t[2]) and t[2][0] == cls
    if t[0] == 'call' and t[1] == ('ext', 'builtins.getattr'):
        return len(t[2]) > 1 and t[2][0] == cls and \
            t[2][1][-1] in PARAMS and (
                len(t[2]) < 3 or written_or_empty(ctx, t[2][2], cls))
    if t[0] == 'call' and t[1][0] == 'func' and \
            t[1][1] in ctx.prog.functions and t[1][1] not in seen:
        q = t[1][1]
        if q in cached(ctx):
            return False        # unions that differ in order only are equal
        key = ('written', t, cls)
        memo = ctx.prog.__dict__.setdefault('_written', {})
        if key in memo:
            return memo[key]
        it = Interp(ctx.prog, Policy(max_states=500, dedup=100))
        try:
            ps = [p for p in it.run(t[1], tuple(t[2]), tuple(t[3]))
                  if p.ctl == 'N']
        except Budget:
            ps = []
        ok = bool(ps) and all(p.val == NONE or written(
            ctx, p.val, cls, seen + (q,)) for p in ps)
        memo[key] = ok
        return ok
    return False


def written_or_empty(ctx, t, cls):
    if t == NONE or t[0] in ('tup',) and not t[1] or t[0] == 'L' and not t[3]:
        return True
    return written(ctx, t, cls)
