"""A failing part loses only itself, and never silently. The default
(de)serializers are executed abstractly with every dump or load of a part also
failing. On each path where the error of a part is caught, what follows is
judged: in a strict dump (or a load without warn_on_fail) an error must be
raised; otherwise a warning must be given that names the attribute or index,
the failed part must not be stored, and the other parts must still be handled
and stored. An error that would have to be caught must not escape."""
from ..objects import *
from .c01 import state_attrs

# option of the deserializers that turns errors into warnings / of the
# serializers that turns warnings into errors
LENIENT, STRICT = entry_opt('warn_on_fail'), entry_opt('strict')


def check(ctx):
    ctx.rule('the error of a part is raised, or a warning names the part, '
             'nothing is stored for it and the others are stored')
    so = ctx.lizer_for('serializer', 'builtins.object')
    dl = ctx.lizer_for('deserializer', 'builtins.list')
    union = {ctx.lizer_for(k, 'typing.Union')
             for k in ('serializer', 'deserializer')}
    iters = 3 if ctx.tier == 'thorough' else 2
    for kind in ('serializer', 'deserializer'):
        for q in ctx.lizers(kind):
            if q in union:
                continue        # its errors are its way of choosing (C25)
            r = parts_run(ctx, q, kind, iters if q in (so, dl) else 1,
                          more={'RAISE'} if q == dl else ())
            if r is None:
                continue
            n = 0
            for p in r[1]:
                n += path(ctx, q, kind, p, q in (so, dl))
            if q in (so, dl):
                ctx.require(n, '%s handles no failing part' % q)
    tasks(ctx, dl)


def path(ctx, q, kind, p, lenient):
    n = 0
    strict = strictness(ctx, kind, p)
    att = part_attempts(ctx, kind, p)
    warned = warnings_of(ctx, p)
    for i, e in enumerate(att):
        c = caught_of(p, e)
        part = e.args[0] if e.args else None
        what = part_name(part)
        if c is None:
            # not caught: it ended the path, or it succeeded
            if p.ctl == 'X' and p.val[0] == 'exc' and p.val[1] == e.n:
                if lenient and strict is False and ordinary(ctx, kind, p, e):
                    ctx.report('escape', '%s@%s' % (short(q), e.func),
                               'the error of a part ends %s although it '
                               'should only lose that part' % short(q), ev=e)
            continue
        if part == ('sym', first_params(ctx, q, 1)[0]):
            continue            # the whole value, tried in one way of several
        n += 1
        ctx.count('caught_parts')
        again = [a for a in att[i + 1:] if a.args and a.args[0] == part]
        if again:
            continue            # it is tried in another way
        raised = p.ctl == 'X' and (
            p.val == c.callee or p.val[0] != 'exc' or
            not any(p.val[1] == a.n for a in att[i + 1:]))
        if strict is not False:
            if not raised and not ordinary_end(p, att, i):
                if strict is True or not names_it(ctx, warned, what, c, p):
                    ctx.report('silent', '%s@%s' % (short(q), c.func),
                               'the error of a part is caught by %s, which '
                               'goes on without raising it%s' % (
                                   short(q), ' although it is strict'
                                   if strict else ' or warning of it'), ev=c)
            elif raised and kind == 'deserializer' and lenient and \
                    p.val[0] == 'new' and not mentions(p.val, what):
                ctx.report('index', '%s@%s' % (short(q), c.func),
                           'the error raised for an element does not name '
                           'its index', ev=c)
            continue
        if raised:
            if lenient:
                ctx.report('escape', '%s@%s' % (short(q), c.func),
                           'the error of a part ends %s although it should '
                           'only lose that part' % short(q), ev=c)
            continue
        if not names_it(ctx, warned, what, c, p):
            ctx.report('silent', '%s@%s' % (short(q), c.func),
                       'a failing part is left out by %s without a warning '
                       'that names it' % short(q), ev=c)
        stored_for_failed(ctx, q, p, what, c)
        stopped(ctx, q, p, e, c)
    if lenient and p.ctl == 'N' and any(caught_of(p, e) for e in att):
        extras(ctx, q, p, att)
        for e in att:
            if caught_of(p, e) is None and not stored(ctx, p, e.res):
                ctx.report('lost', '%s@%s' % (short(q), e.func),
                           'a part that was handled by %s is lost when '
                           'another one fails' % short(q), ev=e)
    return n


def strictness(ctx, kind, p):
    """True: errors must be raised; False: must not; None: not known."""
    o = STRICT if kind == 'serializer' else LENIENT
    v = p.facts.get(('truth', o))
    if v is None and p.facts.get(('isnone', o)):
        v = False
    for c, b in p.facts.items():
        if b and c[0] in ('is', 'eq') and c[1] == o and c[2][0] == 'c':
            v = bool(c[2][2])
    if v is None:
        return None
    return v if kind == 'serializer' else not v


def ordinary(ctx, kind, p, e):
    """The error of e may be one that should have been caught."""
    exc = p.val
    ts = [('ext', 'builtins.Exception')] if kind == 'serializer' else \
        [('cls', ctx.cls('DeserializationError'))]
    for t in ts:
        if p.facts.get(('isinst', exc, t)) is False:
            return False
    return True


def ordinary_end(p, att, i):
    """The path ended with the (uncaught) error of a later part."""
    return p.ctl == 'X' and p.val[0] == 'exc' and any(
        p.val[1] == a.n for a in att[i + 1:])


def part_name(part):
    """Terms that name a part: its attribute name, key or index."""
    out = set()
    if part is None:
        return out
    if part[0] == 'call' and part[1] == ('ext', 'builtins.getattr') and \
            len(part[2]) > 1:
        out.add(part[2][1])
    elif part[0] == 'elem':
        out.add(('idx', part[1], part[2]))
        if isinstance(part[2], int):
            out.add(const(part[2]))
    elif part[0] in ('item', 'idx'):
        out.add(part[2])
    elif part[0] == 'attr':
        out.add(const(part[2]))
    return out


def mentions(t, names):
    """A text or error t is made with one of the names."""
    if not names:
        return True
    if t in names or t[0] == 'idx' and any(
            x[0] == 'idx' and x[2] == t[2] for x in names):
        return True
    if t[0] == 'c' and isinstance(t[2], str):
        return any(x[0] == 'c' and isinstance(x[2], int) and
                   str(x[2]) in t[2] for x in names)
    if t[0] == 'fmt':
        parts = t[1]
    elif t[0] == 'bin':
        parts = t[2:]
    elif t[0] == 'tup':
        parts = t[1]
    elif t[0] == 'L':
        parts = t[3]
    elif t[0] == 'D':
        parts = [l[2] for l in t[2] if l[0] == 'k']
    elif t[0] in ('new', 'mcall', 'call'):
        if t[0] == 'call' and t[1] not in [
                ('ext', 'builtins.' + x) for x in (
                    'str', 'repr', 'format', 'ascii', 'int')]:
            return False
        parts = list(t[-2]) + [l[2] for l in t[-1] if l[0] == 'k']
        if t[0] == 'mcall':
            if t[2] not in ('format', 'join', 'format_map'):
                return False
            parts.append(t[1])
    else:
        return False
    return any(mentions(x, names) for x in parts if isinstance(x, tuple))


def names_it(ctx, warned, what, c, p):
    for e, args in warned:
        if after(p, c, e) and any(mentions(a, what) for a in args):
            return True
    attrs = state_attrs(ctx)
    for f in p.facts:
        if any(s[0] == 'attr' and s[2] in attrs and 'suppress' in s[2]
               for x in f[1:] for s in subterms(x)):
            return True         # the warning is suppressed
    return False


def after(p, c, e):
    at = {id(x): i for i, x in enumerate(p.events)}
    return c is None or at[id(e)] > at[id(c)]


def stored_for_failed(ctx, q, p, what, c):
    keys = {w for w in what if w[0] not in ('idx', 'c')}
    for e in p.events:
        if after(p, c, e) and e.kind == 'setitem' and e.args and \
                e.args[0] in keys and len(e.args) > 1:
            ctx.report('stored', '%s@%s' % (short(q), e.func),
                       '%s stores %s for a part that failed' % (
                           short(q), short_show(e.args[1])), ev=e)


def extras(ctx, q, p, att):
    """Nothing stands in the result for a part that failed."""
    good = [e.res for e in att if caught_of(p, e) is None]
    if p.val[0] == 'L':
        items = p.val[3]
    elif p.val[0] == 'D':
        items = [l[2] for l in p.val[2] if l[0] == 'k' and l[1][0] != 'c']
    else:
        return
    for x in items:
        if x[0] != '*' and not any(contains(x, g) for g in good):
            ctx.report('stored', short(q) + '/extra', '%s puts %s in the '
                       'place of a part that failed' % (
                           short(q), short_show(x)), ev=place(ctx, q))


def stopped(ctx, q, p, e, c):
    """The loop over the parts goes on after the failure."""
    for l in p.events:
        if l.kind == 'loop' and after(p, c, l) and len(l.args) > 1 and \
                l.args[1] in (const('break'), const('return')) and any(
                    x[0] == (l.extra or (None,))[0] for x in e.loops):
            ctx.report('stop', '%s@%s' % (short(q), c.func),
                       '%s handles no further parts after one has failed' %
                       short(q), ev=c)


def stored(ctx, p, res):
    if contains(p.val, res):
        return True
    if is_none(p.facts, res):
        return True             # may be left out by strip_nulls
    for e in p.events:
        if e.kind in ('setitem', 'append', 'mut') and any(
                contains(a, res) for a in e.args):
            return True
        if e.kind in ('call', 'opaque', 'ucall') and e.res != res and any(
                contains(a, res) for a in e.args) and e.kind != 'caught':
            return True
    return False


def tasks(ctx, dl):
    """Elements that failed in a task are treated like those that failed in
    the loop."""
    helpers = task_helpers(ctx)
    r = parts_run(ctx, dl, 'deserializer', 2, more={'RAISE'})
    if r is None:
        return
    markers = set()
    for p in r[1]:
        for c, v in p.facts.items():
            if c[0] == 'isinst' and v and c[1][0] in ('elem', 'item') and \
                    c[2][0] == 'cls' and any(
                        s[0] == 'evt' and s[2][0] == 'func' and
                        s[2][1] in helpers for s in subterms(c[1])):
                markers.add(c[2])
                failed_task(ctx, dl, p, c)
    ctx.require(markers or not helpers, 'failures in tasks are never '
                'looked for')


def failed_task(ctx, q, p, c):
    ctx.count('failed_tasks')
    strict = strictness(ctx, 'deserializer', p)
    what = part_name(c[1])
    warned = [a for _, args in warnings_of(ctx, p) for a in args]
    err = ('attr', c[1], 'error')
    library = p.facts.get(
        ('isinst', err, ('cls', ctx.cls('DeserializationError'))))
    pl = place(ctx, q)
    if p.ctl == 'N':
        if strict is True:
            ctx.report('silent', short(q) + '/task', '%s returns although '
                       'an element failed in a task' % short(q), ev=pl)
        elif not any(mentions(a, what) for a in warned) and not \
                names_it(ctx, [], what, None, p):
            ctx.report('silent', short(q) + '/task', 'an element that failed '
                       'in a task is left out by %s without a warning that '
                       'names it' % short(q), ev=pl)
        elif contains(p.val, c[1]):
            ctx.report('stored', short(q) + '/task', '%s returns the marker '
                       'of a failure as an element' % short(q), ev=pl)
    elif p.val[0] == 'new' and library is True and not mentions(p.val, what):
        ctx.report('index', short(q) + '/task', 'the error raised for an '
                   'element does not name its index', ev=pl)
    elif strict is False and library is True and not any(
            v and k[0] == 'isinst' and k != c and k[2] == c[2]
            for k, v in p.facts.items()):
        ctx.report('escape', short(q) + '/task', 'the error of an element '
                   'that failed in a task ends %s although it should only '
                   'lose that element' % short(q), ev=pl)
