"""Runs of the writers and readers of dates on values and texts of known
shape."""
from .objects import *
from .shapes import *

OTHER = Str(('\x01',))              # a name that is none of the known ones
FIELDS = {'datetime': DATE + TIME, 'date': DATE, 'time': TIME}
A = Lin({'A': 1})


def fields_of(kind, micro):
    f = {n: Lin({n: 1}) for n in FIELDS[kind]}
    if 'microsecond' in f:
        f['microsecond'] = Lin({'usec': 1}) if micro else num(0)
    return f


def offsets():
    """(description, tzinfo, local zone, offset) of the kinds of datetimes."""
    out = [('in UTC', Tz(num(0), name=text('UTC')), num(0))]
    for s, o in (('with offset 0', num(0)), ('with a positive offset', A),
                 ('with a negative offset', A.times(-1))):
        out.append((s + ' named by the user', Tz(o, name=OTHER), o))
        out.append((s + ' that depends on the date',
                    Tz(None, at=o, name=None), o))
        if o.const() is None:
            out.append((s + ' that is named UTC',
                        Tz(o, name=text('UTC')), o))
            out.append((s + ' that is named UTC+00:00',
                        Tz(o, name=text('UTC+00:00')), o))
    out = [(d, tz, None, o) for d, tz, o in out]
    for s, o in (('0', num(0)), ('positive', A), ('negative', A.times(-1))):
        out.append(('without time zone, the local offset is ' + s, None,
                    Tz(o, name=OTHER), o))
    return out


def runs(ctx, kind, dotted):
    q = ctx.lizer_for(kind, dotted)
    r = ctx.analyse(q, 1 if kind == 'serializer' else 2,
                    part_boundary(ctx), iters=1, fallback=False, dedup=400,
                    ext_raise=False, raise_ops=False, inline_all=True)
    if r is None:
        return q, None, None
    return q, first_params(ctx, q, 1)[0], r[1]


def evaluate(ctx, paths, env, local=None):
    """[(path, value)] of the feasible paths for an input."""
    out = []
    for p in paths:
        e = Eval(env, local)
        if not e.feasible(p.facts):
            continue
        ctx.count('feasible_paths')
        sure = all(e.holds(c, v) for c, v in p.facts.items())
        if p.ctl == 'N':
            out.append((p, e.ev(p.val)))
        elif sure:
            out.append((p, Error('an error is raised')))
    return out


def text_of(kind, micro, suffix=()):
    f = fields_of(kind, micro)
    out = ()
    if kind in ('date', 'datetime'):
        out += strftime(Dt('date', f), text('%Y-%m-%d')).c
    if kind == 'datetime':
        out += ('T',)
    if kind in ('time', 'datetime'):
        out += strftime(Dt('time', f), text(
            '%H:%M:%S' + ('.%f' if micro else ''))).c
    return Str(out + tuple(suffix))


def own_cells(s, f):
    """Number of cells up to the last one made of the value's own fields."""
    keys = {v.key() for v in f.values()}
    n = 0
    for i, x in enumerate(s.c):
        if isinstance(x, tuple) and x[0] in keys or \
                isinstance(x, str) and x[0] == '\x00':
            n = i + 1
    return n
