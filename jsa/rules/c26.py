"""Signs and sizes of UTC offsets. The serializer of datetimes is executed
abstractly and the text it returns is computed cell by cell for every kind of
offset (UTC, zero, positive, negative, fixed, named UTC, depending on the
date, local), where the size of the offset is unknown: hours and minutes are
linear forms over floor(A / k) of the absolute number of seconds A. The
deserializer is executed on the texts with Z, + and - and digits that are
unknown; the offset of the datetime it returns must be the linear form that
the text denotes."""
from ..dates import *


def check(ctx):
    ctx.rule('the written offset has the sign of the UTC offset and the hours '
             'and minutes of its absolute value')
    ctx.rule('Z is written for a zero offset only')
    ctx.rule('Z is read as UTC, a sign is applied to the hours and the '
             'minutes')
    writer(ctx)
    reader(ctx)


def writer(ctx):
    q, name, paths = runs(ctx, 'serializer', 'datetime.datetime')
    ctx.require(paths is not None, 'the writer of datetimes was not analysed')
    ctx.count('paths', len(paths))
    for what, tz, local, off in offsets():
        for micro in (False, True):
            f = fields_of('datetime', micro)
            d = Dt('datetime', f, tz)
            res = evaluate(ctx, paths, {('sym', name): d}, local)
            ctx.count('cases')
            if not res:
                ctx.undecide('no path of %s for a datetime %s' % (
                    short(q), what))
            for p, v in res:
                ctx.count('obligations')
                written(ctx, q, p, v, what, off, f)


def written(ctx, q, p, v, what, off, f):
    ev = p.events[-1] if p.events else place(ctx, q)
    if isinstance(v, Error):
        ctx.report('write', short(q), 'a datetime %s cannot be written: %s'
                   % (what, v.why), ev=place(ctx, q))
        return
    if not isinstance(v, Str):
        ctx.undecide('%s of a datetime %s: %s' % (short(q), what,
                                                  short_show(p.val)))
        return
    s = v.c[own_cells(v, f):]
    if s[:1] == ('.',):
        s = s[1:]
        while s[:1] == ('0',):
            s = s[1:]
    got = meaning(s)
    if got is None:
        ctx.report('write', short(q), 'the offset of a datetime %s is '
                   'written as %r' % (what, Str(s)), ev=place(ctx, q))
        return
    sign, hrs, mins = got
    neg = off.bounds()[1] < 0
    a = off.times(-1) if neg else off
    want = ('-' if neg else '+', floordiv(a, num(3600)),
            floordiv(mod(a, num(3600)), num(60)))
    if s == ('Z',) and off.const() == 0:
        return
    if s == ('Z',):
        ctx.report('z', short(q), 'a datetime %s is written with Z' % what,
                   ev=place(ctx, q))
    elif sign != want[0]:
        ctx.report('sign', short(q), 'the offset of a datetime %s is '
                   'written with the sign %s' % (what, sign),
                   ev=place(ctx, q))
    elif hrs != want[1]:
        ctx.report('hours', short(q), 'the hours of the offset of a '
                   'datetime %s are written as %r' % (what, hrs),
                   ev=place(ctx, q))
    elif mins != want[2]:
        ctx.report('minutes', short(q), 'the minutes of the offset of a '
                   'datetime %s are written as %r' % (what, mins),
                   ev=place(ctx, q))


def meaning(s):
    """(sign, hours, minutes) of the text of an offset."""
    if s == ('Z',):
        return '+', num(0), num(0)
    if len(s) == 6 and s[0] in ('+', '-') and s[3] == ':':
        h, m = number(Str(s[1:3])), number(Str(s[4:6]))
        if isinstance(h, Lin) and isinstance(m, Lin):
            return s[0], h, m
    return None


def reader(ctx):
    q, name, paths = runs(ctx, 'deserializer', 'datetime.datetime')
    ctx.require(paths is not None, 'the reader of datetimes was not analysed')
    ctx.count('paths', len(paths))
    h, m = Lin({'oh': 1}), Lin({'om': 1})
    o = digits(h, 2).c + (':',) + digits(m, 2).c
    off = h.times(3600).add(m.times(60))
    for suffix, want in ((('Z',), num(0)), (('+',) + o, off),
                         (('-',) + o, off.times(-1))):
        for micro in (False, True):
            s = text_of('datetime', micro, suffix)
            ctx.count('cases')
            res = evaluate(ctx, paths, {('sym', name): s})
            if not res:
                ctx.undecide('no path of %s for %r' % (short(q), s))
            for p, v in res:
                ctx.count('obligations')
                ev = p.events[-1] if p.events else place(ctx, q)
                if isinstance(v, Error):
                    ctx.report('read', short(q), 'the text %r cannot be '
                               'read: %s' % (s, v.why), ev=place(ctx, q))
                elif not isinstance(v, Dt) or v.tz is UNKNOWN:
                    ctx.undecide('%s of %r: %s' % (short(q), s,
                                                   short_show(p.val)))
                elif v.tz is None:
                    ctx.report('read', short(q), 'the offset of %r is '
                               'ignored' % s, ev=place(ctx, q))
                elif v.tz.at != want:
                    ctx.report('read', short(q), 'the offset of %r is read '
                               'as %r seconds' % (s, v.tz.at),
                               ev=place(ctx, q))
