"""Containers keep every element, in order, exactly once. The (de)serializers
of lists, tuples, iterables and mappings are executed abstractly with none, one
and two elements (loops over the container are traced, the elements are
unknown). In the value that is returned, every element that the loop over the
container visited must be present once, in order, as the result of the dump or
load of that element, under a key made of its own key; only elements whose
attempt failed and nulls that are stripped may be absent. The loop must run
over the whole container to its end, and the container that is returned must
be of the type that was asked for."""
from ..objects import *
from .c12 import elementwise, empty

LISTS = ('builtins.list', 'typing.List', 'builtins.tuple', 'typing.Tuple',
         'typing.Iterable', 'collections.abc.Iterable', 'builtins.set',
         'typing.Set', 'collections.abc.Sequence', 'typing.Sequence')
DICTS = ('builtins.dict', 'typing.Dict', 'collections.abc.Mapping',
         'typing.Mapping', 'typing.DefaultDict', 'collections.defaultdict',
         'typing.OrderedDict', 'collections.OrderedDict')
KEYS = const('-keys')
STRIP = entry_opt('strip_nulls')


def check(ctx):
    ctx.rule('every element the loop over a container visits is dumped or '
             'loaded and occurs in the result once, in order')
    ctx.rule('loops over a container run over all of it, to the end')
    ctx.rule('the result is a container of the type that was asked for')
    n = 0
    for kind in ('serializer', 'deserializer'):
        done = set()
        for k, fn, classes, prio, e in ctx.registry():
            names = {c[1] for c in classes if c[0] == 'ext'}
            if k != kind or not names & set(LISTS + DICTS) or fn[1] in done:
                continue
            done.add(fn[1])
            n += 1
            container(ctx, kind, fn[1], names)
    ctx.require(n > 3, 'no (de)serializers of containers found')
    ctx.rule('a hash that stands for a key is no key of the container and '
             'no hash of another key')
    for k, fn, classes, prio, e in ctx.registry():
        if k == 'serializer' and {('ext', x) for x in MAPPINGS} & set(
                classes):
            unique(ctx, fn[1])


def container(ctx, kind, q, names):
    force = set()
    for _ in range(3):
        r = parts_run(ctx, q, kind, 2, force=tuple(sorted(force)))
        if r is None:
            return
        more = made_by(r[1], first_params(ctx, q, 1)[0]) - force
        if not more:
            break
        force |= more
    fp = first_params(ctx, q, 2)
    obj = ('sym', fp[0])
    cls = ('sym', fp[1]) if kind == 'deserializer' else entry_opt('cls')
    full = 0
    for p in r[1]:
        if p.ctl == 'N':
            full += path(ctx, kind, q, p, obj, cls, names)
    if not full and not delegates(ctx, kind, r[1], obj):
        ctx.report('never', short(q), 'no path of %s handles two elements '
                   'of its container' % short(q), ev=place(ctx, q))


def made_by(paths, name):
    """Functions that make what is zipped with the container."""
    out = set()
    for p in paths:
        for e in p.events:
            for t in list(e.args) + [e.callee]:
                z = zipped(t) if t else None
                if z is None or not contains(z, ('sym', name)):
                    continue
                for a in z[2]:
                    if a[0] == 'call' and a[1][0] == 'func':
                        out.add(a[1][1])
    return out


def delegates(ctx, kind, paths, obj):
    return any(e.args and e.args[0] == obj for p in paths
               for e in part_attempts(ctx, kind, p))


# -- what is iterated ----------------------------------------------------------

def whole(t, obj):
    """The collection that is iterated if all of it is, else None."""
    if t == obj or t == ('attr', obj, '_fields'):
        return t
    if t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and \
            t[2][:2] == (obj, const('_fields')):
        return t
    if t[0] == 'D':         # a copy in which hashed keys were replaced
        if any(l[0] == 'rest' and l[1] == obj for l in t[2]):
            return t
        return None
    if t[0] == 'mcall' and t[2] in ('items', 'keys', 'copy') and not t[3]:
        return whole(t[1], obj)
    if t[0] == 'view' and len(t) > 2:
        return whole(t[2], obj)
    if t[0] == 'copy':
        return whole(t[1], obj)
    if t[0] == 'call' and t[1] in (
            ('ext', 'builtins.enumerate'), ('ext', 'builtins.list'),
            ('ext', 'builtins.tuple'), ('ext', 'builtins.iter')) and t[2]:
        return whole(t[2][0], obj)
    if t[0] == 'call' and t[1] == ('ext', 'builtins.range') and \
            len(t[2]) == 1:
        x = t[2][0]
        if x[0] == 'call' and x[1] == ('ext', 'builtins.len'):
            return whole(x[2][0], obj)
    if t[0] == 'L' and len(t[3]) == 1 and t[3][0][0] == '*' and \
            t[1] in ('list', 'tuple'):
        return whole(t[3][0][1], obj)
    return None


def zipped(t):
    if t[0] == 'call' and t[1] in (
            ('ext', 'builtins.enumerate'), ('ext', 'builtins.list'),
            ('ext', 'builtins.tuple')) and t[2]:
        return zipped(t[2][0])
    if t[0] == 'L' and len(t[3]) == 1 and t[3][0][0] == '*':
        return zipped(t[3][0][1])
    return t if t[0] == 'call' and t[1] == ('ext', 'builtins.zip') else None


PICKS = {'builtins.sorted': 'sorted', 'builtins.reversed': 'reversed',
         'builtins.set': 'a set', 'builtins.frozenset': 'a set',
         'builtins.filter': 'filtered', 'itertools.islice': 'cut'}


def mangled(t, obj):
    """How a collection made of obj differs from it."""
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in PICKS and any(
            whole(a, obj) is not None for a in t[2]):
        return PICKS[t[1][1]]
    if t[0] == 'L' and t[1] in ('set', 'frozenset') and any(
            x[0] == '*' and whole(x[1], obj) is not None for x in t[3]):
        return 'a set'
    if t[0] == 'item' and whole(t[1], obj) is not None and (
            t[2][0] == 'slice' or t[2][0] == 'call' and
            t[2][1] == ('ext', 'builtins.slice')) and t[2] != FULL:
        return 'a slice'
    if t[0] == 'slice' and whole(t[1], obj) is not None and t[2:] != (
            NONE, NONE, NONE) and not (
                len(t) > 4 and t[2] in (NONE, const(0)) and t[3] == NONE and
                t[4] in (NONE, const(1))):
        return 'a slice'
    if t[0] == 'call' and t[1] in (
            ('ext', 'builtins.enumerate'), ('ext', 'builtins.list'),
            ('ext', 'builtins.tuple')) and t[2]:
        return mangled(t[2][0], obj)
    return None


FULL = ('slice', NONE, NONE, NONE)


def zip_is_complete(p, z, obj):
    """A zip of the container with something of the same length."""
    n = ('call', ('ext', 'builtins.len'), (obj,), ())
    if any(l[0] == 'k' and l[1] == const('strict') and l[2] == TRUE
           for l in z[3]):
        return True
    for a in z[2]:
        if whole(a, obj) is not None:
            continue
        if a[0] == 'call' and a[1] in (('ext', 'itertools.repeat'),
                                       ('ext', 'itertools.count'),
                                       ('ext', 'itertools.cycle')):
            continue
        if contains(a, n) or any(
                s[0] == 'bin' and s[1] == '*' for s in subterms(a)):
            continue
        la = ('call', ('ext', 'builtins.len'), (a,), ())
        if any(c[0] in ('eq', 'is') and v and {c[1], c[2]} == {la, n}
               for c, v in p.facts.items()):
            continue
        if a[0] == 'attr' and a[2] == '_fields':
            continue            # a named tuple: see C28
        if a[0] in ('tup', 'L'):
            continue            # compared in the engine, if at all
        if any(s[0] == 'havoc' for s in subterms(a)):
            continue
        cmp = [(c[0], v) for c, v in p.facts.items()
               if c[0] in ('eq', 'lt', 'gt', 'is', 'le', 'ge') and
               n in c[1:] and any(
                s[0] == 'call' and s[1] == ('ext', 'builtins.len') and
                s[2] and s[2][0] == a for x in c[1:] for s in subterms(x))]
        if any(k in ('eq', 'is') and v for k, v in cmp) or len(cmp) > 1:
            continue
        return False
    return True


# -- one path -------------------------------------------------------------------------

def path(ctx, kind, q, p, obj, cls, names):
    """True if two elements are handled on the path."""
    ctx.count('paths')
    if any(ctx.is_call(e, task_helpers(ctx)) for e in p.events):
        return tasks(ctx, kind, q, p, obj)
    att = part_attempts(ctx, kind, p)
    loops = []
    for e in p.events:
        if e.kind != 'loop' or not e.callee or not contains(e.callee, obj):
            continue
        z = zipped(e.callee)
        if z is not None:
            base = next((whole(a, obj) for a in z[2]
                         if whole(a, obj) is not None), None)
            if base is not None and not zip_is_complete(p, z, obj) and any(
                    part_index(a, base, obj) is not None for x in att
                    for a in x.args[:1]):
                ctx.report('zip', short(q), 'elements beyond the length of '
                           '%s are dropped' % short_show(z), ev=e)
        else:
            base = whole(e.callee, obj)
            m = mangled(e.callee, obj)
            if m and any(x.args and any(
                    s[0] == 'elem' and mangled(s[1], obj)
                    for s in subterms(x.args[0])) for x in att):
                ctx.report('mangled', short(q), 'the loop runs over the '
                           'container %s' % m, ev=e)
        if base is None:
            continue
        n, why = e.args[0][2], e.args[1][2]
        if why in ('break', 'return') and any(
                part_index(x.args[0], base, obj) for x in att if x.args):
            ctx.report('cut', short(q), 'the loop over the container ends '
                       'before all elements were handled', ev=e)
            return False
        loops.append((base, n, e))
    if named(att, cls) or any(
            e.kind == 'loop' and e.callee and contains(
                e.callee, ('attr', cls, '_fields')) for e in p.events):
        return False                    # a named tuple: see C28
    return result(ctx, kind, q, p, obj, cls, names, att, loops)


def named(att, cls):
    return any(s == ('attr', cls, '_fields') for e in att
               for a in e.args[:1] for s in subterms(a))


def part_index(t, base, obj):
    """('value'|'key', index) if t is a part of the container."""
    if t[0] == 'elem' and whole(t[1], obj) == base:
        return 'elem', t[2]
    if t[0] == 'elem' and t[1] == obj and base != obj and \
            whole(base, obj) == base and base[0] != 'D':
        return 'value', t[2]            # beside the name of its field
    k = None
    if t[0] in ('item', 'get', 'lookup'):
        k = t[2]
        b = whole(t[1], obj)
        if b is None and t[1][0] == 'D':
            b = base
        if b is None:
            return None
    elif t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and \
            t[2][0] == obj and len(t[2]) > 1:
        k = t[2][1]
    if k is None:
        return None
    if k[0] == 'idx' or k[0] == 'elem' and (
            whole(k[1], obj) is not None or k[1][0] == 'D'):
        return 'value', k[2]
    return None


def unwrap(p, t, cls):
    """(container term, [types it was wrapped into])"""
    if t[0] in ('L', 'D', 'tup'):
        return t, []
    if t[0] == 'evt':
        e = next((e for e in p.events if e.res == t), None)
        if e is not None and e.kind == 'ucall' and contains(
                e.callee, cls) and e.args:
            c, w = unwrap(p, e.args[-1], cls)
            return c, [e.callee] + w
        return t, []
    if t[0] == 'call' and t[1][0] == 'ext' and t[2]:
        c, w = unwrap(p, t[2][-1], cls)
        return c, [t[1]] + w
    return t, []


def result(ctx, kind, q, p, obj, cls, names, att, loops):
    c, wraps = unwrap(p, p.val, cls)
    ev = p.events[-1] if p.events else place(ctx, q)
    if c[0] == 'evt' and any(e.res == c and e.args and e.args[0] == obj
                             for e in att):
        kinds(ctx, kind, q, p, c, wraps, cls, names, ev)
        return False                    # left to the load of another type
    picked = [PICKS[w[1]] for w in wraps if w[0] == 'ext' and
              PICKS.get(w[1]) not in (None, 'a set')]
    if len(picked) == 1:
        ctx.report('mangled', short(q), 'the result is made of the elements '
                   '%s' % picked[0], ev=ev)
        return False
    for e in att:
        if e.args and e.args[0] == obj and e.res is not None and any(
                contains(x, e.res) for x in [c] + [
                    y.callee for y in p.events
                    if y.kind == 'loop' and y.callee]):
            kinds(ctx, kind, q, p, c, wraps, cls, names, ev)
            loaded(ctx, q, p, c, e.res, ev)
            return False
    if c == obj:
        ctx.report('raw', short(q), 'the container itself is returned',
                   ev=ev)
        return False
    if c[0] not in ('L', 'D', 'tup'):
        ctx.undecide('%s returns %s' % (short(q), short_show(p.val)))
        return False
    kinds(ctx, kind, q, p, c, wraps, cls, names, ev)
    bases = {}
    for b, n, e in loops:
        bases.setdefault(b, set()).add(n)
    used = [b for b in bases if any(
        part_index(e.args[0], b, obj) for e in att if e.args)] or list(bases)
    if any(len(bases[b]) > 1 for b in used):
        return False                    # two loops disagree: not feasible
    ctx.count('obligations')
    n = max([n for b in used for n in bases[b]], default=None)
    if n is None:
        if not is_empty(p.facts, obj) and c[0] != 'D':
            if (c[3] if c[0] == 'L' else c[1]) == ():
                ctx.report('dropped', short(q), 'an empty container is '
                           'returned although there may be elements', ev=ev)
        return False
    base = used[-1]
    res = {}                            # index -> results of attempts
    keyres = {}
    for e in att:
        pi = part_index(e.args[0], base, obj) if e.args else None
        if pi is None:
            continue
        bad = caught_of(p, e) is not None
        into = keyres if c[0] == 'D' and pi[0] == 'elem' else res
        into.setdefault(pi[1], []).append((e, bad))
    if c[0] == 'D':
        entries(ctx, q, p, c, n, res, obj, base, ev)
    else:
        items(ctx, q, p, list(c[3] if c[0] == 'L' else c[1]), n, res, obj,
              base, ev)
    return n == 2 and (len(res) == 2)


def loaded(ctx, q, p, c, d, ev):
    """The result c is made of d, the container loaded as another type."""
    ctx.count('obligations')
    m = mangled(c, d)
    if m:
        ctx.report('mangled', short(q), 'the result is made of the loaded '
                   'container %s' % m, ev=ev)
    if whole(c, d) is not None or c[0] not in ('L', 'D', 'tup'):
        return
    got = c[1] if c[0] == 'tup' else c[3] if c[0] == 'L' else c[2]
    if any(unknown(x) or x[0] in ('*', 'rest') for x in got):
        return
    ns = {e.args[0][2] for e in p.events
          if e.kind == 'loop' and e.callee and
          whole(e.callee, d) is not None}
    if len(ns) == 1 and len(got) < min(ns):
        ctx.report('result', short(q), 'elements of the loaded container '
                   'are not in the result', ev=ev)


def is_empty(facts, obj):
    n = ('call', ('ext', 'builtins.len'), (obj,), ())
    for c, v in facts.items():
        if c[0] == 'truth' and not v and c[1] in (obj, n):
            return True
        if c[0] in ('eq', 'is') and v and n in c[1:] and const(0) in c[1:]:
            return True
    return False


def unknown(t):
    return t[0] == '*' or any(s[0] in ('havoc', 'unknownarg')
                              for s in subterms(t))


def items(ctx, q, p, got, n, res, obj, base, ev):
    if any(unknown(x) for x in got):
        ctx.undecide('%s returns %s' % (short(q), [short_show(x)
                                                  for x in got][:2]))
        return
    ctx.count('obligations', n)
    at = 0
    for i in range(n):
        tries = res.get(i, ())
        mine = [e for e, bad in tries if not bad]
        if tries and not mine:
            continue                    # its failure was handled
        if at < len(got) and got[at] in [e.res for e in mine]:
            at += 1
            continue
        what = 'is not in the result'
        if at < len(got) and got[at] == ('elem', base, i):
            what = 'is put into the result as it is'
        elif any(got.count(e.res) for e in mine):
            what = 'is not at its place in the result'
        ctx.report('result', short(q), 'element %d of %d of the container '
                   '%s' % (i + 1, n, what), ev=ev)
        return
    if at < len(got):
        ctx.report('extra', short(q), 'the result has %d elements for a '
                   'container of %d: %s' % (len(got), n,
                                            short_show(got[at])), ev=ev)


def derives(p, t, el, depth=0):
    """t is made of el."""
    if contains(t, el):
        return True
    if depth > 4:
        return False
    if any(s[0] == 'havoc' for s in subterms(t)):
        return True                     # a hash that was made unique
    for s in subterms(t):
        if s[0] == 'evt':
            for e in p.events:
                if e.res == s and any(derives(p, a, el, depth + 1)
                                      for a in list(e.args) + [
                                          l[2] for l in e.kw
                                          if l[0] == 'k' and
                                          l[1] != const('cls')]):
                    return True
    return False


def entries(ctx, q, p, c, n, res, obj, base, ev):
    layers = list(c[2])
    for l in layers:
        if l[0] != 'k':
            ctx.report('raw', short(q), 'entries of the container are put '
                       'into the result as they are', ev=ev)
            return
    got = [(l[1], l[2]) for l in layers if l[1] != KEYS]
    ctx.count('obligations', n)
    last = -1
    used = []
    for i in range(n):
        el = ('elem', base, i)
        tries = res.get(i, ())
        mine = [e.res for e, bad in tries if not bad]
        if tries and not mine:
            continue
        pos = [j for j, (k, v) in enumerate(got) if v in mine]
        if not pos:
            if any(p.facts.get(('isnone', r)) for r in mine) and \
                    p.facts.get(('truth', STRIP)):
                continue
            if any(contains(v, el) for k, v in got):
                what = 'is put into the result as it is'
            else:
                what = 'is not in the result'
            ctx.report('result', short(q), 'entry %d of %d of the container '
                       '%s' % (i + 1, n, what), ev=ev)
            return
        used += pos
        if len(pos) > 1:
            ctx.report('twice', short(q), 'an entry of the container is in '
                       'the result more than once', ev=ev)
            return
        if pos[0] < last:
            ctx.report('order', short(q), 'the entries are not in the order '
                       'of the container', ev=ev)
            return
        last = pos[0]
        if not derives(p, got[pos[0]][0], el):
            ctx.report('key', short(q), 'the value of an entry is stored '
                       'under %s' % short_show(got[pos[0]][0]), ev=ev)
            return
    for j, (k, v) in enumerate(got):
        if j not in used:
            ctx.report('extra', short(q), 'the result has an entry %s that '
                       'is not in the container' % short_show(k), ev=ev)
            return
    if base[0] == 'D':
        hashed(ctx, q, p, base, obj, ev)


def hashed(ctx, q, p, d, obj, ev):
    """The copy of the container in which hashed keys were replaced."""
    ctx.count('obligations')
    for l in d[2]:
        if l[0] == 'k' and l[1][0] == 'evt':
            e = next((e for e in p.events if e.res == l[1]), None)
            a = e.args[0] if e is not None and e.args else None
            k = a[2] if a is not None and a[0] in ('item', 'get',
                                                   'lookup') else None
            v = l[2]
            if k is None:
                continue
            if v[0] in ('item', 'get', 'lookup') and v[2] == k:
                continue
            ctx.report('hashed', short(q), 'the key of a hash is put to '
                       'another value than that of the hash', ev=e)


MAPPINGS = ('builtins.dict', 'collections.abc.Mapping', 'typing.Mapping',
            'typing.Dict')
HASHES = ('builtins.hash', 'builtins.id')


def hash_of(t):
    """The key that t is a hash of (or a number counted up from one)."""
    while t[0] == 'bin' and t[1] in ('+', '-', '*', '^'):
        t = t[2] if hash_of(t[2]) is not None else t[3]
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in HASHES and t[2]:
        return t[2][0]
    if t[0] == 'mcall' and t[2] == '__hash__':
        return t[1]
    return None


def helpers(ctx, q, stop):
    """The package functions q uses, but for those that stop uses."""
    reach = Interp(ctx.prog, Policy()).reach
    out, todo = set(), [q]
    while todo:
        for f in reach.direct.get(todo.pop(), ()):
            if f in ctx.prog.functions and f not in out and f not in stop:
                out.add(f)
                todo.append(f)
    return out


def unique(ctx, q):
    """A hash in the result stands for one key only."""
    fn = ctx.fn('dump')
    force = helpers(ctx, q, {fn})
    r = ctx.analyse(q, 2, {fn}, interest={fn, 'UCALL'}, force=tuple(sorted(
        force)), iters=2, dedup=400, raise_ops=False)
    if r is None:
        return
    obj = ('sym', first_params(ctx, q, 1)[0])
    for p in r[1]:
        seen = []
        for e in p.events:
            if e.kind != 'setitem' or hash_of(e.args[0]) is None:
                continue
            k = e.args[0]
            if (k, hash_of(k)) in seen:
                continue
            ctx.count('obligations')
            out = [c[2] for c, v in e.facts.items()
                   if c[0] == 'in' and c[1] == k and not v]
            if not any(contains(x, obj) and not others(x, k, seen)
                       for x in out):
                ctx.report('unique', short(q), 'a hash is used as a key '
                           'although the container may have that key',
                           ev=e)
                return
            for k2, el in seen:
                if el == hash_of(k):
                    continue
                if any(contains(x, k2) or unknown(x) for x in out) or any(
                        c[0] == 'eq' and not v and {c[1], c[2]} == {k, k2}
                        for c, v in e.facts.items()):
                    continue
                ctx.report('unique', short(q), 'a hash is used for two '
                           'different keys', ev=e)
                return
            seen.append((k, hash_of(k)))


def others(x, k, seen):
    return x[0] in ('lookup', 'D', 'get', 'item') and x[0] != 'sym' and any(
        contains(x, k2) for k2, el in seen)


# -- types --------------------------------------------------------------------------

def kinds(ctx, kind, q, p, c, wraps, cls, names, ev):
    ctx.count('obligations')
    bad = None
    ext = [w[1] for w in wraps if w[0] == 'ext']
    own = any(contains(w, cls) for w in wraps)
    if kind == 'serializer':
        if c[0] == 'L' and c[1] != 'list' or c[0] == 'tup' or wraps and \
                ext[-1:] not in (['builtins.list'], ['builtins.dict']):
            bad = 'list or dict'
    elif names & {'builtins.list', 'typing.List'}:
        if wraps and ext != ['builtins.list'] or not (
                c[0] == 'L' and c[1] == 'list') and not wraps:
            bad = 'list'
    elif names & {'builtins.tuple', 'typing.Tuple'}:
        if not own and c[0] != 'tup' and ext[:1] != ['builtins.tuple']:
            bad = 'tuple'
    elif names & {'typing.DefaultDict', 'collections.defaultdict'}:
        if not own and ext[:1] != ['collections.defaultdict']:
            bad = 'defaultdict'
    elif not own:
        # As it is only if it is known to be an instance of the class.
        if c[0] in ('L', 'D') and not any(
                v and (f[0] == 'isinst' and contains(f[2], cls) or
                       f[0] in ('eq', 'is') and any(
                           contains(x, cls) for x in f[1:]))
                for f, v in p.facts.items()):
            bad = 'the type that was asked for'
    if bad:
        ctx.report('type', short(q), 'the result of %s may be a %s and no '
                   '%s' % (short(q), short_show(wraps[0] if wraps else c,
                                                40), bad), ev=ev)


# -- tasks ----------------------------------------------------------------------------

def tasks(ctx, kind, q, p, obj):
    """The function and the elements given to tasks."""
    fn = ctx.fn('dump' if kind == 'serializer' else 'load')
    for e in p.events:
        if not ctx.is_call(e, task_helpers(ctx)):
            continue
        ctx.count('obligations')
        args = list(e.args) + [l[2] for l in e.kw if l[0] == 'k']
        col = [a for a in args if contains(a, obj) and a[0] != 'func' and
               (whole(a, obj) is not None or zipped(a) is not None or
                mangled(a, obj) or elementwise(a, obj))]
        if any(empty(a) for a in args):
            continue            # of no elements: see C12
        if not col:
            ctx.report('tasks', short(q), 'the tasks are not given the '
                       'elements of the container', ev=e)
        elif mangled(col[0], obj):
            ctx.report('tasks', short(q), 'the tasks are given the container '
                       '%s' % mangled(col[0], obj), ev=e)
        z = zipped(col[0]) if col else None
        zs = [z] if z is not None else [
            zipped(l.callee) for l in p.events if l.kind == 'loop' and
            l.n < e.n and zipped(l.callee) is not None and
            contains(l.callee, obj)]
        for z in zs:
            if not zip_is_complete(p, z, obj):
                ctx.report('zip', short(q), 'elements beyond the length of '
                           '%s are dropped' % short_show(z), ev=e)
        f = next((a for a in args if a[0] == 'func'), None)
        if f is None:
            ctx.undecide('%s gives %s to tasks' % (short(q), [
                short_show(a) for a in args][:1]))
        elif f[1] != fn:
            helper(ctx, kind, q, f[1], fn, e)
    return True


def helper(ctx, kind, q, h, fn, ev):
    r = ctx.analyse(h, 1, part_boundary(ctx), iters=1, fallback=False,
                    ext_raise=False, raise_ops=False)
    if r is None:
        return
    el = ('sym', first_params(ctx, h, 1)[0])
    for p in r[1]:
        if p.ctl != 'N':
            continue
        ctx.count('obligations')
        e = next((e for e in p.events if e.res == p.val and
                  ctx.is_call(e, {fn})), None)
        if e is None or not e.args or not contains(e.args[0], el):
            ctx.report('tasks', short(h), 'the result of a task is not the '
                       'result for its element', ev=e or place(ctx, h))
