"""An explicit type beats metadata, which beats an inferred type. load is
executed abstractly; on every path the type whose deserializer is looked up is
classified by what it is made of (the caller's argument, the metadata of the
input, the input's own type) and compared with what the path conditions say
about the other candidates. The same is done where the type of an attribute is
chosen, and every call that loads a part with a type from a type hint must say
that the type is inferred."""
from ..objects import *
from ..interp import Interp, Policy
from ..caching import cached
from .c23 import makers, type_args

META = const('-meta')


def check(ctx):
    ctx.rule('the type that is deserialized into is the given one, else that '
             'of the metadata, else that of the value; with an inferred type '
             'the metadata comes first')
    ctx.rule('the deserializer is looked up for that type and is told it')
    ctx.rule('types of attributes and elements are passed on as inferred')
    flags = part_flags(ctx)
    sel = of_load(ctx, flags)
    of_attributes(ctx, sel)
    of_parts(ctx, flags)


def uses_meta(ctx, q):
    f = ctx.prog.functions[q]
    it = Interp(ctx.prog, Policy())
    for n in ast.walk(f.node):
        if isinstance(n, ast.Constant) and n.value == '-meta':
            return True
        if isinstance(n, ast.Name):
            r = ctx.prog.resolve_name(f.module.name, n.id)
            if r and r[0] == 'expr' and isinstance(r[1], ast.Constant) and \
                    r[1].value == '-meta':
                return True
    return False


def resolvers(ctx):
    """Functions that look up a class by a string."""
    un = makers(ctx, 'UnknownClassError')
    it = Interp(ctx.prog, Policy())
    api = ctx.api('load', 'dump')
    out = set()
    for q in ctx.prog.functions:
        c = it.reach.closed(q) | {q}
        if c & un and not c & api and not any(
                g in ctx.prog.functions and uses_meta(ctx, g) for g in c):
            out.add(q)
    return out


def opaque_calls(t, keep):
    """Package functions on top of a type that are still to be opened."""
    if t[0] == 'call' and t[1][0] == 'func':
        return set() if t[1][1] in keep else {t[1][1]}
    if t[0] == 'bin' and t[1] in ('or', 'and'):
        return opaque_calls(t[2], keep) | opaque_calls(t[3], keep)
    if t[0] == 'ite':
        out = set()
        for x in t[1:]:
            if isinstance(x, tuple):
                out |= opaque_calls(x, keep)
        return out
    return set()


def part_flags(ctx):
    """Names of options that are set to True where a part is loaded with a
    type from a hint."""
    load = ctx.fn('load')
    a = ctx.prog.functions[load].node.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    names = {}
    n = 0
    for q in ctx.lizers('deserializer'):
        r = parts_run(ctx, q, 'deserializer', iters=1)
        if r is None:
            continue
        for p in r[1]:
            for e in p.events:
                if not ctx.is_call(e, {load}):
                    continue
                for l in e.kw:
                    if l[0] == 'k' and l[1][0] == 'c' and l[2] == TRUE and \
                            l[1][2] not in own:
                        names.setdefault(l[1][2], set()).add(q)
    return names


def of_load(ctx, flags):
    q = ctx.fn('load')
    B = (part_boundary(ctx) | ctx.api('validate')) - {q}
    keep = resolvers(ctx)
    ctx.require(keep, 'no function looks up classes by name')
    obj, cls = (('sym', n) for n in first_params(ctx, q, 2))
    gd = ctx.api('get_deserializer')
    force = set()
    for _ in range(4):
        opq = (set(cached(ctx)) - B - force) | keep
        r = ctx.analyse(q, 2, B, B | {'UCALL', 'RAISE'}, iters=1,
                        fallback=False, dedup=400, ext_raise=False,
                        max_states=40000, opaque=tuple(sorted(opq)),
                        force=tuple(sorted(force)))
        if r is None:
            return force
        more = set()
        for p in r[1]:
            for e in p.events:
                if ctx.is_call(e, gd):
                    more |= opaque_calls(wanted(ctx, e), keep)
        if more <= force:
            break
        force |= more
    flag = {f for f in flags if any(
        c[0] == 'truth' and c[1] == entry_opt(f)
        for p in r[1] for c in p.facts)}
    if not flag:
        ctx.report('flag', short(q), 'no option tells load that a type is '
                   'inferred', ev=place(ctx, q))
    seen = set()
    # A call that does not say so gives its type explicitly.
    r0 = ctx.analyse(q, 2, B, B | {'UCALL', 'RAISE'}, iters=1,
                     fallback=False, dedup=400, ext_raise=False,
                     max_states=40000, opaque=tuple(sorted(opq)),
                     force=tuple(sorted(force)), without=tuple(flags))
    for p in r0[1] if r0 else ():
        for e in p.events:
            if ctx.is_call(e, gd):
                winner(ctx, q, p, e, wanted(ctx, e), obj, cls, None)
    for p in r[1]:
        for e in p.events:
            if ctx.is_call(e, gd):
                w = wanted(ctx, e)
                seen.add(winner(ctx, q, p, e, w, obj, cls, flag))
                told(ctx, q, p, e, w, obj, cls, flag)
    for kind in ('caller', 'meta', 'value'):
        if kind not in seen:
            ctx.report('never', '%s/%s' % (short(q), kind), 'load never uses '
                       'the type of the %s' % kind, ev=place(ctx, q))
    return force


def wanted(ctx, e):
    """The type whose deserializer is looked up."""
    if e.args:
        return e.args[0]
    return (lookup(e, 'cls', params_of(ctx, e)) or (0, NONE))[1]


def by_name(t):
    """The string from which a class is made."""
    if t[0] == 'call' and t[1][0] == 'func' and t[2]:
        return by_name(t[2][0])
    return t


def kind_of(t, obj, cls):
    n = by_name(t)
    if any(s == META for s in subterms(n)) and contains(n, obj) and (
            n[0] in ('item', 'get', 'lookup')):
        return 'meta'
    if by_name(t) == cls:
        return 'caller'
    if t == ('call', ('ext', 'builtins.type'), (obj,), ()) or \
            t == ('attr', obj, '__class__'):
        return 'value'
    return None


def no_meta(facts, obj):
    """The path conditions exclude that there is a type in the metadata."""
    def about(x):
        return contains(x, obj) and any(s == META for s in subterms(x))
    has = False
    out = False
    for c, v in facts.items():
        if c[0] == 'isinst' and c[1] == obj and not v and c[2] in (
                ('ext', 'builtins.dict'), ('ext', 'typing.Mapping'),
                ('ext', 'collections.abc.Mapping')):
            return True
        if c[0] == 'in' and c[1] == META and c[2] == obj and not v:
            return True
        if c[0] == 'in' and c[1] == const('classes') and about(c[2]):
            if not v:
                return True
            has = True
        if c[0] == 'in' and c[1] == const('/') and about(c[2]) and not v:
            return True
        if c[0] == 'truth' and about(c[1]) and not v and kind_of(
                c[1], obj, None) == 'meta':
            out = True
            if c[1][0] in ('call', 'evt'):
                return True         # no class by that name
        if c[0] == 'isnone' and about(c[1]) and v:
            return True
        if c[0] in ('eq', 'is') and not v and obj in [
                s for x in c[1:] for s in subterms(x)] and (
                    'ext', 'builtins.dict') in c[1:]:
            return True
        if v and c[0] in ('isnone',) and c[1] == obj:
            return True
    return out and not has


def not_given(facts, obj, cls):
    for c, v in facts.items():
        if c[0] == 'truth' and not v and kind_of(c[1], obj, cls) == 'caller':
            return True
        if c[0] == 'isnone' and v and kind_of(c[1], obj, cls) == 'caller':
            return True
    return False


def inferred(facts, flag):
    """True/False/None"""
    if flag is None:
        return False
    for f in flag:
        v = facts.get(('truth', entry_opt(f)))
        if v is not None:
            return v
    return None


def winner(ctx, q, p, e, w, obj, cls, flag):
    facts = e.facts
    ctx.count('obligations')
    if w[0] == 'bin' and w[1] == 'or':
        ctx.undecide('%s chooses %s' % (short(q), short_show(w)))
        return None
    k = kind_of(w, obj, cls)
    inf = inferred(facts, flag)
    if k == 'caller':
        if inf is not False and not no_meta(facts, obj):
            ctx.report('order', short(q) + '/inferred', 'an inferred type is '
                       'used although the metadata may have one', ev=e)
    elif k == 'meta':
        if inf is not True and not not_given(facts, obj, cls):
            ctx.report('order', short(q) + '/given', 'the type of the '
                       'metadata is used although one may have been given',
                       ev=e)
    elif k == 'value':
        if not not_given(facts, obj, cls):
            ctx.report('order', short(q) + '/value', 'the type of the value '
                       'is used although one may have been given', ev=e)
        elif not no_meta(facts, obj):
            ctx.report('order', short(q) + '/ignored', 'the type of the '
                       'value is used although the metadata may have one',
                       ev=e)
    elif any(s[0] == 'havoc' for s in subterms(w)):
        ctx.undecide('%s: %s' % (short(q), short_show(w)))
    elif w[0] in ('c', 'ext', 'cls', 'opt', 'sym'):
        ctx.report('other', short(q), 'the type that is used is %s' %
                   short_show(w), ev=e)
    else:
        ctx.undecide('%s: %s' % (short(q), short_show(w)))
    return k


def told(ctx, q, p, e, w, obj, cls, flag):
    for u in p.events:
        if u.kind != 'ucall' or u.callee != e.res:
            continue
        ctx.count('obligations')
        c = u.args[1] if len(u.args) > 1 else (lookup(
            u, 'cls', []) or (0, None))[1]
        if c != w:
            ctx.report('told', short(q), 'the deserializer of %s is told '
                       'the type %s' % (short_show(w, 60),
                                        short_show(c or NONE, 60)), ev=u)
        if not u.args or u.args[0] != obj:
            ctx.report('told', short(q) + '/value', 'the deserializer is '
                       'given %s' % short_show(
                           u.args[0] if u.args else NONE), ev=u)
        if kind_of(w, obj, cls) != 'caller':
            continue
        for f in flag:
            g = lookup(u, f, [])
            if g is None or g[0] != 'sure':
                continue
            v = g[1]
            if v == TRUE or v[0] == 'cmp' and v[1] == 'is' and v[2] == v[3]:
                ctx.report('told', short(q) + '/flag', 'a type that was '
                           'given is passed on as if it was inferred', ev=u)


# -- attributes ---------------------------------------------------------------------

def of_attributes(ctx, force):
    q = ctx.lizer_for('deserializer', 'builtins.object')
    keep = resolvers(ctx)
    obj, cls = (('sym', n) for n in first_params(ctx, q, 2))
    L = {ctx.fn('load')}
    force = set(force)
    for _ in range(3):
        r = parts_run(ctx, q, 'deserializer', iters=1, force=tuple(
            sorted(force)), opaque=(set(cached(ctx)) - part_boundary(ctx) -
                                    force) | keep)
        if r is None:
            return
        more = set()
        for p in r[1]:
            for e in p.events:
                if ctx.is_call(e, L):
                    _, c = load_args(ctx, e)
                    if c is not None:
                        more |= opaque_calls(c, keep)
        if more <= force:
            break
        force |= more
    metas = hints = 0
    for p in r[1]:
        for e in p.events:
            if not ctx.is_call(e, L):
                continue
            j, c = load_args(ctx, e)
            ctx.count('obligations')
            ctx.count('attribute_types')
            m = c is not None and from_meta(c)
            metas += m
            if m:
                continue
            if c is not None and is_hint(c):
                hints += 1
            k = key_of(j)
            k = {k} | {u.res for u in p.events
                       if u.kind == 'ucall' and k in u.args}
            if not meta_excluded(e.facts, k):
                ctx.report('attribute', short(q), 'an attribute is loaded '
                           'into %s although the metadata may have a type '
                           'for it' % short_show(c or NONE, 80), ev=e)
            if (c is None or c == NONE or c[0] == 'call' and
                    c[1] == ('ext', 'builtins.type')) and None not in k \
                    and not hint_excluded(e.facts, k):
                ctx.report('hint', short(q), 'an attribute is loaded without '
                           'its type hint', ev=e)
    for n, what in ((metas, 'metadata'), (hints, 'type hint')):
        if not n:
            ctx.report('never', '%s/%s' % (short(q), what), 'the %s of an '
                       'attribute is never used' % what, ev=place(ctx, q))


def from_meta(t):
    return any(s[0] in ('opt', 'sym') and s[-1] == 'meta_hints'
               for s in subterms(t))


def key_of(j):
    if j is None:
        return None
    if j[0] == 'elem':
        return j
    if j[0] in ('item', 'lookup', 'get'):
        return j[2]
    if j[0] == 'mcall' and j[3]:
        return j[3][0]
    return None


def meta_excluded(facts, keys):
    for c, v in facts.items():
        if None not in keys and not any(
                contains(x, k) for x in c[1:] for k in keys):
            continue
        if not any(isinstance(x, tuple) and from_meta(x) for x in c[1:]):
            continue
        if c[0] in ('truth', 'in') and not v:
            return True
        if c[0] == 'isnone' and v:
            return True
    for c, v in facts.items():
        if c[0] == 'truth' and not v and c[1][0] in ('opt', 'sym') and \
                c[1][-1] == 'meta_hints':
            return True
    return False


def hint_excluded(facts, keys):
    for c, v in facts.items():
        if not any(is_hint(x) and contains(x, k) or
                   (c[0] == 'in' and c[1] == k and is_hint(c[2]))
                   for x in c[1:] if isinstance(x, tuple) for k in keys):
            continue
        if c[0] in ('truth', 'in') and not v or c[0] == 'isnone' and v:
            return True
    return False


# -- parts ----------------------------------------------------------------------------

def of_parts(ctx, flags):
    """Parts loaded with a type from a hint."""
    load = ctx.fn('load')
    helpers = task_helpers(ctx)
    if not flags:
        ctx.report('part', 'none', 'no type hint is passed on as inferred',
                   ev=place(ctx, load))
        return
    flag = max(sorted(flags), key=lambda f: len(flags[f]))
    n = 0
    for q in ctx.lizers('deserializer'):
        r = parts_run(ctx, q, 'deserializer', iters=1)
        if r is None:
            continue
        names = first_params(ctx, q, 2)
        if len(names) < 2:
            continue
        obj, cls = (('sym', x) for x in names)
        for p in r[1]:
            for e in p.events:
                if ctx.is_call(e, {load}):
                    j, c = load_args(ctx, e)
                elif e.callee and e.callee[0] == 'func' and \
                        e.callee[1] in helpers and any(
                            a == ('func', load) for a in e.args):
                    c = next((a for a in e.args if is_hint(a)), None)
                    j = ('elem', obj, 0)
                else:
                    continue
                if j is None or c is None or j == obj:
                    whole(ctx, q, e, c, flag)
                    continue
                if not part_type(c, cls) or is_key(ctx, q, j):
                    continue
                n += 1
                ctx.count('obligations')
                ctx.count('part_types')
                g = lookup(e, flag, params_of(ctx, e))
                if g is None or g[0] != 'sure' or g[1] != TRUE:
                    ctx.report('part', short(q), 'a part is loaded with a '
                               'type of a type hint that beats the metadata '
                               'of the part', ev=e)
    ctx.require(n, 'no part is loaded with the type of a hint')


def whole(ctx, q, e, c, flag):
    """The value itself is loaded with a type made of the given one."""
    if c is None:
        return
    g = lookup(e, flag, params_of(ctx, e))
    ctx.count('obligations')
    if g is not None and g[0] == 'sure' and g[1] == TRUE:
        ctx.report('whole', short(q), 'a given type is passed on as if it '
                   'was inferred', ev=e)


def part_type(c, cls):
    """A type of a part, made of the arguments or hints of the class."""
    return is_hint(c) and contains(c, cls) or any(
        s[0] in ('item', 'elem') and type_args(s[1]) for s in subterms(c))


def is_key(ctx, q, j):
    """A key of a JSON object: text, it has no metadata."""
    if j[0] == 'elem':
        return q in {ctx.lizer_for('deserializer', t) for t in (
            'builtins.dict', 'builtins.object')}
    return j[0] == 'evt' and j[2][0] == 'opt'
