"""Runs of the default object deserializer and of the other default
deserializers that are shared by several rules."""
from .options import *
from .facts import *

CLS = ('sym', 'cls')
OPTS = ('sym', 'OPTS')


def first_params(ctx, q, n):
    a = ctx.prog.functions[q].node.args
    return [p.arg for p in (a.posonlyargs + a.args)[:n]]


def load_boundary(ctx):
    return ctx.api('get_deserializer', 'get_validator', 'announce_class',
                   'get_serializer', 'load')


def object_run(ctx, more=(), iters=1, max_states=150000, **pol):
    """(qual, obj term, cls term, interp, paths) of the default object
    deserializer, path-sensitive; None if it is out of budget."""
    q = ctx.lizer_for('deserializer', 'builtins.object')
    B = load_boundary(ctx)
    r = ctx.analyse(q, 2, B, B | {'UCALL'} | set(more), iters=iters,
                    fallback=False, max_states=max_states, raise_ops=False,
                    dedup=400,
                    **pol)
    if r is None:
        return None
    obj, cls = (('sym', n) for n in first_params(ctx, q, 2))
    return q, obj, cls, r[0], r[1]


def constructor_calls(p, cls):
    return [e for e in p.events if e.kind == 'ucall' and e.callee == cls]


def is_load(ctx, t):
    """t is the result of a nested load."""
    return t[0] == 'evt' and t[2] == ('func', ctx.fn('load'))


def load_of(ctx, p, t):
    """The event of the nested load whose result t is."""
    for e in p.events:
        if e.res == t and ctx.is_call(e, {ctx.fn('load')}):
            return e
    return None


def load_args(ctx, e):
    ps = params_of(ctx, e)
    c = lookup(e, 'cls', ps)
    j = e.args[0] if e.args else (lookup(e, ps[0], ps) or (0, None))[1]
    return j, (c[1] if c else None)


def is_hint(t, key=None):
    """t was read from type hints or annotations (for the given key)."""
    if key is not None and not contains(t, key):
        return False
    for s in subterms(t):
        if s[0] == 'func' and s[1].endswith('get_type_hints') or \
                s[0] == 'ext' and s[1].endswith('get_type_hints') or \
                s[0] == 'attr' and s[2] in ('__annotations__', 'annotation',
                                            '_field_types') or \
                s[0] == 'ext' and s[1].endswith('get_args') or \
                s[0] == 'c' and s[2] in ('__annotations__', '_field_types'):
            return True
    return False


def is_none(facts, t):
    return t == NONE or facts.get(('isnone', t)) is True


NONE_TYPES = {('ext', 'typing.Any'), ('ext', 'builtins.object'), NONE,
              ('ext', 'builtins.NoneType')}


def _members(t):
    if t[0] in ('tup',):
        return list(t[1])
    if t[0] == 'L':
        return list(t[3])
    return None


def _params_of_type(t, ok):
    """t denotes the type parameters of a type."""
    if t[0] == 'bin' and t[1] == 'or':
        return _params_of_type(t[2], ok) or _params_of_type(t[3], ok)
    for s in subterms(t):
        if s[0] == 'call' and s[1][0] in ('func', 'ext') and s[2] and \
                ok(s[2][0]) and (s[1][1].endswith('get_union_params') or
                                 s[1][1].endswith('get_args')):
            return True
        if s[0] == 'attr' and s[2] in ('__args__', '__union_params__') and \
                ok(s[1]):
            return True
        if s[0] == 'call' and s[1] == ('ext', 'builtins.getattr') and \
                len(s[2]) > 1 and ok(s[2][0]) and \
                s[2][1][-1] in ('__args__', '__union_params__'):
            return True
    return False


def _unionish(facts, ok):
    for c, v in facts.items():
        if not v or not any(ok(s) for x in c[1:] for s in subterms(x)):
            continue
        for x in c[1:]:
            for s in subterms(x):
                if s[0] == 'c' and isinstance(s[2], str) and (
                        'union' in s[2].lower() or
                        'optional' in s[2].lower()) and \
                        s[2] != '__union_params__':
                    return True
                if s[0] == 'ext' and s[1] in (
                        'typing.Union', 'typing.Optional',
                        'types.UnionType', 'typing._UnionGenericAlias'):
                    return True
    return False


def admits_none(facts, ok):
    """The facts say that a type (a term t with ok(t)) admits None."""
    member = False
    for c, v in facts.items():
        if c[0] == 'truth' and not v and ok(c[1]):
            return True             # no type at all
        if not v:
            continue
        if c[0] == 'isnone' and ok(c[1]):
            return True
        if c[0] in ('eq', 'is'):
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if ok(a) and b in NONE_TYPES:
                    return True
                if b == ('ext', 'builtins.NoneType') and \
                        _params_of_type(a, ok):
                    member = True
        if c[0] == 'in':
            ms = _members(c[2])
            if ok(c[1]) and ms and all(m in NONE_TYPES for m in ms):
                return True
            if c[1] == ('ext', 'builtins.NoneType') and \
                    _params_of_type(c[2], ok):
                member = True
    return member and _unionish(facts, ok)


def part_boundary(ctx):
    return ctx.api('dump', 'load', 'get_serializer', 'get_deserializer',
                   'get_validator', 'announce_class')


def task_helpers(ctx):
    """Functions that spread work over tasks (and do not load or dump
    themselves): their results are looked at separately."""
    if '_task_helpers' in ctx.prog.__dict__:
        return ctx.prog._task_helpers
    it = Interp(ctx.prog, Policy())
    starters = set()
    for q, f in ctx.prog.functions.items():
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            kws = {k.arg for k in n.keywords}
            if 'target' not in kws or 'args' not in kws:
                continue
            r = ctx.prog.resolve_name(f.module.name, n.func.id) \
                if isinstance(n.func, ast.Name) else None
            if not r or r[0] != 'class':
                starters.add(q)
    api = ctx.api('dump', 'load')
    lizers = set(ctx.lizers('serializer')) | set(ctx.lizers('deserializer'))
    out = set()
    for q in ctx.prog.functions:
        c = it.reach.closed(q) | {q}
        if c & starters and not c & api and q not in lizers:
            out.add(q)
    ctx.prog._task_helpers = out
    return out


def parts_run(ctx, q, kind, iters=2, max_states=60000, more=(), b=(),
              opaque=None, force=()):
    """Path-sensitive run of a default (de)serializer in which the calls for
    the parts of the value may fail: (interp, paths) or None."""
    from .caching import cached
    B = part_boundary(ctx) | task_helpers(ctx) | set(b)
    if opaque is None:
        opaque = set(cached(ctx)) - B
    for n in range(iters, 0, -1):
        r = ctx.analyse(q, 1 if kind == 'serializer' else 2, B,
                        B | {'UCALL'} | set(more), iters=n, fallback=False,
                        dedup=400, ext_raise=False, max_states=max_states,
                        opaque=tuple(sorted(opaque)), quiet=n > 1,
                        force=force)
        if r is not None:
            if n > 1:
                ctx.count('runs_with_%d_iterations' % n)
            return r
    return None


def part_attempts(ctx, kind, p):
    """Events of a path that dump or load a part."""
    fn = ctx.fn('dump' if kind == 'serializer' else 'load')
    return [e for e in p.events if ctx.is_call(e, {fn}) or
            e.kind == 'ucall' and is_lizer_result(ctx, e.callee)]


def caught_of(p, e):
    for c in p.events:
        if c.kind == 'caught' and c.callee[0] == 'exc' and \
                c.callee[1] == e.n:
            return c
    return None


class Place:
    def __init__(self, func, line):
        self.func, self.line = func, line


def place(ctx, q):
    return Place(q, ctx.prog.functions[q].node.lineno)


def warnings_of(ctx, p):
    """[(event, [argument terms])] of the warnings of a path."""
    out = []
    it = ctx.prog.__dict__.get('_warn_reach')
    if it is None:
        it = ctx.prog._warn_reach = Interp(ctx.prog, Policy())
    for e in p.events:
        f = e.callee
        if f and f[0] == 'ext' and f[1] in ('warnings.warn',
                                            'warnings.warn_explicit'):
            out.append((e, warn_args(e)))
        elif e.kind == 'opaque' and f and f[0] == 'func' and \
                'ext:warnings.warn' in it.reach.closed(f[1]):
            out.append((e, warn_args(e)))
    return out


def warn_args(e):
    return list(e.args) + [l[2] for l in e.kw if l[0] == 'k']
