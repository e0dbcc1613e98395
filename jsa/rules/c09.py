"""Every loaded value passes the validator of its type. load is executed
abstractly with the lookup of validators and deserializers as observed calls.
On every path that returns a value, a validator must have been looked up for
the type the value was loaded into and the fork of the call, and either none
is registered or it was called with that very value, after the value existed,
and its answer is known to be true on the path. Lookups that may return the
validators themselves are not decided here (C18)."""
from ..options import *
from ..facts import *

OPTS = ('sym', 'OPTS')
FORK = ('opt', OPTS, 'fork_inst')


def is_validator(ctx, t):
    return t[0] == 'evt' and t[2] == ('func', ctx.fn('get_validator'))


def validations(ctx, p):
    """[(lookup event, call event or None)] on a path."""
    out = []
    for e in p.events:
        if ctx.is_call(e, {ctx.fn('get_validator')}):
            calls = [c for c in p.events if c.kind == 'ucall' and
                     c.callee == e.res]
            out.append((e, calls))
    return out


def looked_up_for(ctx, e):
    ps = params_of(ctx, e)
    c = lookup(e, 'cls', ps)
    f = lookup(e, 'fork_inst', ps)
    return (c[1] if c else None), (f[1] if f else None)


def same_type(p, a, b):
    return a == b or a is not None and (
        p.facts.get(('eq', a, b)) is True or p.facts.get(('eq', b, a)) is True
        or p.facts.get(('is', a, b)) is True)


def truthy(p, t):
    if p.facts.get(('truth', t)) is True:
        return True
    return any(v and c[0] in ('is', 'eq') and c[1] == t and
               c[2][0] == 'c' and c[2][2] for c, v in p.facts.items())


def falsy(p, t):
    return p.facts.get(('truth', t)) is False or \
        p.facts.get(('isnone', t)) is True


def accepted(ctx, p, value, cls, fork, after, obj):
    """None, or why the value was not accepted by its validator."""
    vs = validations(ctx, p)
    if not vs:
        return 'no validator is looked up'
    why = None
    for e, calls in vs:
        c, f = looked_up_for(ctx, e)
        if not same_type(p, c, cls):
            why = why or 'the validator is looked up for %s, not for %s' % (
                short_show(c or NONE, 60), short_show(cls, 60))
            continue
        if f != fork:
            why = 'the validator is looked up on %s' % show(f or NONE)
            continue
        if falsy(p, e.res):
            return None
        for call in calls:
            if not call.args or call.args[0] != value:
                why = 'the validator is called with %s' % (
                    short_show(call.args[0], 60) if call.args else 'nothing')
                continue
            if p.events.index(call) < after:
                why = 'the validator is called before the value is final'
                continue
            if truthy(p, call.res):
                return None
            why = 'the answer of the validator is not required to be true'
        if not calls:
            why = why or 'the validator that was found is not called'
    return why


def check(ctx):
    ctx.rule('on every path of load that returns, the returned value was '
             'accepted by the validator looked up for its type and fork')
    ctx.rule('validate returns only if there is no validator or its answer '
             'was true; its failures are validation errors')
    fl, fv = ctx.fn('load'), ctx.fn('validate')
    B = ctx.api('get_deserializer', 'get_validator', 'announce_class',
                'get_serializer')
    r = ctx.analyse(fl, 2, B, B | {'VCALL'}, iters=1, fallback=False)
    params = first_params(ctx, fl, 2)
    obj, cls = (('sym', n) for n in params)
    n = 0
    for p in (r[1] if r else ()):
        if p.ctl != 'N':
            continue
        ctx.count('returns_of_load')
        work = [e for e in p.events if e.kind == 'ucall' and
                is_lizer_result(ctx, e.callee)]
        after = max([p.events.index(e) for e in work] or [0])
        if work:
            e = work[-1]
            n += 1
            ps = []
            target = e.args[1] if len(e.args) > 1 else (
                lookup(e, 'cls', ps) or (0, None))[1]
            if target is None:
                ctx.undecide('the type handed to the deserializer in load')
                continue
        else:
            target = cls
        why = accepted(ctx, p, p.val, target, FORK, after, obj)
        if why:
            ctx.report('validate', 'load/%s' % (
                'loaded' if work else 'taken over'),
                'load returns %s, but %s' % (short_show(p.val, 60), why), fl,
                ctx.prog.functions[fl].node.lineno)
    ctx.require(r is None or n, 'load never calls a deserializer')
    # validate itself
    B = ctx.api('get_validator')
    r = ctx.analyse(fv, 2, B, B | {'VCALL', 'RAISE'}, fallback=False)
    params = first_params(ctx, fv, 2)
    obj, cls = (('sym', n) for n in params)
    verr = ctx.cls('ValidationError')
    for p in (r[1] if r else ()):
        ctx.count('paths_of_validate')
        if p.ctl == 'N':
            why = accepted(ctx, p, obj, cls, FORK, 0, obj)
            if why:
                ctx.report('validate', 'validate', 'validate accepts a value '
                           'although %s' % why, fv,
                           ctx.prog.functions[fv].node.lineno)
        elif p.val[0] == 'new' and not subclass_of(ctx, p.val[1], verr):
            ctx.report('error', 'validate', 'validate fails with %s' %
                       short_show(p.val), fv,
                       ctx.prog.functions[fv].node.lineno)
        elif p.val[0] == 'exc' and p.facts.get(
                ('isinst', p.val, ('ext', 'builtins.Exception'))) \
                is not False:
            ctx.report('error', 'validate/escape', 'an error of the '
                       'validator leaves validate as it is', fv,
                       ctx.prog.functions[fv].node.lineno)
    for e in (r[0].all_events(r[1]) if r else ()):
        if e.kind == 'ucall' and is_validator(ctx, e.callee) and not e.tries:
            ctx.report('error', 'validate/unguarded', 'the validator is '
                       'called outside of any handler', ev=e)


def first_params(ctx, q, n):
    a = ctx.prog.functions[q].node.args
    return [p.arg for p in (a.posonlyargs + a.args)[:n]]
