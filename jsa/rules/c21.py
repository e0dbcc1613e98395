"""The methods of JsonSerializable equal the functions with the class as fork.
Every method is executed abstractly with an unknown instance/class and unknown
options; it must return the result of the function of the same name, applied
to the instance (or the value and the class), with the class as the fork and
with every option handed on."""
from ..options import *
from .c20 import ev_of

OPTS = ('sym', 'OPTS')


def method(ctx, cls, name):
    m = ctx.prog.classes[cls].members.get(name)
    q = getattr(m, 'qual', None)
    ctx.require(q, 'JsonSerializable.%s not found' % name)
    return q


def run(ctx, q, args, boundary, interest=None, opts='OPTS'):
    it = Interp(ctx.prog, Policy(boundary=boundary,
                                 interest=interest or boundary))
    ps = it.run(('func', q), args, (('rest', ('sym', opts), frozenset()),))
    ctx.count('entries')
    ctx.count('abstract_paths', len(ps))
    return it, ps


def own_class(t, self_):
    return t == ('attr', self_, '__class__') or (
        ext_call(t, 'builtins.type') and t[2] == (self_,))


def check(ctx):
    ctx.rule('every normal path returns the result of the corresponding '
             'function with the receiver, its class as fork, and all options')
    J = ctx.cls('JsonSerializable')
    fns = ('dump', 'dumps', 'dumpb', 'load', 'loads', 'loadb',
           'set_serializer', 'set_deserializer', 'fork')
    B = ctx.api(*fns)
    dn = [n for n in option_names(ctx, 'serializer')
          if not n.startswith('_') and n != 'fork_inst'] + [GENERIC]
    ln = [n for n in option_names(ctx, 'deserializer')
          if not n.startswith('_') and n != 'fork_inst'] + [GENERIC]
    me = ('sym', 'self', J)
    for name in ('dump', 'dumps', 'dumpb'):
        q = method(ctx, J, name)
        it, ps = run(ctx, q, (me,), B)
        for p in ps:
            e = result_call(ctx, q, p, name)
            if e:
                require(ctx, q, e, 'value', e.args[:1] == (me,))
                fork_is(ctx, q, e, lambda t: own_class(t, me))
                options(ctx, q, e, OPTS, dn)
    cls = ('sym', 'cls', J)
    val = ('sym', 'json_obj')
    for name in ('load', 'loads', 'loadb'):
        q = method(ctx, J, name)
        it, ps = run(ctx, q, (cls, val), B)
        for p in ps:
            e = result_call(ctx, q, p, name)
            if e:
                require(ctx, q, e, 'value', e.args[:1] == (val,))
                g = lookup(e, 'cls', params_of(ctx, e))
                require(ctx, q, e, 'class', g and g[1] == cls)
                fork_is(ctx, q, e, lambda t: t == cls)
                options(ctx, q, e, OPTS, ln)
    for name, target, obj, args in (
            ('from_json', 'load', cls, (val,)), ('json', 'dump', me, ()),
            ('__str__', 'dumps', me, ())):
        q = method(ctx, J, name)
        it, ps = run(ctx, q, (obj,) + args, B)
        for p in ps:
            t = p.val
            e = ev_of(p, t)
            ctx.count('obligations')
            if t[0] == 'mcall' and t[2] == target and t[1] == obj:
                require(ctx, q, None, 'value', t[3] == args)
                if args:
                    miss = passes(t[4], OPTS, ln)
                    require(ctx, q, None, 'option %s' % (miss or [''])[0],
                            not miss)
            elif e is not None and ctx.is_call(e, {ctx.fn(target)}):
                if target in ('load', 'dump'):
                    ctx.report('preset', name, '%s calls the function %s, '
                               'not the method: what with_%s has set does '
                               'not apply' % (name, target, target), ev=e)
                require(ctx, q, e, 'value', e.args[:1] == (args or (obj,)))
                fork_is(ctx, q, e, lambda t: t == cls or own_class(t, me))
                if args:
                    options(ctx, q, e, OPTS, ln)
            else:
                ctx.report('delegate', name, '%s returns %s instead of the '
                           'result of %s' % (name, short_show(t), target),
                           q, ctx.prog.functions[q].node.lineno)
    setters(ctx, J, B, cls)
    forks(ctx, J, B, cls)
    presets(ctx, J, B, cls, dn, ln)


def result_call(ctx, q, p, name):
    if p.ctl != 'N':
        return None
    ctx.count('obligations')
    e = ev_of(p, p.val)
    if e is None or not ctx.is_call(e, {ctx.fn(name)}):
        ctx.report('delegate', short(q), 'the method %s returns %s instead '
                   'of the result of the function %s' % (
                       short(q), short_show(p.val), name), q,
                   ctx.prog.functions[q].node.lineno)
        return None
    return e


def require(ctx, q, e, what, ok):
    ctx.count('obligations')
    if not ok:
        msg = 'the method %s does not hand on its %s' % (short(q), what)
        if e is not None:
            ctx.report('hand-on', '%s/%s' % (short(q), what), msg, ev=e)
        else:
            ctx.report('hand-on', '%s/%s' % (short(q), what), msg, q,
                       ctx.prog.functions[q].node.lineno)


def fork_is(ctx, q, e, ok):
    g = lookup(e, 'fork_inst', params_of(ctx, e))
    require(ctx, q, e, 'class as the fork', g and ok(g[1]))


def options(ctx, q, e, base, names):
    miss = passes(e.kw, base, names)
    require(ctx, q, e, 'option %s' % (miss or [''])[0], not miss)


def is_fork_of(ctx, p, t, cls):
    if t[0] == 'mcall' and t[2] == 'fork' and t[1] == cls:
        return True
    e = ev_of(p, t)
    return e is not None and ctx.is_call(e, {ctx.fn('fork')}) and \
        e.args[:1] == (cls,)


def chosen(ctx, p, t, cls):
    """The class, or a fork of it exactly when a fork is asked for."""
    o = ('opt', OPTS, 'fork')
    f = p.facts.get(('truth', o))
    if f is True:
        return is_fork_of(ctx, p, t, cls)
    if f is False:
        return t == cls
    if t == cls or is_fork_of(ctx, p, t, cls):
        # without a test, it is the one or the other for every call
        return any(contains(x, o) for c in p.facts for x in c[1:])
    return False


def setters(ctx, J, B, cls):
    for name in ('set_serializer', 'set_deserializer'):
        q = method(ctx, J, name)
        it, ps = run(ctx, q, (cls, ('sym', 'func'), ('sym', 'cls_')), B)
        for p in ps:
            if p.ctl != 'N':
                continue
            require(ctx, q, None, 'class or fork (return value)',
                    chosen(ctx, p, p.val, cls))
            es = [e for e in p.events if ctx.is_call(e, {ctx.fn(name)})]
            require(ctx, q, None, 'registration', len(es) == 1)
            for e in es:
                ps_ = params_of(ctx, e)
                f = lookup(e, 'fork_inst', ps_)
                require(ctx, q, e, 'class as the fork',
                        f and f[1] == p.val)
                require(ctx, q, e, 'function', e.args[:1] ==
                        (('sym', 'func'),))
                c = lookup(e, 'cls', ps_)
                require(ctx, q, e, 'type', c and c[1] == ('sym', 'cls_'))
                h = lookup(e, 'high_prio', ps_)
                require(ctx, q, e, 'priority', h and
                        h[1] == ('opt', OPTS, 'high_prio'))


def forks(ctx, J, B, cls):
    q = method(ctx, J, 'fork')
    it, ps = run(ctx, q, (cls,), B)
    for p in ps:
        e = result_call(ctx, q, p, 'fork')
        if e:
            f = lookup(e, 'fork_inst', params_of(ctx, e))
            require(ctx, q, e, 'class', f and f[1] == cls)
            n = lookup(e, 'name', params_of(ctx, e))
            require(ctx, q, e, 'name', n and
                    n[1] == ('opt', OPTS, 'name'))


def presets(ctx, J, B, cls, dn, ln):
    """with_dump / with_load: the installed method applies the preset
    options, the options of the call and the class of the instance."""
    for name, target, names in (('with_dump', 'dump', dn),
                                ('with_load', 'load', ln)):
        q = method(ctx, J, name)
        it, ps = run(ctx, q, (cls,), B, B | {'MUT'})
        for p in ps:
            if p.ctl != 'N':
                continue
            require(ctx, q, None, 'class or fork (return value)',
                    chosen(ctx, p, p.val, cls))
            inst = [e for e in p.events if e.kind in ('mut', 'setattr') and
                    contains(e.callee, ('attr', p.val, target)) or
                    e.kind == 'setattr' and e.callee == p.val]
            require(ctx, q, None, 'method', inst)
            for e in inst:
                f = e.args[-1]
                static = False
                if f[0] == 'deco':
                    static = True
                    f = f[2]
                if f[0] != 'clo':
                    ctx.undecide('%s installs %s' % (name, show(f)))
                    continue
                wrapper(ctx, it, p, q, f, static, target, names)


def wrapper(ctx, it, p, q, f, static, target, names):
    a, b = ('sym', 'A'), ('sym', 'B')
    args = (a, b) if target == 'load' else (a,)
    base = ('sym', 'OPTS2')
    n0 = len(p.events)
    for w in it.run(f, args, (('rest', base, frozenset()),),
                    st=p.st.copy()):
        ctx.count('abstract_paths')
        if w.ctl != 'N':
            continue
        e = ev_of(w, w.val)
        if e is None or not ctx.is_call(e, {ctx.fn(target)}):
            ctx.report('delegate', short(q), 'the method installed by %s '
                       'returns %s' % (short(q), short_show(w.val)), q,
                       ctx.prog.functions[q].node.lineno)
            continue
        obj = b if target == 'load' else a
        require(ctx, q, e, 'value', e.args[:1] == (obj,))
        if target == 'load':
            g = lookup(e, 'cls', params_of(ctx, e))
            require(ctx, q, e, 'class', g and g[1] == a)
        layered(ctx, q, e, base, names, a)


def layered(ctx, q, e, base, names, me):
    """Call options are handed on unless the preset overrides them; presets
    win or lose uniformly, but neither is dropped."""
    bases = rest_bases(e.kw)
    require(ctx, q, e, 'preset options', OPTS in bases)
    require(ctx, q, e, 'options of the call', base in bases)
    for l in e.kw:
        if l[0] == 'rest':
            lost = [n for n in names if n in l[2]]
            require(ctx, q, e, 'option %s' % (lost or [''])[0], not lost)
    ks = [l for l in e.kw if l[0] == 'k' and l[1] == const('fork_inst')]
    require(ctx, q, e, 'class as the fork',
            ks and (ks[-1][2] == me or own_class(ks[-1][2], me)))
    extra = [l for l in e.kw if l[0] == 'k' and l[1][0] == 'c' and
             l[1][2] in names]
    require(ctx, q, e, 'options (one is fixed)', not extra)
