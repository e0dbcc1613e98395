"""C03: dump options reach every nested value."""
from ..options import *

# consumed by the value they are given for
OWN = {'tasks', 'task_type', 'types'}


def exempt_for(ctx, kind):
    def exempt(name, e):
        return name.startswith('_') or name in OWN
    return exempt


def check(ctx):
    ctx.rule('value flow: at every call that serializes a part, each option '
             'of the entry is looked up in the arguments and must be the '
             'entry option itself, something computed from it, or a value '
             'the path conditions prove equivalent')
    names = [n for n in option_names(ctx, 'serializer')
             if n != 'fork_inst'] + [GENERIC]
    ex = exempt_for(ctx, 'serializer')
    total = 0
    for q, it, events in lizer_runs(ctx, 'serializer'):
        for e in nested(ctx, 'serializer', events):
            total += 1
            forwarded(ctx, 'C03', 'serializer', q, it, e, names, ex)
            cls_leak(ctx, q, e)
            ctx.sample('nested_calls', '%s:%s %s' % (
                e.func, e.line, callee_name(ctx, e)))
    entry_forward(ctx, 'serializer', names, ex)
    loop_stable(ctx, 'serializer')
    ctx.count('nested_calls', total)
    ctx.require(total >= 10, 'only %d nested dumps found' % total)


def cls_leak(ctx, q, e):
    pos = 1
    got = e.args[pos] if len(e.args) > pos else None
    if got is None:
        g = get(e.kw, 'cls')
        got = g[1] if g else None
    ctx.count('obligations')
    whole = e.args and e.args[0] == ('sym', first_param(ctx, q))
    if got == entry_opt('cls') and not whole:
        ctx.report('outer-type', '%s@%s' % (callee_name(ctx, e), e.func),
                   'the part %s is dumped as the type given for the whole '
                   'value' % show(e.args[0] if e.args else NONE), ev=e)


def first_param(ctx, q):
    a = ctx.prog.functions[q].node.args
    return (a.posonlyargs + a.args)[0].arg


def entry_forward(ctx, kind, names, ex):
    """dump()/load() themselves hand every option to the (de)serializer."""
    fn = ctx.fn('dump' if kind == 'serializer' else 'load')
    B = ctx.api('get_serializer', 'get_deserializer', 'validate',
                'announce_class')
    r = ctx.analyse(fn, 2, B, B | {'VCALL'})
    if r is None:
        return
    it, paths = r
    n = 0
    for e in it.all_events(paths):
        if e.kind == 'ucall' and is_lizer_result(ctx, e.callee):
            n += 1
            forwarded(ctx, ctx.prop, kind, fn, it, e, names,
                      lambda name, ev: name.startswith('_'))
    ctx.require(n, 'no call of the looked-up %s in %s' % (kind, fn))
    ctx.count('nested_calls', n)


def loop_stable(ctx, kind):
    """The option mapping is not changed between elements."""
    for q, it, events in lizer_runs(ctx, kind):
        for e in events:
            if e.kind in ('setitem', 'delitem', 'mut') and e.loops and \
                    e.callee and e.callee[0] == 'D' and any(
                        l[0] == 'rest' and l[1] == ('sym', 'OPTS')
                        for l in e.callee[2]):
                ctx.note('option mapping changed in a loop at %s:%s'
                         % (e.func, e.line))
