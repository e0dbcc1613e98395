"""Load options reach every nested value. Each default deserializer (and load
itself) is executed abstractly with an unknown option mapping; every call that
deserializes a part is an obligation per option of the load family, plus one
for an option the library does not know."""
from ..options import *
from .c03 import entry_forward, loop_stable

OWN = {'tasks', 'task_type', 'types', 'fork_inst'}
SEQUENCES = ('builtins.list', 'list', 'typing.List', 'typing.Iterable')
MAPPINGS = ('dict', 'builtins.dict', 'typing.Dict', 'typing.DefaultDict',
            'collections.abc.Mapping')


def registered_for(ctx, kind, names):
    out = set()
    for k, fn, classes, prio, e in ctx.registry():
        if k == kind and fn and fn[0] == 'func' and any(
                c and c[0] in ('ext', 'cls') and c[1] in names
                for c in classes):
            out.add(fn[1])
    return out


def exempt_for(ctx, q):
    sequences = registered_for(ctx, 'deserializer', SEQUENCES)
    mappings = registered_for(ctx, 'deserializer', MAPPINGS)
    objects = registered_for(ctx, 'deserializer', ('object',
                                                   'builtins.object'))
    kt = entry_opt('key_transformer')

    def exempt(name, e):
        if name.startswith('_') or name in OWN:
            return True
        value = e.args[0] if e.args else None
        if name == 'warn_on_fail':
            return q in sequences
        if name == 'attr_getters':
            return q in objects
        if name == 'key_transformer' and value is not None:
            if value[0] == 'evt' and value[2] == kt:
                return True             # a transformed key
            if value[0] == 'D' and value[2] and all(
                    l[0] == 'k' and l[1][0] == 'c' for l in value[2]):
                return True             # a dict of the library's own keys
            if q in mappings and value[0] == 'elem' and \
                    value[1] == ('sym', first_param(ctx, q)):
                return True             # a key
        return False
    return exempt


def first_param(ctx, q):
    a = ctx.prog.functions[q].node.args
    return (a.posonlyargs + a.args)[0].arg


def check(ctx):
    ctx.rule('value flow: at every call that deserializes a part, each '
             'option of the entry must arrive as given, as something '
             'computed from it, or as a value the path conditions prove '
             'equivalent')
    names = [n for n in option_names(ctx, 'deserializer')
             if n != 'fork_inst'] + [GENERIC]
    total = 0
    for q, it, events in lizer_runs(ctx, 'deserializer'):
        ex = exempt_for(ctx, q)
        for e in nested(ctx, 'deserializer', events):
            total += 1
            forwarded(ctx, 'C04', 'deserializer', q, it, e, names, ex)
            ctx.sample('nested_calls', '%s:%s %s' % (
                e.func, e.line, callee_name(ctx, e)))
    entry_forward(ctx, 'deserializer', names, exempt_for(ctx, ''))
    loop_stable(ctx, 'deserializer')
    ctx.count('nested_calls', total)
    ctx.require(total >= 10, 'only %d nested loads found' % total)
