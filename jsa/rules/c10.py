"""None is loaded only where the target type admits it. load is executed
abstractly for the JSON value None and an unknown target: every path that
returns or reaches a deserializer must carry conditions that make the target
absent, Any, object, the None type or a union with the None type among its
members (conditions are read through the predicates of the package). The
default deserializers are executed abstractly as well: a constructor
parameter, field or element that becomes None without a load needs the same
conditions for its hint, and a nested load of None must not be given another,
wider type than the hint."""
from ..objects import *


def value_events(p):
    """(event, stored value, key) of every store into a built container."""
    for e in p.events:
        if e.kind == 'append' and e.args:
            yield e, e.args[-1], None
        elif e.kind == 'setitem' and len(e.args) > 1:
            yield e, e.args[1], e.args[0]


def check(ctx):
    ctx.rule('load of None reaches a deserializer or returns only under '
             'conditions that make the target admit None')
    ctx.rule('a parameter, field or element becomes None only under the '
             'same conditions on its hint')
    fl = ctx.fn('load')
    names = first_params(ctx, fl, 2)
    cls = ('sym', names[1])
    B = ctx.api('get_deserializer', 'get_validator', 'announce_class',
                'get_serializer')
    r = run_none(ctx, fl, B, cls)
    ok = [p for p in (r[1] if r else ()) if p.ctl == 'N']
    ctx.require(r is None or ok, 'load of None never succeeds')
    for p in (r[1] if r else ()):
        work = [e for e in p.events if e.kind == 'ucall' and
                is_lizer_result(ctx, e.callee)]
        ctx.count('paths_of_load_none')
        if p.ctl == 'N':
            judge(ctx, dict(p.facts), cls, 'load/returns', fl,
                  'load returns for None')
        elif work:
            judge(ctx, dict(p.facts), cls, 'load/deserializer', fl,
                  'load hands None to a deserializer')
        guarded(ctx, p.facts, fl)
    for t in sorted(NONE_TYPES):
        r = run_none(ctx, fl, B, t)
        if r and not any(p.ctl == 'N' for p in r[1]):
            ctx.report('admit', 'load/%s' % show(t), 'load(None, %s) can '
                       'never succeed' % show(t), fl,
                       ctx.prog.functions[fl].node.lineno)
    objects(ctx)
    for q in ctx.lizers('deserializer'):
        parts(ctx, q)


def maybe_none(t):
    """t is read with the default None."""
    if t == NONE:
        return True
    if t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and \
            len(t[2]) > 2:
        return maybe_none(t[2][2])
    if t[0] == 'get':
        return maybe_none(t[3]) if len(t) > 3 else True
    return False


def guarded(ctx, facts, q, depth=2, asked=None):
    """No membership test of a container that may be None."""
    for c, v in list(facts.items()):
        if c[0] == 'in' and maybe_none(c[2]) and \
                not facts.get(('truth', c[2])) and \
                facts.get(('isnone', c[2])) is not False:
            ctx.report('none', 'test of %s' % short_show(c[2], 60),
                       'whether None is admitted is looked up in %s, which '
                       'may be None itself (TypeError)' % short_show(
                           c[2], 60), q, ctx.prog.functions[q].node.lineno)
        if depth and c[0] == 'truth' and c[1][0] == 'call' and \
                c[1] != asked:
            for f in cases(ctx, c[1], v) or ():
                guarded(ctx, f, q, depth - 1, c[1])


def refusals(ctx, q, paths):
    """A part is refused for want of a value only if None will not do."""
    error = ctx.cls('UnfulfilledArgumentError')
    for p in paths:
        if p.ctl != 'X' or p.val[0] != 'new' or \
                not subclass_of(ctx, p.val[1], error):
            continue
        ev = next((e for e in reversed(p.events) if e.kind == 'raise'), None)
        for t in sorted(NONE_TYPES):
            ctx.count('obligations')
            if not entails(ctx, dict(p.facts), lambda f: excluded(f, t)):
                ctx.report('refuse', 'raise@%s' % short(q), 'a missing or '
                           'null part is refused although nothing on the '
                           'path says that its type is not %s' % show(t),
                           ev=ev or Place(
                               q, ctx.prog.functions[q].node.lineno))
                break


def excluded(facts, t):
    for c, v in facts.items():
        if c[0] == 'truth' and not v and is_hint(c[1]) and not (
                c[1][0] == 'call' and c[1][1][0] == 'func' and
                not c[1][1][1].endswith('get_type_hints')):
            return True                         # there is no hint
        if c[0] == 'isnone' and is_hint(c[1]) and c[1][0] != 'call' and (
                v or t == NONE):
            return True
        if c[0] == 'in' and not v and is_hint(c[1]) and t in _items(c[2]):
            return True
        if c[0] == 'in' and not v and is_hint(c[2]) and \
                c[1] not in NONE_TYPES:
            return True                         # there is no hint
        if c[0] in ('eq', 'is') and len(c) > 2:
            for a, b in (c[1:3], c[2:0:-1]):
                if is_hint(a) and (v and b[0] in ('ext', 'c', 'cls') and
                                   b != t or not v and b == t):
                    return True
        if c[0] in ('isinst', 'truth') and is_hint(c[1]) and v and \
                t == NONE and c[1][0] != 'call':
            return True
    return False


def _items(t):
    return t[1] if t[0] == 'tup' else t[3] if t[0] == 'L' else ()


def run_none(ctx, fl, B, cls):
    it = Interp(ctx.prog, Policy(boundary=B, interest=B | {'VCALL', 'RAISE'},
                                 iters=1, dedup=400))
    try:
        ps = it.run(('func', fl), (NONE, cls),
                    (('rest', OPTS, frozenset()),))
    except Budget:
        ctx.undecide('load of None: state budget exceeded')
        return None
    ctx.count('entries')
    ctx.count('abstract_paths', len(ps))
    ctx.samples.setdefault('functions', set()).update(it.analysed)
    return it, ps


def judge(ctx, facts, cls, construct, q, msg):
    ctx.count('obligations')
    if not entails(ctx, facts, lambda f: admits_none(f, lambda t: t == cls)):
        ctx.report('none', construct, '%s although nothing on the path says '
                   'that the target admits None' % msg, q,
                   ctx.prog.functions[q].node.lineno)


def judge_hint(ctx, facts, key, construct, msg, ev):
    ctx.count('obligations')
    if not entails(ctx, facts, lambda f: admits_none(
            f, lambda t: is_hint(t, key))):
        ctx.report('none', construct, '%s although nothing on the path says '
                   'that its type admits None' % msg, ev=ev)


def objects(ctx):
    r = object_run(ctx, {'RAISE'})
    if r is None:
        return
    q, obj, cls, it, paths = r
    n = 0
    for p in paths:
        for e in constructor_calls(p, cls):
            for l in e.kw:
                if l[0] != 'k':
                    continue
                n += 1
                if is_none(e.facts, l[2]) and not from_getter(l[2]):
                    judge_hint(ctx, e.facts, l[1], 'constructor@%s' % e.func,
                               'the parameter %s becomes None' %
                               short_show(l[1], 50), e)
        nested_none(ctx, p, obj)
    refusals(ctx, q, paths)
    ctx.require(n, 'no constructor argument of the object deserializer was '
                'found')


def from_getter(t):
    return t[0] == 'evt'


def nested_none(ctx, p, obj):
    for e in p.events:
        if not ctx.is_call(e, {ctx.fn('load')}):
            continue
        j, c = load_args(ctx, e)
        if j is None or not is_none(e.facts, j) or \
                c is not None and c not in NONE_TYPES:
            continue
        if c is None or c == NONE:
            # no type given: right if there is none for this part
            if not any(v and c2[0] in ('truth', 'eq') and is_hint(c2[1])
                       for c2, v in e.facts.items()):
                continue
        judge_hint(ctx, e.facts, None, 'nested load@%s' % e.func,
                   'None is loaded as %s' % (show(c) if c else
                                             'whatever it is'), e)


def parts(ctx, q):
    if q == ctx.lizer_for('deserializer', 'builtins.object'):
        return
    B = load_boundary(ctx) - ctx.api('get_deserializer')
    r = ctx.analyse(q, 2, B, B | {'UCALL', 'RAISE'}, iters=1,
                    fallback=False,
                    max_states=6000)
    if r is None:
        return
    refusals(ctx, q, r[1])
    obj = ('sym', first_params(ctx, q, 1)[0])
    for p in r[1]:
        ctx.count('paths_of_deserializers')
        for e, v, key in value_events(p):
            if is_none(e.facts, v) and v[0] != 'evt' and \
                    (v == NONE or contains(v, obj)):
                judge_hint(ctx, e.facts, None, 'element@%s' % e.func,
                           'an element becomes None without a load', e)
        if p.ctl == 'N':
            for v in built_parts(p.val):
                if is_none(p.facts, v) and (v == NONE or contains(v, obj)):
                    judge_hint(ctx, p.facts, None, 'result@%s' % q,
                               'an element becomes None without a load',
                               Place(q, ctx.prog.functions[q].node.lineno))
        nested_none(ctx, p, obj)


class Place:
    def __init__(self, func, line):
        self.func, self.line = func, line


def built_parts(t):
    """Values in the containers a result is built of."""
    out = []
    if t[0] == 'tup':
        out = list(t[1])
    elif t[0] == 'L':
        out = list(t[3])
    elif t[0] == 'D':
        out = [l[2] for l in t[2] if l[0] == 'k']
    elif t[0] == 'call' and t[1][0] == 'ext' and len(t[2]) == 1:
        return built_parts(t[2][0])
    return out + [y for x in out for y in built_parts(x)]
