"""Text and bytes wrappers compose. dumps, dumpb, loads, loadb and transform
are executed abstractly with unknown arguments; on every path the value they
return must be the composition of json.dumps/json.loads, encode/decode and
dump/load of the same value, with the same options, the given json options and
the given encoding."""
from ..options import *

OPTS = ('sym', 'OPTS')


def opt(n):
    return ('opt', OPTS, n)


def ev_of(p, t):
    for e in p.events:
        if e.res == t:
            return e
    return None


def json_opts_ok(p, kw, name='jdkwargs'):
    """The json call gets the given json options (nothing if none given)."""
    j = opt(name)
    bases = rest_bases(kw)
    if [l for l in kw if l[0] == 'k']:
        return False
    if bases == [j]:
        return all(not l[2] for l in kw if l[0] == 'rest')
    return not bases and known_falsy(p, j)


def inner_call(ctx, rule, q, p, t, fn, names, first, cls=None):
    """t is the result of calling fn with the entry's value and options."""
    e = ev_of(p, t)
    where = (q, ctx.prog.functions[q].node.lineno)
    if e is None or not ctx.is_call(e, {ctx.fn(fn)}):
        ctx.report(rule, short(q), '%s is applied to %s, not to the result '
                   'of %s' % (short(q), short_show(t), fn), *where)
        return None
    if not e.args or not first(e.args[0]):
        ctx.report(rule, short(q) + '.value', '%s is called with %s' % (
            fn, short_show(e.args[0]) if e.args else 'nothing'), ev=e)
    miss = passes(e.kw, OPTS, names)
    if miss:
        ctx.report('options', '%s/%s' % (short(q), miss[0]),
                   '%s does not hand the option %s to %s' % (
                       short(q), miss[0], fn), ev=e)
    if cls is not None:
        g = lookup(e, 'cls', params_of(ctx, e))
        if g is None or g[1] not in cls:
            ctx.report(rule, short(q) + '.cls', 'the type given to %s does '
                       'not arrive at %s' % (short(q), fn), ev=e)
    ctx.count('obligations', 3)
    return e


def check(ctx):
    ctx.rule('the returned term of every normal path equals the composition '
             'prescribed for the wrapper')
    dn = [n for n in option_names(ctx, 'serializer')
          if not n.startswith('_')] + [GENERIC]
    ln = [n for n in option_names(ctx, 'deserializer')
          if not n.startswith('_')] + [GENERIC]
    B = ctx.api('dump', 'load')
    runs = {}
    for name in ('dumps', 'dumpb', 'loads', 'loadb', 'transform'):
        r = ctx.analyse(ctx.fn(name), 1, B, B)
        if r is None:
            continue
        ps = [p for p in r[1] if p.ctl == 'N']
        ctx.require(ps, '%s never returns' % name)
        ctx.count('normal_paths', len(ps))
        runs[name] = ps

    obj = lambda name: ('sym', first_param(ctx, name))
    for p in runs.get('dumps', ()):
        dumps_val(ctx, 'dumps', p, p.val, dn, obj('dumps'))
    for p in runs.get('dumpb', ()):
        t = p.val
        q = ctx.fn('dumpb')
        if t[0] == 'call' and is_ext(t[1], 'builtins.bytes') and \
                len(t[2]) >= 2:
            t = ('mcall', t[2][0], 'encode', t[2][1:], t[3])
        if t[0] != 'mcall' or t[2] != 'encode':
            bad(ctx, q, t, 'an encoded text')
            continue
        encoding(ctx, q, t, p)
        dumps_val(ctx, 'dumpb', p, t[1], dn, obj('dumpb'))
    for p in runs.get('loads', ()):
        loads_val(ctx, 'loads', p, lambda t: t == obj('loads'), ln)
    for p in runs.get('loadb', ()):
        def text(t):
            if t[0] == 'call' and is_ext(t[1], 'builtins.str') and \
                    len(t[2]) >= 2:
                t = ('mcall', t[2][0], 'decode', t[2][1:], t[3])
            if t[0] != 'mcall' or t[2] != 'decode' or \
                    t[1] != obj('loadb'):
                return False
            encoding(ctx, ctx.fn('loadb'), t, p)
            return True
        loads_val(ctx, 'loadb', p, text, ln)
    for p in runs.get('transform', ()):
        transform_val(ctx, p, ln)


def first_param(ctx, name):
    a = ctx.prog.functions[ctx.fn(name)].node.args
    return (a.posonlyargs + a.args)[0].arg


def bad(ctx, q, t, what):
    ctx.report('compose', short(q), '%s returns %s instead of %s' % (
        short(q), short_show(t), what), q, ctx.prog.functions[q].node.lineno)


def encoding(ctx, q, t, p):
    g = get(t[4], 'encoding')
    v = t[3][0] if t[3] else g[1] if g else None
    ctx.count('obligations')
    how = (t[3][1] if len(t[3]) > 1 else
           (get(t[4], 'errors') or (0, None))[1])
    if how is not None and how != const('strict') and \
            not contains(how, OPTS):
        ctx.report('encoding', short(q) + '/errors', '%s handles what cannot '
                   'be encoded or decoded with %s, which was not asked '
                   'for' % (short(q), show(how)), q,
                   ctx.prog.functions[q].node.lineno)
    if v != opt('encoding') and not known_falsy(p, opt('encoding')):
        ctx.report('encoding', short(q), '%s uses the encoding %s instead of '
                   'the given one' % (short(q), show(v) if v else
                                      '(default)'), q,
                   ctx.prog.functions[q].node.lineno)


def dumps_val(ctx, name, p, t, names, obj):
    q = ctx.fn(name)
    if not ext_call(t, 'json.dumps') or len(t[2]) != 1:
        return bad(ctx, q, t, 'json.dumps of the dumped value')
    if not json_opts_ok(p, t[3]):
        ctx.report('json-options', name, '%s does not hand exactly the given '
                   'json options to json.dumps' % name, q,
                   ctx.prog.functions[q].node.lineno)
    inner_call(ctx, 'compose', q, p, t[2][0], 'dump', names,
               lambda v: v == obj)


def loads_val(ctx, name, p, text, names):
    q = ctx.fn(name)

    def parsed(t):
        if not ext_call(t, 'json.loads') or len(t[2]) != 1:
            return False
        if not json_opts_ok(p, t[3]):
            ctx.report('json-options', name, '%s does not hand exactly the '
                       'given json options to json.loads' % name, q,
                       ctx.prog.functions[q].node.lineno)
        return text(t[2][0])
    inner_call(ctx, 'compose', q, p, p.val, 'load', names, parsed,
               (opt('cls'),))


def transform_val(ctx, p, names):
    q = ctx.fn('transform')
    src = ('sym', first_param(ctx, 'transform'))

    def mapped(t):
        m = opt('mapper')
        if t[0] == 'evt' and t[2] == m:
            e = ev_of(p, t)
            t = e.args[0] if e and e.args else t
        elif not known_falsy(p, m):
            return False
        d = ev_of(p, t)
        return d is not None and ctx.is_call(d, {ctx.fn('dump')}) and \
            d.args and d.args[0] == src and dump_args(d)

    def dump_args(d):
        cls = d.args[1] if len(d.args) > 1 else (
            get(d.kw, 'cls') or (0, None))[1]
        if cls != opt('dump_cls') and not known_falsy(p, opt('dump_cls')):
            return False
        k = opt('dump_kwargs')
        if known_falsy(p, k):
            return not rest_bases(d.kw)
        return rest_bases(d.kw) == [k]
    inner_call(ctx, 'compose', q, p, p.val, 'load', names, mapped,
               (opt('cls'),))
