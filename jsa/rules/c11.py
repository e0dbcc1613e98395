"""A strict load rejects unknown keys before constructing anything. The
default object deserializer is executed abstractly. Where the class is called
and strict is not known to be off, every key of the (transformed) input must be
known to be the metadata or to belong to the constructor: it occurs among the
parameters or among the arguments, or what is left after taking those away is
known to be empty. A path that raises the mismatch error must exist and name a
key, the input and the class. Where strict is off, every other key must be set
on the instance with its loaded value."""
from ..objects import *

STRICT = entry_opt('strict')
KT = entry_opt('key_transformer')


def check(ctx):
    ctx.rule('where the class is called although strict may be on, every key '
             'of the input is known to be metadata or a parameter')
    ctx.rule('without strict every other key is set on the instance')
    r = object_run(ctx, {'RAISE'})
    if r is None:
        return
    q, obj, cls, it, paths = r
    built = raised = 0
    for p in paths:
        cc = constructor_calls(p, cls)
        if cc:
            built += 1
            if known_falsy(cc[0], STRICT):
                remaining(ctx, q, p, obj, cls, cc[0])
            else:
                strict(ctx, q, p, obj, cls, cc[0])
        if p.ctl == 'X' and mismatch(ctx, p.val):
            raised += 1
            error(ctx, q, p, obj, cls)
            if cc:
                ctx.report('late', short(q), 'the class is called before an '
                           'unknown key is rejected', ev=cc[0])
    ctx.count('constructor_calls', built)
    ctx.require(built, 'the class is never called')
    if not raised:
        ctx.report('never', short(q), 'no path of %s raises a signature '
                   'mismatch error' % short(q), ev=place(ctx, q))


def mismatch(ctx, t):
    return t[0] == 'new' and any(
        k and k[0] == 'class' and short(k[1].qual) == 'SignatureMismatchError'
        for k in ctx.prog.mro(ctx.prog.classes[t[1]]))


def keys_of(p, obj):
    """{key element of the input: its name after the transformer}."""
    out = {}
    for c in p.facts:
        for x in c[1:]:
            for s in subterms(x):
                if s[0] == 'elem' and s[1] == obj:
                    out.setdefault(s, s)
    for e in p.events:
        for a in e.args:
            for s in subterms(a):
                if s[0] == 'elem' and s[1] == obj:
                    out.setdefault(s, s)
        if e.kind == 'ucall' and e.callee == KT and e.args and \
                e.args[0][0] == 'elem' and e.args[0][1] == obj:
            out[e.args[0]] = e.res
    return out


def is_params(t, cls, e):
    """t holds the constructor's parameters or the arguments made of them."""
    for s in subterms(t):
        if s[0] == 'call' and s[1][0] == 'ext' and s[1][1] in (
                'inspect.signature', 'inspect.getfullargspec'):
            return True
        if s[0] in ('call', 'evt') and any(
                x[0] == 'func' and x[1].endswith('_get_signature')
                for x in subterms(s)):
            return True
        if s[0] == 'attr' and s[2] in ('__code__', 'co_varnames'):
            return True
    if t[0] == 'D':
        keys = {l[1] for l in e.kw if l[0] == 'k'}
        mine = {l[1] for l in t[2] if l[0] == 'k'}
        return bool(mine) and mine <= keys or not t[2] and not keys
    return False


def is_params_sym(t, cls, e):
    """A container compared with: parameters, arguments, or the metadata."""
    if t == const('-meta') or t[0] == 'tup' and all(
            is_params_sym(x, cls, e) for x in t[1]) or t[0] == 'L' and all(
            x[0] != '*' and is_params_sym(x, cls, e) or x[0] == '*' and
            is_params_sym(x[1], cls, e) for x in t[3]):
        return True
    if t[0] == 'call' and t[1][0] == 'ext' and len(t[2]) == 1 and \
            t[1][1].startswith('builtins.'):
        return is_params_sym(t[2][0], cls, e)
    if t[0] == 'mcall' and t[2] in ('keys', 'copy') and not t[3]:
        return is_params_sym(t[1], cls, e)
    if t[0] == 'mcall' and t[2] == 'union' or t[0] == 'bin' and \
            t[1] in ('|', '+'):
        parts = [t[1]] + list(t[3]) if t[0] == 'mcall' else list(t[2:])
        return all(is_params_sym(x, cls, e) for x in parts)
    if t[0] == 'view':
        return any(isinstance(x, tuple) and is_params_sym(x, cls, e)
                   for x in t[1:])
    return is_params(t, cls, e)


def accounted(p, k, cls, e):
    for c, v in e.facts.items():
        if not v:
            continue
        if c[0] == 'in' and c[1] == k and is_params_sym(c[2], cls, e):
            return True
        if c[0] in ('eq', 'is') and k in c[1:]:
            o = c[2] if c[1] == k else c[1]
            if o == const('-meta') or is_params(o, cls, e):
                return True
    return False


def emptied(p, obj, cls, e):
    """What remains of the input without the parameters is empty; None, True
    or the reason why it is not right."""
    for c, v in e.facts.items():
        t = c[1]
        if c[0] == 'eq' and v and c[2] == const(0) or \
                c[0] == 'truth' and not v or \
                c[0] == 'lt' and v and c[1] == const(0):
            pass
        else:
            continue
        if c[0] == 'lt':
            t = c[2]
        ks = keys_of(p, obj)
        if not contains(t, obj) and not any(
                contains(t, k) for k in ks.values()):
            continue
        taken, left = [], t
        while True:
            if left[0] == 'bin' and left[1] == '-':
                taken.append(left[3])
                left = left[2]
            elif left[0] == 'mcall' and left[2] == 'difference':
                taken += list(left[3])
                left = left[1]
            elif left[0] == 'call' and left[1][0] == 'ext' and \
                    len(left[2]) == 1:
                left = left[2][0]
            else:
                break
        if not taken:
            continue
        bad = [x for x in taken if not is_params_sym(x, cls, e)]
        return show(bad[0]) if bad else True
    return None


def strict(ctx, q, p, obj, cls, e):
    if e.facts.get(('truth', obj)) is False:
        return
    ctx.count('strict_constructions')
    ctx.count('obligations')
    if emptied(p, obj, cls, e) is True:
        return
    ks = keys_of(p, obj)
    kt = e.facts.get(('truth', KT))
    if not ks:
        if any(v is False and c == ('truth', s) for c, v in e.facts.items()
               for s in subterms(c[1]) if contains(s, obj)):
            return              # the input is empty
        ctx.report('unchecked', short(q), 'the class is called although the '
                   'keys of a strict input have not been looked at', ev=e)
        return
    for raw, k in ks.items():
        if accounted(p, k, cls, e):
            continue
        if k != raw and accounted(p, raw, cls, e):
            ctx.report('raw', short(q), 'the keys of a strict input are '
                       'checked without the key transformer', ev=e)
            continue
        ctx.report('unknown', short(q), 'the class is called although a key '
                   'of a strict input need not belong to it%s' % (
                       why(p, k, e)), ev=e)


def why(p, k, e):
    fs = [c for c, v in e.facts.items() if any(
        contains(x, k) for x in c[1:])]
    if not fs:
        return ''
    c = fs[-1]
    return ' (%s %s of %s)' % (c[0], e.facts[c], ', '.join(
        show(x)[:50] for x in c[1:]))


def bind(ctx, t):
    """Arguments of a constructed package error by parameter name."""
    c = ctx.prog.classes.get(t[1])
    params = None
    for k in ctx.prog.mro(c):
        if k and k[0] == 'class' and '__init__' in k[1].members:
            a = k[1].members['__init__'].node.args
            params = [x.arg for x in a.posonlyargs + a.args][1:]
            break
    out = {}
    for i, x in enumerate(t[2]):
        if params and i < len(params):
            out[params[i]] = x
    for l in t[3]:
        if l[0] == 'k':
            out[l[1][2]] = l[2]
    return out


def error(ctx, q, p, obj, cls):
    ctx.count('obligations')
    if known_none(p, STRICT):
        ctx.report('lenient', short(q), 'a load that is not strict rejects '
                   'unknown keys', ev=place(ctx, q))
    b = bind(ctx, p.val)
    if b.get('target') not in (cls, None) or b.get('source') == cls:
        ctx.report('error', short(q) + '/target', 'the mismatch error is '
                   'made with the target %s' % short_show(
                       b.get('target') or NONE), ev=place(ctx, q))
    src = b.get('source')
    if src is not None and src[0] == 'D' and not keys_of(p, obj):
        return                  # an empty input: no real path
    if src is None or not contains(src, obj):
        ctx.report('error', short(q) + '/source', 'the mismatch error is '
                   'made with the source %s' % short_show(src or NONE),
                   ev=place(ctx, q))
    arg = b.get('argument')
    ks = keys_of(p, obj)
    names = set(ks) | set(ks.values())
    if arg is None or arg[0] == 'sym' or arg[0] == 'c' or not (
            any(contains(arg, n) for n in names) or contains(arg, obj)):
        ctx.report('error', short(q) + '/argument', 'the mismatch error '
                   'names %s instead of an unknown key' % short_show(
                       arg or NONE), ev=place(ctx, q))
    elif arg in names and any(v and c[0] in ('in', 'eq') and arg in c[1:]
                              for c, v in p.facts.items()
                              if c[0] != 'in' or c[2] != obj):
        ctx.report('error', short(q) + '/known', 'the mismatch error names a '
                   'key that is known', ev=place(ctx, q))


def known_none(p, o):
    return p.facts.get(('truth', o)) is False


def remaining(ctx, q, p, obj, cls, e):
    """strict is off: keys that are no parameters are set."""
    if p.ctl != 'N':
        return
    inst = e.res
    set_names = {}
    for m in p.events:
        if m.kind in ('mut', 'setattr', 'ext') and m.callee:
            c = m.callee
            if c[0] == 'attr*' and c[1] == inst:
                set_names[c[2]] = m
            elif m.kind == 'setattr' and m.args and c == inst:
                set_names[m.args[0]] = m
    for raw, k in keys_of(p, obj).items():
        known = [v for c, v in p.facts.items() if c[0] == 'in' and
                 c[1] == k and is_params_sym(c[2], cls, e)]
        none = not any(l[0] == 'k' for l in e.kw)
        if not (known and not any(known) or none):
            continue
        if p.facts.get(('eq', k, const('-meta'))) is not False:
            continue
        ctx.count('remaining_keys')
        if k not in set_names:
            ctx.report('lost', short(q), 'a key that is no parameter is not '
                       'set on the instance%s' % why(p, k, e), ev=e)
            continue
        m = set_names[k]
        v = m.args[-1]
        ld = load_of(ctx, p, v) if is_load(ctx, v) else None
        if ld is None:
            ctx.report('value', short(q), 'the attribute of a key that is no '
                       'parameter becomes %s, which was not loaded' %
                       short_show(v), ev=m)
            continue
        j, _ = load_args(ctx, ld)
        if j is None or not contains(j, raw):
            ctx.report('value', short(q), 'the attribute of a key that is no '
                       'parameter is loaded from %s' % short_show(j or NONE),
                       ev=m)
