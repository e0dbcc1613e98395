"""Errors carry what they are about. The constructors of the error classes are
executed abstractly on symbols: afterwards every attribute must be the very
symbol given for it, also for the error recreated the way pickle recreates it.
Every path of loading that makes an error is enumerated: what it gives as the
source, target and argument must be the value, type and name at hand."""
from ..objects import *
from ..interp import Interp, Policy
from .c11 import bind

KNOWN = ('message', 'source', 'target', 'argument', 'target_name')


def check(ctx):
    ctx.rule('an attribute of an error is the argument it was made with')
    ctx.rule('the error that pickle recreates has the same attributes')
    ctx.rule('errors of loading are made with the value at hand as source, '
             'its type as target and the parameter name as argument')
    classes(ctx)
    sites(ctx)


# -- classes -----------------------------------------------------------------

def error_classes(ctx):
    out = []
    for q, c in sorted(ctx.prog.classes.items()):
        m = ctx.prog.mro(c)
        if any(e and e[0] == 'ext' and e[1] in (
                'builtins.Exception', 'builtins.BaseException') for e in m):
            out.append((q, c))
    return out


def init_params(ctx, c):
    for e in ctx.prog.mro(c):
        if e and e[0] == 'class' and '__init__' in e[1].members:
            a = e[1].members['__init__'].node.args
            return [x.arg for x in a.posonlyargs + a.args][1:] + [
                x.arg for x in a.kwonlyargs]
    return None


def probe(ctx, name, params, body):
    """Paths of a client function that works on errors."""
    src = 'def f(%s):\n%s' % (', '.join(params), ''.join(
        '    %s\n' % l for l in body))
    return name, src


def run_probe(ctx, mod, src, params):
    if mod not in ctx.prog.modules:
        ctx.prog.add_module(mod, src)
    it = Interp(ctx.prog, Policy(inline_all=True, exc_objects=True,
                                 raise_ops=False, max_states=2000))
    try:
        return it.run(('func', mod + '.f'),
                      tuple(('sym', p) for p in params), ())
    except Exception as err:
        ctx.undecide('%s: %s' % (mod, err))
        return None


def member_of(ctx, c, name):
    for e in ctx.prog.mro(c):
        if e and e[0] == 'class' and name in e[1].members:
            return e[1].members[name]
    return None


def classes(ctx):
    found = 0
    for q, c in error_classes(ctx):
        params = init_params(ctx, c)
        if params is None:
            continue
        found += 1
        mod, _, name = q.rpartition('.')
        attrs = [p for p in params if p in KNOWN]
        bases = {short(e[1].qual) for e in ctx.prog.mro(c)
                 if e and e[0] == 'class'}
        line = c.node.lineno
        where = Place(q, line)
        for need, base in (('message', 'JsonsError'),
                           ('source', 'DeserializationError'),
                           ('argument', 'ArgumentError')):
            if base in bases and need not in params:
                ctx.report('class', '%s/%s' % (short(q), need),
                           '%s does not take a %s' % (name, need), ev=where)
        if 'DecodeError' in bases and 'error' in params:
            extra = [('doc', ('attr', ('sym', 'error'), 'doc')),
                     ('pos', ('attr', ('sym', 'error'), 'pos'))]
        else:
            extra = []
        want = [('sym', p) for p in attrs] + [x for _, x in extra]
        attrs = attrs + [n for n, _ in extra]
        head = ['from %s import %s as C' % (mod, name)]
        make = ['e = C(%s)' % ', '.join(params)]
        get = ['return (%s,)' % ', '.join('%s.' + a for a in attrs)]
        ps = client(ctx, 'jsa_make_' + name, head, make + [
            get[0].replace('%s', 'e')], params)
        compare(ctx, 'attribute', q, attrs, want, ps, where,
                'of an error as made')
        pickled(ctx, q, c, head, make, get[0], params, attrs, want, where)
    ctx.count('error_classes', found)
    ctx.require(found >= 5, 'the error classes were not found')


def client(ctx, mod, head, body, params):
    src = '\n'.join(head) + '\n\n\ndef f(%s):\n' % ', '.join(params) + \
        ''.join('    %s\n' % l for l in body)
    return run_probe(ctx, mod, src, params)


def compare(ctx, rule, q, attrs, want, paths, where, what):
    if paths is None:
        return
    for p in paths:
        if p.ctl != 'N':
            ctx.count('obligations')
            ctx.report(rule, '%s/raises' % short(q), 'an attribute %s cannot '
                       'be read: %s' % (what, short_show(p.val)), ev=where)
            continue
        if p.val[0] != 'tup' or len(p.val[1]) != len(attrs):
            ctx.undecide('%s: %s' % (short(q), short_show(p.val)))
            continue
        for a, w, v in zip(attrs, want, p.val[1]):
            ctx.count('obligations')
            if v == w or p.facts.get(('is', v, w)) or p.facts.get(
                    ('eq', v, w)):
                continue
            if any(s[0] == 'havoc' for s in subterms(v)):
                ctx.undecide('%s.%s: %s' % (short(q), a, short_show(v)))
                continue
            ctx.report(rule, '%s/%s' % (short(q), a), 'the attribute %s %s is '
                       '%s' % (a, what, short_show(v)), ev=where)


def pickled(ctx, q, c, head, make, get, params, attrs, want, where):
    name = short(q).rpartition('.')[2]
    hooks = [h for h in ('__getstate__', '__getnewargs__',
                         '__getnewargs_ex__', '__copy__')
             if member_of(ctx, c, h) is not None]
    if hooks:
        ctx.undecide('%s: pickled with %s' % (short(q), ', '.join(hooks)))
        return
    red = '__reduce_ex__' if member_of(ctx, c, '__reduce_ex__') is not None \
        else '__reduce__'
    lines = list(make)
    n = 3
    if member_of(ctx, c, red) is not None:
        call = 'e.%s(%s)' % (red, '2' if red == '__reduce_ex__' else '')
        ps = client(ctx, 'jsa_reduce_' + name, head,
                    make + ['return ' + call], params)
        sizes = {len(p.val[1]) if p.ctl == 'N' and p.val[0] == 'tup' else None
                 for p in ps or ()}
        if ps is None or len(sizes) != 1 or None in sizes:
            ctx.undecide('%s: what %s returns' % (short(q), red))
            return
        n = sizes.pop()
        lines += ['r = ' + call]
    else:
        first = [e[1] for e in ctx.prog.mro(c) if e and e[0] == 'ext']
        if any(b.endswith('JSONDecodeError') for b in first):
            lines += ['r = (C, (e.msg, e.doc, e.pos))']
            n = 2
        else:
            lines += ['r = (C, e.args, e.__dict__)']
    lines += ['o = r[0](*r[1])']
    if n > 2:
        lines += ['o.__setstate__(r[2])' if member_of(
            ctx, c, '__setstate__') is not None else
            'o.__dict__.update(r[2])']
    lines += [get.replace('%s', 'o')]
    ps = client(ctx, 'jsa_pickle_' + name, head, lines, params)
    compare(ctx, 'pickle', q, attrs, want, ps, where, 'of an unpickled error')


# -- where errors are made ---------------------------------------------------

STRINGY = {'builtins.str', 'builtins.repr', 'builtins.format',
           'builtins.len', 'builtins.id', 'builtins.hash', 'builtins.bool'}


def makers(ctx, name):
    """Functions whose body makes an error of the class."""
    out = set()
    for q, f in ctx.prog.functions.items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                x = n.func
                nm = x.id if isinstance(x, ast.Name) else \
                    x.attr if isinstance(x, ast.Attribute) else None
                if nm == name:
                    out.add(q)
    return out


def subclass_of(ctx, t, name):
    c = ctx.prog.classes.get(t[1]) if t[0] == 'new' else None
    return c is not None and any(
        k and k[0] == 'class' and k[1].qual.rpartition('.')[2] == name
        for k in ctx.prog.mro(c))


def sites(ctx):
    from ..caching import cached
    B = part_boundary(ctx) | task_helpers(ctx)
    lz = set(ctx.lizers('deserializer'))
    opq = set(cached(ctx)) - B
    it = Interp(ctx.prog, Policy())
    unknown = makers(ctx, 'UnknownClassError')
    looked = {q for q in opq
              if (it.reach.closed(q) | {q}) & unknown}
    seen = set()
    slow = {ctx.fn('load'), ctx.lizer_for('deserializer',
                                          'builtins.object')}
    runs = [(ctx.fn('load'), opq, True), (ctx.fn('loads'), opq, True),
            (ctx.fn('loadb'), opq, True)]
    runs += [(q, opq, False) for q in ctx.lizers('deserializer')]
    for q, o, ext in runs:
        b = (B | (lz if q in lz else ctx.api('loads'))) - {q}
        r = None
        for n in (1,) if q in slow else (2, 1):
            r = ctx.analyse(q, 2, b, b | {'UCALL', 'RAISE'}, iters=n,
                            fallback=False, dedup=400, ext_raise=ext,
                            max_states=30000, opaque=tuple(sorted(o)),
                            quiet=n > 1, force=tuple(sorted(unknown)),
                            simple=q not in slow)
            if r is not None:
                break
        if r is None:
            continue
        names = first_params(ctx, q, 2)
        if len(names) < 2:      # nothing to aim at
            names = names + ['cls']
        obj, cls = (('sym', n) for n in names)
        one_run(ctx, q, obj, cls, r[1], seen)
    lookups(ctx, looked | unknown)
    ctx.count('raise_sites', len(seen))
    ctx.require(len(seen) >= 8, 'the errors of loading were not found')


def one_run(ctx, q, obj, cls, paths, seen):
    for p in paths:
        made = [(e, e.callee) for e in p.events if e.kind == 'raise']
        if p.ctl == 'X' and not any(v == p.val for _, v in made):
            made.append((None, p.val))
        for e, t in made:
            if not subclass_of(ctx, t, 'DeserializationError'):
                continue
            where = e or place(ctx, q)
            seen.add((where.func, where.line))
            b = bind(ctx, t)
            n = short(t[1]).rpartition('.')[2]
            site = '%s/%s' % (short(where.func), n)
            ctx.sample('errors', '%s: source %s, target %s' % (
                site, short_show(b.get('source') or NONE),
                short_show(b.get('target') or NONE)))
            facts = e.facts if e is not None else p.facts
            s = b.get('source')
            pair = same_error(s, b.get('target'))
            ctx.count('obligations')
            bad = None if pair else source_bad(s, obj, cls, facts)
            if bad:
                ctx.report('source', site, 'an error is made with %s as the '
                           'source' % bad, ev=where)
            if 'target_name' not in b:
                ctx.count('obligations')
                bad = None if pair else target_bad(
                    ctx, p, b.get('target'), obj, cls, s, facts)
                if bad:
                    ctx.report('target', site, 'an error is made with %s as '
                               'the target' % bad, ev=where)
            else:
                ctx.count('obligations')
                v = b['target_name']
                if v == obj or v[0] in ('fmt', 'ext', 'opt') or \
                        v[0] == 'sym' and v != cls:
                    ctx.report('target_name', site, 'an error is made with '
                               '%s as the name of its target' %
                               short_show(v), ev=where)
            if 'argument' in b and n != 'SignatureMismatchError':
                ctx.count('obligations')
                bad = argument_bad(p, b['argument'], obj, cls, facts)
                if bad:
                    ctx.report('argument', site, 'an error names %s as the '
                               'argument' % bad, ev=where)
            elif 'argument' in b:
                ctx.count('obligations')
                bad = unexpected_bad(b['argument'], obj)
                if bad:
                    ctx.report('argument', site, 'an error names %s as the '
                               'argument' % bad, ev=where)
            if 'error' in b and n == 'DecodeError':
                ctx.count('obligations')
                if b['error'][0] != 'exc':
                    ctx.report('error', site, 'a decode error wraps %s' %
                               short_show(b['error']), ev=where)


def same_error(s, t):
    """Both are what another error of loading was about."""
    return s is not None and t is not None and s[0] == 'attr' and \
        t[0] == 'attr' and s[1] == t[1] and s[2] in ('source', '_source') \
        and t[2] in ('target', '_target')


def part_of(t, obj):
    while True:
        if t == obj:
            return True
        if t[0] in ('elem', 'item'):
            t = t[1]
        elif t[0] == 'get' or t[0] == 'mcall' and t[2] in ('get', 'pop'):
            t = t[1]
        elif t[0] == 'view':
            t = next((x for x in t[1:] if isinstance(x, tuple)), NONE)
        elif t[0] == 'idx':
            t = t[1] if isinstance(t[1], tuple) else NONE
        else:
            return False


def source_bad(s, obj, cls, facts):
    if s is None:
        return 'nothing'
    if part_of(s, obj):
        if any(x == const('-meta') for x in subterms(s)):
            return 'the metadata'
        return None
    if s[0] == 'D':
        kt = facts.get(('truth', ('opt', OPTS, 'key_transformer')))
        whole = all(l[0] == 'rest' and l[1] == obj for l in s[2])
        if whole and s[2]:
            return None
        if not s[2] and facts.get(('truth', obj)) is not True:
            return None             # the input is empty
        if all(l[0] == 'k' and part_of(l[2], obj) for l in s[2]) and \
                kt is not False and not any(
                    l[1][0] == 'elem' for l in s[2]):
            return None             # the input with other keys
        return '%s, a part of the input,' % short_show(s)
    if s[0] == 'call' and s[1] in (
            ('ext', 'builtins.dict'), ('ext', 'builtins.list'),
            ('ext', 'copy.copy'), ('ext', 'copy.deepcopy')) and \
            len(s[2]) == 1 and part_of(s[2][0], obj):
        return None
    if s[0] == 'attr' and s[2] in ('source', '_source'):
        return None
    if any(x[0] == 'havoc' for x in subterms(s)):
        return None
    if s[0] == 'attr' and s[1][0] == 'exc':
        if s[2] == 'doc' and 'json' in str(s[1]):
            return None
        return short_show(s)
    if not contains(s, obj) and any(
            x[0] == 'evt' or x[0] == 'call' and x[1][0] == 'func'
            for x in subterms(s)):
        return short_show(s) if contains(s, cls) else None
    return short_show(s)


def target_bad(ctx, p, t, obj, cls, source, facts):
    if t is None:
        return 'nothing'
    if t == cls or any(x[0] == 'havoc' for x in subterms(t)):
        return None
    gd = ctx.api('get_deserializer')
    for e in p.events:
        if ctx.is_call(e, gd) and e.args and e.args[0] == t:
            return None             # the type that the deserializer is of
    if facts.get(('is', t, cls)) or facts.get(('eq', t, cls)):
        return None
    if t == NONE:
        if facts.get(('isnone', cls)) or facts.get(('truth', cls)) is False:
            return None
        return 'None'
    if t[0] == 'attr' and t[2] in ('target', '_target'):
        return None
    if t[0] in ('c', 'fmt', 'D', 'L', 'tup', 'sym', 'opt'):
        return short_show(t)
    if t[0] == 'ext':
        known = facts_of_str(facts, cls)
        if known or known is None and not t[1].startswith('builtins.') or \
                p_calls(p, t, gd, ctx):
            return None
        return show(t)
    if part_of(t, obj):
        return short_show(t)
    if t[0] == 'call' and t[1][0] == 'ext' and (
            t[1][1] in STRINGY or t[1][1] == 'builtins.type'):
        return short_show(t)
    if t[0] == 'mcall' and t[2] in ('format', 'join', 'lower', 'split',
                                    'strip', 'upper'):
        return short_show(t)
    if t[0] == 'attr' and t[2] in ('__name__', '__qualname__', '__module__',
                                   '__class__'):
        return short_show(t)
    if t[0] == 'call' and t[1][0] == 'func':
        if returns_text(ctx, t[1][1]):
            return short_show(t)
        return None
    if t[0] in ('item', 'elem', 'mcall', 'evt', 'get') and source is not None and \
            whole(source, obj):
        b = t[1]
        if t[0] == 'evt':
            b = t[2][1] if t[2][0] == 'attr' else NONE
        return '%s, the type of a part,' % short_show(t) \
            if isinstance(b, tuple) and type_args(b) else None
    return None


def whole(s, obj):
    return s == obj or s[0] == 'D'


def returns_text(ctx, q):
    memo = ctx.prog.__dict__.setdefault('_c23_text', {})
    if q not in memo:
        memo[q] = False
        try:
            it = Interp(ctx.prog, Policy(inline_all=True, raise_ops=False,
                                         max_states=4000))
            ps = [p for p in it.run_entry(q) if p.ctl == 'N']
            memo[q] = bool(ps) and any(texty(p.val) for p in ps)
        except Exception:
            pass
    return memo[q]


def texty(t):
    return t[0] == 'fmt' or t[0] == 'c' and t[1] == 'str' or \
        t[0] == 'call' and t[1] == ('ext', 'builtins.str') or \
        t[0] == 'mcall' and t[2] in ('format', 'join', 'lower', 'replace') \
        or t[0] == 'attr' and t[2] in ('__name__', '__qualname__')


def type_args(t):
    return t[0] in ('call', 'evt') and any(
        s[0] in ('func', 'ext') and s[1].endswith((
            'get_args', 'get_union_params', 'get_type_hints'))
        for s in t[1:3] if isinstance(s, tuple)) or t[0] == 'attr' and t[2] in (
            '__args__', '__union_params__', '__annotations__')


def facts_of_str(facts, cls):
    return facts.get(('isinst', cls, ('ext', 'builtins.str')))


def p_calls(p, t, gd, ctx):
    return any(ctx.is_call(e, gd) and t in e.args for e in p.events)


def argument_bad(p, a, obj, cls, facts):
    def of_params(t):
        return contains(t, cls) and any(
            s[0] == 'attr' and s[2] in ('_fields', '__code__',
                                        '__annotations__') or
            s[0] == 'call' and s[1][0] in ('func', 'ext') and
            'signature' in s[1][1].lower() for s in subterms(t))
    if a is None:
        return 'nothing'
    if a[0] == 'attr' and a[2] == 'name':
        a = a[1]
    if a[0] in ('sym', 'opt', 'c', 'fmt', 'D', 'L', 'ext') or \
            part_of(a, obj):
        return short_show(a)
    if not of_params(a):
        return None
    if is_hint(a) and a[0] == 'item':
        return short_show(a)
    if a[0] == 'elem':
        last = None
        for c, v in facts.items():
            some = [s for x in c[1:] for s in subterms(x)
                    if s[0] == 'elem' and s[1] == a[1]]
            if some:
                last = a if a in some else some[-1]
        if last is not None and last != a and not any(
                contains(x, a) and v is False and c[0] == 'in'
                for c, v in facts.items() for x in c[1:]):
            return '%s instead of %s' % (short_show(a), short_show(last))
    return None


def unexpected_bad(a, obj):
    """The key that does not fit is one that was found not to fit, rather
    than any key of the input."""
    if a is None:
        return 'nothing'
    if a[0] in ('sym', 'opt', 'c', 'D', 'L', 'ext') or a == obj:
        return short_show(a)
    t = a
    while t[0] in ('item', 'view', 'mcall', 'call', 'idx'):
        if t[0] == 'view':
            if 'values' in t[1:]:
                return short_show(a)
            t = next((x for x in t[1:] if isinstance(x, tuple)), NONE)
        elif t[0] == 'mcall' and t[2] not in ('keys', '__iter__'):
            return short_show(a) if t[2] in ('values', 'get', 'pop') else None
        elif t[0] == 'call':
            if t[1] not in (('ext', 'builtins.list'), ('ext', 'builtins.iter'),
                            ('ext', 'builtins.next'),
                            ('ext', 'builtins.tuple')) or not t[2]:
                return None
            t = t[2][0]
        else:
            t = t[1] if isinstance(t[1], tuple) else NONE
        if t == obj:
            return '%s, any key of the input,' % short_show(a)
    return None


def lookups(ctx, funcs):
    """Where a class is looked up by its name."""
    for q in sorted(funcs):
        b = part_boundary(ctx) - {q}
        r = ctx.analyse(q, None, b, b | {'UCALL', 'RAISE'}, iters=1,
                        fallback=False, ext_raise=False, max_states=20000)
        if r is None:
            continue
        for p in r[1]:
            made = [(e, e.callee) for e in p.events if e.kind == 'raise']
            for e, t in made:
                if not subclass_of(ctx, t, 'UnknownClassError'):
                    continue
                bd = bind(ctx, t)
                s, n = bd.get('source'), bd.get('target_name')
                site = '%s/UnknownClassError' % short(e.func)
                for what, v in (('source', s), ('target_name', n)):
                    ctx.count('obligations')
                    if v is None or v[0] in ('c', 'ext', 'fmt') or \
                            v[0] == 'call' and v[1][0] == 'ext' and \
                            v[1][1] in STRINGY:
                        ctx.report(what, site, 'an error is made with %s as '
                                   'the %s' % (short_show(v or NONE), what),
                                   ev=e)
                if s == n:
                    ctx.report('source', site + '/same', 'an error is made '
                               'with %s as the source and as the name' %
                               short_show(s), ev=e)
                names = [c[1] for c in searched(ctx, p)]
                if n is not None and names and not any(
                        x == n or contains(n, x) or contains(x, n)
                        for x in names):
                    ctx.report('target_name', site + '/other', 'an error '
                               'names %s although the class was looked up as '
                               '%s' % (short_show(n), short_show(names[0])),
                               ev=e)
                if s is not None and any(x == s for x in names):
                    ctx.report('source', site + '/name', 'an error is made '
                               'with the name %s as the source' %
                               short_show(s), ev=e)


def searched(ctx, p):
    """(registry, key) of the lookups among the announced classes."""
    out = []
    for c in p.facts:
        for x in c[1:]:
            for s in subterms(x):
                if s[0] == 'mcall' and s[2] in ('get', 'pop') and s[3] and \
                        s[1][0] == 'attr':
                    out.append((s[1], s[3][0]))
                elif s[0] in ('item', 'get', 'lookup') and \
                        s[1][0] == 'attr' and s[1][2].startswith('_'):
                    out.append((s[1], s[2]))
        if c[0] == 'in' and c[2][0] == 'attr':
            out.append((c[2], c[1]))
    return out
