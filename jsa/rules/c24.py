"""Verbose metadata is written in the layout that is read back. The object
serializer is executed abstractly with the helpers that make the metadata
expanded: where the metadata goes, under which keys its parts are, what they
are made of, and which of them each verbosity asks for is read off the
returned terms; the recursive helper that records the types of nested objects
is executed on its own. load and the object deserializer are executed in the
same way, and the keys they look up are compared with those written. The
forms of the paths are compared by evaluating the extracted terms on texts of
uninterpreted letters, which decides them for all names."""
from ..objects import *
from ..caching import cached
from ..letters import Letters, UNKNOWN, TEXT_METHODS
from .c15 import over, given, result_of
from .c27 import resolvers

N1, N2 = '\ue000', '\ue001\ue002\ue003'
OTHER, REST, TAIL = '\ue010\ue011', '\ue020\ue021/\ue022', '\ue030'


class Layout:
    meta = classes = time = root = marker = flag = None
    recorder = None
    roles = None

    def __init__(self):
        self.key = lambda n: '/' + n
        self.below = lambda n: '/' + n + '/'


def check(ctx):
    ctx.rule('the metadata holds what the verbosity asks for, at the root '
             'only, under the keys that load consults')
    ctx.rule('every nested dict is recorded under its path and its marker is '
             'removed')
    ctx.rule('every nested value is loaded with the types recorded below its '
             'path, relative to it')
    lay = Layout()
    verbosities(ctx)
    writer(ctx, lay)
    if lay.recorder:
        recorder(ctx, lay)
    sequences(ctx, lay)
    hints = reader(ctx, lay)
    if hints:
        attributes(ctx, lay, hints)


# -- the verbosities ------------------------------------------------------------------

def verbosities(ctx):
    q = next((c for c in ctx.prog.classes if c.endswith('.Verbosity')), None)
    if q is None:
        return
    vals = {}
    node = ctx.prog.classes[q].node
    for s in node.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            try:
                vals[s.targets[0].id] = fold(s.value, vals)
            except ValueError:
                return
    try:
        a, b = vals['WITH_CLASS_INFO'], vals['WITH_DUMP_TIME']
        n, e = vals['WITH_NOTHING'], vals['WITH_EVERYTHING']
    except KeyError:
        return
    ctx.count('obligations', 3)
    at = Place(q, node.lineno)
    if not a or not b or a & b == a or a & b == b:
        ctx.report('flags', 'Verbosity', 'class info and dump time cannot be '
                   'asked for separately: %r and %r' % (a, b), ev=at)
    if n:
        ctx.report('flags', 'Verbosity', 'WITH_NOTHING asks for something',
                   ev=at)
    if e & a != a or e & b != b:
        ctx.report('flags', 'Verbosity', 'WITH_EVERYTHING lacks something',
                   ev=at)
    for f in ctx.prog.functions:
        if f.startswith(q + '.') and f.endswith('from_value'):
            chosen(ctx, f)


def fold(n, vals):
    if isinstance(n, ast.Constant) and isinstance(n.value, int):
        return n.value
    if isinstance(n, ast.Name) and n.id in vals:
        return vals[n.id]
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left, vals), fold(n.right, vals)
        for t, f in ((ast.BitOr, lambda: a | b), (ast.BitAnd, lambda: a & b),
                     (ast.LShift, lambda: a << b), (ast.Add, lambda: a + b),
                     (ast.BitXor, lambda: a ^ b)):
            if isinstance(n.op, t):
                return f()
    raise ValueError


def member(t):
    for s in subterms(t):
        if s[0] == 'attr' and s[2].startswith('WITH_'):
            return s[2]
        if s[0] == 'ext' and '.WITH_' in s[1]:
            return s[1].rsplit('.', 1)[1]
        if s[0] == 'c' and isinstance(s[2], str) and \
                s[2].startswith('WITH_'):
            return s[2]
    return None


def chosen(ctx, f):
    """from_value: True asks for everything, False and None for nothing."""
    a = ctx.prog.functions[f].node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if not names:
        return
    for v, want in ((TRUE, 'WITH_EVERYTHING'), (FALSE, 'WITH_NOTHING'),
                    (NONE, 'WITH_NOTHING')):
        r = ctx.analyse(f, len(names), (), iters=1, fallback=False,
                        ext_raise=False, raise_ops=False, quiet=True,
                        only={names[-1]: v})
        if r is None:
            return
        for p in r[1]:
            ctx.count('obligations')
            if any(c[0] == 'isinst' and w and c[1] == v
                   for c, w in p.facts.items()):
                continue
            m = member(p.val) if p.ctl == 'N' else None
            if m and m != want:
                ctx.report('verbosity', '%s/%s' % (short(f), show(v)),
                           'verbose=%s stands for %s' % (show(v), m),
                           ev=place(ctx, f))


# -- writing ----------------------------------------------------------------------------

MEMBERS = {'WITH_NOTHING': frozenset(), 'WITH_CLASS_INFO': frozenset('c'),
           'WITH_DUMP_TIME': frozenset('t'),
           'WITH_EVERYTHING': frozenset('ct')}


def level(t, v):
    """The verbosity that t stands for if the one asked for is v."""
    if t[0] == 'bin' and t[1] in ('&', '|', '-', '^'):
        a, b = level(t[2], v), level(t[3], v)
        if a is None or b is None:
            return None
        return {'&': a & b, '|': a | b, '-': a - b, '^': a ^ b}[t[1]]
    if t[0] in ('attr', 'ext', 'cls') and member(t) in MEMBERS:
        return MEMBERS[member(t)]
    if t[0] == 'attr' and t[2] == 'value':
        return level(t[1], v)
    if t == entry_opt('verbose') or t[0] == 'call' and len(t[2]) == 1 and \
            not t[3] and t[1][0] == 'func' and level(t[2][0], v) is not None:
        return v
    return None


def holds(c, v):
    """Whether a condition holds if the verbosity is v."""
    if c[0] == 'truth':
        x = level(c[1], v) if c[1][0] != 'c' else None
        if x is not None:
            return bool(x)
        return holds(c[1], v) if c[1][0] in ('in', 'eq', 'is', 'cmp') \
            else None
    if c[0] == 'cmp':
        c = c[1:]
    if c[0] in ('in', 'eq', 'is', '==') and len(c) == 3:
        x, y = (level(k, v) if k[0] != 'c' else
                frozenset() if k in (FALSE, const(0)) else None
                for k in c[1:])
        if x is not None and y is not None:
            return x <= y if c[0] == 'in' else x == y
    return None


def asked(p):
    """The verbosities with which the path is possible."""
    out = set()
    for v in MEMBERS.values():
        if all(holds(c, v) in (None, w) for c, w in p.facts.items()):
            out.add(v)
    return out


def asks(p, x):
    """Whether all (True) or none (False) of them include something."""
    vs = {x in v for v in asked(p)}
    return vs.pop() if len(vs) == 1 else None


def recursive(ctx, q):
    memo = ctx.__dict__.setdefault('_c24_rec', {})
    if q not in memo:
        memo[q] = _recursive(ctx, q)
    return memo[q]


def _recursive(ctx, q):
    it = Interp(ctx.prog, Policy())
    mod = ctx.prog.functions[q].module.name
    own = {f for f in it.reach.closed(q) if f in ctx.prog.functions and
           ctx.prog.functions[f].module.name == mod and f != q}
    out = set()
    for f in own:
        seen, work = set(), [f]
        while work:
            for g in it.reach.direct.get(work.pop(), ()):
                if g in own and g not in seen:
                    seen.add(g)
                    work.append(g)
        if f in seen:
            out.add(f)
    return out


OFF = ('key_transformer', 'strip_nulls', 'strip_privates',
       'strip_properties', 'strip_class_variables', 'strip_attr', 'fork_inst')


def writer(ctx, lay):
    q = ctx.lizer_for('serializer', 'builtins.object')
    obj = ('sym', first_params(ctx, q, 1)[0])
    rec = recursive(ctx, q)
    B = part_boundary(ctx) | task_helpers(ctx) | rec
    c = set(cached(ctx)) - B
    force = set()
    for _ in range(6):
        r = ctx.analyse(q, 1, B, B | {'UCALL'}, iters=1, fallback=False,
                        dedup=100000, ext_raise=False, raise_ops=False,
                        force=tuple(sorted(force)), max_states=150000,
                        opaque=tuple(sorted(c - force)), without=OFF)
        if r is None:
            return
        more = set()
        for p in r[1]:
            res = {e.res for e in part_attempts(ctx, 'serializer', p)}
            if p.ctl == 'N':
                for s in subterms(p.val):
                    if s[0] == 'call' and s[1][0] == 'func' and any(
                            a[0] == 'D' for a in s[2]):
                        more.add(s[1][1])
            for e in p.events:
                if e.kind == 'opaque' and e.callee[0] == 'func' and any(
                        a in res or a[0] == 'D'
                        for a in list(e.args) + [l[2] for l in e.kw
                                                 if l[0] == 'k']):
                    more.add(e.callee[1])
        more = {f for f in more if f in ctx.prog.functions} - force - rec
        if not more:
            break
        force |= more
    flags(ctx, lay, r[1])
    n = 0
    for p in r[1]:
        if p.ctl == 'N':
            n += written(ctx, q, lay, p, obj)
    if not n:
        ctx.report('never', short(q), 'no metadata is ever written',
                   ev=place(ctx, q))


def flags(ctx, lay, paths):
    """The internal option by which the serializers of parts are told to
    mark their results."""
    vals = {}
    for p in paths:
        ci = asks(p, 'c')
        for e in part_attempts(ctx, 'serializer', p):
            for l in e.kw:
                if l[0] == 'k' and l[1][0] == 'c' and str(
                        l[1][2]).startswith('_'):
                    vals.setdefault(l[1][2], set()).add((ci, l[2]))
    for name, vs in vals.items():
        lay.flag = name
        for ci, v in vs:
            ctx.count('obligations')
            ok = v == (TRUE if ci else FALSE) if ci is not None else None
            if ok is False and v[0] == 'c':
                ctx.report('flag', name, 'parts are told %s=%s although '
                           'class info is %sasked for' % (
                               name, show(v), '' if ci else 'not '),
                           ev=place(ctx, ctx.lizer_for(
                               'serializer', 'builtins.object')))


def class_name(t, ok):
    """t is the qualified name of a class x with ok(x)."""
    for s in subterms(t):
        if s[0] == 'call' and s[2] and ok(s[2][0]):
            return True
        if s[0] == 'attr' and s[2] in ('__qualname__', '__name__') and \
                ok(s[1]):
            return True
    return False


def qualified(t):
    """The name includes the module."""
    if t[0] == 'call' and t[1][0] == 'func' and 'class_name' in t[1][1]:
        return any(l[0] == 'k' and l[1] == const('fully_qualified') and
                   l[2] == TRUE for l in t[3]) or \
            any(a == TRUE for a in t[2][1:])
    return True


def written(ctx, q, lay, p, obj):
    """1 if metadata is written on the path."""
    d = result_of(p.val)
    if d is None:
        return 0
    ctx.count('paths')
    ev = p.events[-1] if p.events else place(ctx, q)
    vs = asked(p)
    if not vs:
        return 0
    nested = given(p.facts, entry_opt(lay.flag)) if lay.flag else None
    rec = [e for e in p.events if e.kind == 'call' and
           e.callee[0] == 'func' and e.callee[1] in recursive(ctx, q)]
    ms = [(l[1], l[2]) for l in d[2] if l[0] == 'k' and l[1][0] == 'c' and
          l[2][0] == 'D']
    marks = marked(ctx, q, lay, p, obj, asks(p, 'c'))
    ctx.count('obligations', 3)
    if not ms:
        if not nested and any(vs):
            ctx.report('missing', short(q), 'no metadata is written although '
                       'the verbosity asks for it', ev=ev)
        if marks and not nested and not rec:
            ctx.report('marker', short(q), 'markers are left in the result',
                       ev=ev)
        return 0
    if nested or nested is None and lay.flag:
        ctx.report('nested', short(q), 'metadata is written into a nested '
                   'object', ev=ev)
        return 0
    if not all(vs):
        ctx.report('nothing', short(q), 'metadata is written although '
                   'nothing was asked for', ev=ev)
        return 0
    k, m = ms[0]
    agree(ctx, q, lay, 'meta', k[2], ev)
    tables = [l for l in m[2] if l[0] == 'k' and l[2][0] == 'D']
    times = [l for l in m[2] if l[0] == 'k' and any(
        s[0] == 'ext' and s[1].startswith('datetime.') or
        s[0] == 'ext' and s[1].startswith('time.')
        for s in subterms(l[2])) and l not in tables]
    for x, got, what in (('c', tables, 'class info'),
                         ('t', times, 'the dump time')):
        ctx.count('obligations')
        if not got and any(x in v for v in vs):
            ctx.report('part', short(q), '%s is asked for but not written' %
                       what, ev=ev)
        if got and any(x not in v for v in vs):
            ctx.report('part', short(q), '%s is written although it is not '
                       'asked for' % what, ev=ev)
    for l in times[:1]:
        agree(ctx, q, lay, 'time', l[1][2], ev)
    for l in tables[:1]:
        agree(ctx, q, lay, 'classes', l[1][2], ev)
        table(ctx, q, lay, p, obj, d, l[2], rec, marks, ev)
    return 1


def agree(ctx, q, lay, what, v, ev):
    old = getattr(lay, what)
    if old is None:
        setattr(lay, what, v)
    elif old != v:
        ctx.report('layout', what, 'the %s is written under %r and under %r' %
                   (what, old, v), ev=ev)


def table(ctx, q, lay, p, obj, d, t, rec, marks, ev):
    ctx.count('obligations', 2)
    own = [l for l in t[2] if l[0] == 'k' and l[1][0] == 'c']
    roots = [l for l in own if class_name(l[2], lambda x: contains(
        x, obj) or contains(x, entry_opt('cls')))]
    if not roots:
        ctx.report('root', short(q), 'the type of the whole is not among the '
                   'types that are written', ev=ev)
        return
    l = roots[-1]
    agree(ctx, q, lay, 'root', l[1][2], ev)
    if not qualified(l[2]):
        ctx.report('root', short(q), 'the name of the type of the whole is '
                   'not fully qualified', ev=ev)
    if given(p.facts, entry_opt('strict')) is False and contains(
            l[2], entry_opt('cls')):
        ctx.report('root', short(q), 'the type of the whole is said to be '
                   'the one given', ev=ev)
    calls = [e for e in rec if any(a[0] == 'D' and a[1] == d[1]
                                   for a in arguments(ctx, e).values())]
    if not calls:
        if recursive(ctx, q):
            ctx.report('record', short(q), 'the types of nested objects are '
                       'not recorded', ev=ev)
        return
    e = calls[-1]
    a = arguments(ctx, e)
    roles = {}
    for n, x in a.items():
        if x[0] == 'D' and x[1] == d[1]:
            roles['obj'] = n
        elif x[0] == 'D' and x[1] == t[1]:
            roles['table'] = n
        elif x[0] == 'c' and isinstance(x[2], str):
            roles['prefix'] = n
            roles['start'] = x[2]
        elif class_name(x, lambda y: True):
            roles['name'] = n
    if 'table' not in roles:
        ctx.report('record', short(q), 'the types of nested objects are not '
                   'recorded with that of the whole', ev=e)
        return
    lay.recorder = e.callee[1]
    lay.roles = roles


def arguments(ctx, e):
    ps = params_of(ctx, e)
    out = dict(zip(ps, e.args))
    for l in e.kw:
        if l[0] == 'k' and l[1][0] == 'c':
            out[l[1][2]] = l[2]
    return out


def marked(ctx, q, lay, p, obj, ci):
    """The markers put into the results of attributes on the path."""
    out = []
    for e in part_attempts(ctx, 'serializer', p):
        if caught_of(p, e) is not None or not e.args:
            continue
        is_dict = p.facts.get(('isinst', e.res, ('ext', 'builtins.dict')))
        muts = [m for m in p.events if m.kind == 'mut' and
                m.extra == 'item=' and m.callee[0] in ('item', 'lookup') and
                m.callee[1] == e.res and m.callee[2][0] == 'c']
        muts += [m for m in p.events if m.kind == 'setitem' and
                 m.callee == e.res]
        out += muts
        ctx.count('obligations')
        if ci and is_dict and not muts:
            ctx.report('unmarked', short(q), 'the type of an attribute is '
                       'not stored although class info is asked for', ev=e)
        if ci is False and muts:
            ctx.report('marked', short(q), 'the type of an attribute is '
                       'stored although class info is not asked for',
                       ev=muts[0])
        if ci and is_dict is not True and muts and is_dict is not None:
            ctx.report('marked', short(q), 'a type is stored in what is no '
                       'dict', ev=muts[0])
        for m in muts:
            if m.kind != 'mut':
                continue
            agree(ctx, q, lay, 'marker', m.callee[2][2], m)
            v = m.args[0]
            if not contains(v, e.args[0]):
                ctx.report('type', short(m.func), 'the type that is stored '
                           'for an attribute is not that of its value: %s' %
                           short_show(v, 80), ev=m)
            elif contains(v, e.res):
                ctx.report('type', short(m.func), 'the type that is stored '
                           'for an attribute is that of its dump', ev=m)
            elif not qualified(v):
                ctx.report('type', short(m.func), 'the name that is stored '
                           'for an attribute is not fully qualified', ev=m)
    return out


# -- recording -----------------------------------------------------------------------

def recorder(ctx, lay):
    f = lay.recorder
    a = ctx.prog.functions[f].node.args
    n = len(a.posonlyargs + a.args)
    ro = {k: ('sym', v) for k, v in lay.roles.items() if k != 'start'}
    obj, tab = ro.get('obj'), ro.get('table')
    B = {f} | part_boundary(ctx)
    c = set(cached(ctx)) - B
    force = set()
    for _ in range(4):
        r = ctx.analyse(f, n, B, B, iters=1, fallback=False, dedup=400,
                        ext_raise=False, raise_ops=False,
                        force=tuple(sorted(force)), max_states=40000,
                        opaque=tuple(sorted(c - force)))
        if r is None:
            return
        more = {e.callee[1] for p in r[1] for e in p.events
                if e.kind == 'opaque' and e.callee[0] == 'func' and any(
                    x == obj or x[0] == 'item' and x[1] == obj
                    for x in list(e.args) + [l[2] for l in e.kw
                                             if l[0] == 'k'])}
        more = {x for x in more if x in ctx.prog.functions} - force
        if not more:
            break
        force |= more
    done = 0
    lay.ignored, lay.given = [], set()
    for p in r[1]:
        if p.ctl == 'N':
            done += recorded(ctx, f, lay, p, ro)
    for p, w in lay.ignored:
        if w is None or w in lay.given:
            ctx.report('name', short(f), 'the type that was stored is not '
                       'what is recorded', ev=place(ctx, f))
    if not done:
        ctx.report('record', short(f), 'no nested type is ever recorded',
                   ev=place(ctx, f))


def recorded(ctx, f, lay, p, ro):
    obj, tab = ro['obj'], ro['table']
    ev = p.events[-1] if p.events else place(ctx, f)
    mk = const(lay.marker) if lay.marker is not None else None
    ctx.count('paths')
    if mk is not None:
        has = p.facts.get(('in', mk, obj))
        gone = [e for e in p.events if e.kind in ('mut', 'mcall') and (
            e.callee in (('item', obj, mk), ('lookup', obj, mk)) and
            e.extra == 'del' or mk in e.args and contains(e.callee, obj))]
        popped = any(s[0] in ('mcall', 'pop') and contains(s, mk) and
                     contains(s, obj) for s in subterms(p.val))
        ctx.count('obligations')
        if has is not False and not gone and not popped:
            ctx.report('marker', short(f), 'the marker %r is left in the '
                       'output' % lay.marker, ev=ev)
        if has and not contains(p.val, mk):
            # the marker is ignored if there is a name: none may be given
            name = lay.roles.get('name')
            if name is None:
                lay.ignored.append((p, None))
            elif p.facts.get(('truth', ro['name'])) is not True and \
                    p.facts.get(('isnone', ro['name'])) is not False:
                lay.ignored.append((p, False))
            else:
                lay.ignored.append((p, True))
    loops = [e for e in p.events if e.kind == 'loop' and over(e, obj)]
    if not any(e.args[0][2] for e in loops):
        return 0
    b = next(e for e in loops if e.args[0][2])
    n = ('elem', obj, 0)
    child = [('item', obj, n), ('lookup', obj, n)]
    d = next((v for c, v in p.facts.items() if c[0] == 'isinst' and
              c[1] in child and c[2] == ('ext', 'builtins.dict')), None)
    is_meta = next((v for c, v in p.facts.items() if c[0] in ('eq', 'is') and
                    {c[1], c[2]} == {n, const(lay.meta)}), None)
    calls = [e for e in p.events if e.kind == 'call' and
             e.callee == ('func', f)]
    puts = [e for e in p.events if e.kind == 'mut' and e.extra == 'item=' and
            e.callee[1] == tab]
    ctx.count('obligations', 2)
    if b.args[1][2] != 'exhausted':
        ctx.report('cut', short(f), 'not all nested objects are visited',
                   ev=b)
        return 0
    if d and is_meta is not True:
        if not calls or not puts:
            ctx.report('record', short(f), 'the type of a nested object may '
                       'not be recorded', ev=b)
            return 0
        if is_meta is None:
            ctx.report('meta', short(f), 'the metadata itself is taken for '
                       'a nested object', ev=b)
    elif calls or puts:
        if is_meta:
            ctx.report('meta', short(f), 'the metadata itself is taken for '
                       'a nested object', ev=b)
        return 0
    else:
        return 0
    e, put = calls[0], puts[0]
    a = arguments(ctx, e)
    names = lay.roles
    if a.get(names['obj']) not in child:
        ctx.report('record', short(f), 'the recursion is not on the nested '
                   'object', ev=e)
        return 0
    if a.get(names['table']) != tab:
        ctx.report('record', short(f), 'the recursion records elsewhere',
                   ev=e)
    if 'name' in names:
        x = a.get(names['name'], NONE)
        lay.given.add(x not in (NONE, FALSE, const('')) and
                      not p.facts.get(('isnone', x)))
    if put.args[0] != e.res and not contains(put.args[0], e.res):
        ctx.report('name', short(f), 'what is recorded is %s' % short_show(
            put.args[0], 80), ev=put)
    path, pre = put.callee[2], a.get(names.get('prefix'))
    start = lay.roles.get('start')
    if pre is None or start is None:
        ctx.undecide('the paths of nested types are made without a prefix')
        return 1
    prefix = ro['prefix']

    def make(t):
        return lambda s, x: Letters({prefix: s, n: x}).ev(t)
    kf, bf = make(path), make(pre)
    for s in (start, start + OTHER + '/', '/' + N2 + '/'):
        for x in texts(lay, path, pre):
            if UNKNOWN in (kf(s, x), bf(s, x)):
                ctx.undecide('the form of a path is not known: %s' %
                             short_show(path))
                return 1
            ctx.count('obligations', 2)
            if kf(s, x) != s + x or bf(s, x) != s + x + '/' and \
                    not bf(s, x).startswith(s + x):
                ctx.report('path', short(f), 'a type is recorded under %s' %
                           short_show(path, 60), ev=put)
                return 1
    for t in (path, pre):
        ctx.count('obligations')
        if joined(t, n) and p.facts.get(
                ('isinst', n, ('ext', 'builtins.str'))) is not True:
            ctx.report('number', short(f), 'the path %s cannot be made for a '
                       'key that is a number' % short_show(t, 60), ev=put)
    lay.key = lambda x: kf(start, x)
    lay.below = lambda x: bf(start, x)
    return 1


def joined(t, n):
    """The key itself is put together with text."""
    for s in subterms(t):
        if s[0] == 'bin' and s[1] == '+' and n in s[2:4]:
            return True
        if s[0] == 'mcall' and s[2] == 'join' and s[3] and s[3][0][0] in (
                'L', 'tup') and n in (s[3][0][3] if s[3][0][0] == 'L' else
                                      s[3][0][1]):
            return True
    return False


# -- sequences: not visited by the recorder ----------------------------------------

def sequences(ctx, lay):
    if lay.flag is None:
        return
    for q in ctx.lizers('serializer'):
        r = parts_run(ctx, q, 'serializer', 1)
        if r is None:
            continue
        for p in r[1]:
            if p.ctl != 'N' or p.val[0] not in ('L', 'evt'):
                continue
            th = [e for e in p.events if ctx.is_call(e, task_helpers(ctx))]
            if p.val[0] == 'evt' and not any(e.res == p.val for e in th):
                continue
            for e in part_attempts(ctx, 'serializer', p) + th:
                ctx.count('obligations')
                got = lookup(e, lay.flag, params_of(ctx, e))
                if got is None or got[1] in (FALSE, NONE) or \
                        got[0] == 'sure' and known_falsy(e, got[1]):
                    continue
                ctx.report('sequence', short(q), 'elements of a list are '
                           'told to leave their metadata to a parent that '
                           'does not look into lists', ev=e)


# -- reading -----------------------------------------------------------------------

def chain(t, obj):
    """Constant keys by which t is read from obj."""
    keys = []
    while t[0] in ('item', 'get', 'lookup'):
        if t[2][0] != 'c' or not isinstance(t[2][2], str):
            return None
        keys.append((t[2][2], t[0]))
        t = t[1]
    return tuple(reversed(keys)) if t == obj and keys else None


def reader(ctx, lay):
    """The option that hands the recorded types to deserializers."""
    q = ctx.fn('load')
    B = (part_boundary(ctx) | ctx.api('validate')) - {q}
    keep = resolvers(ctx)
    obj = ('sym', first_params(ctx, q, 1)[0])
    force = set()
    for _ in range(4):
        r = ctx.analyse(q, 2, B, B | {'UCALL'}, iters=1, fallback=False,
                        dedup=400, ext_raise=False, raise_ops=False,
                        max_states=60000,
                        opaque=tuple(sorted((set(cached(ctx)) - B - force) |
                                            keep)),
                        force=tuple(sorted(force)))
        if r is None:
            return None
        more = {s[1][1] for p in r[1] for e in p.events
                if e.kind == 'ucall' for l in e.kw if l[0] == 'k'
                for s in subterms(l[2])
                if s[0] == 'call' and s[1][0] == 'func' and any(
                    contains(x, obj) for x in s[2])}
        more = {f for f in more if f in ctx.prog.functions} - force - keep
        if not more:
            break
        force |= more
    want = (lay.meta, lay.classes, lay.root)
    if None in want[:2]:
        return None
    hints = None
    at = place(ctx, q)
    for p in r[1]:
        if p.ctl != 'N':
            continue
        seen = {}
        for e in p.events:
            ts = list(e.args) + [l[2] for l in e.kw if l[0] == 'k']
            for t in ts:
                for s in subterms(t):
                    c = chain(s, obj)
                    if c:
                        seen.setdefault(c, e)
            if e.kind != 'ucall':
                continue
            for l in e.kw:
                if l[0] == 'k' and any(
                        (chain(s, obj) or ((None, None),))[-1][0] ==
                        lay.classes for s in subterms(l[2])) and not any(
                        len(chain(s, obj) or ()) > 2 for s in subterms(l[2])):
                    hints = l[1][2]
        for c, e in sorted(seen.items(), key=repr):
            ctx.count('obligations')
            ks = tuple(k for k, _ in c)
            if ks != want[:len(ks)]:
                ctx.report('read', '/'.join(ks), 'load looks for the types '
                           'under %s, but they are written under %s' % (
                               list(ks), list(want)), ev=e)
                continue
            if len(c) > 1 and c[1][1] == 'item' and not p.facts.get(
                    ('in', const(lay.classes), inner_of(obj, c[0]))):
                ctx.report('typeless', short(q), 'metadata without types is '
                           'taken for such with types', ev=e)
            if c[0][1] == 'item' and not p.facts.get(
                    ('in', const(lay.meta), obj)):
                ctx.report('typeless', short(q), 'metadata is read from a '
                           'value that has none', ev=e)
    reach = any(chain(s, obj) and len(chain(s, obj)) == 3
                for p in r[1] for e in p.events
                for t in list(e.args) + [l[2] for l in e.kw if l[0] == 'k']
                for s in subterms(t))
    if not reach:
        ctx.report('read', 'root', 'load does not look for the type of the '
                   'whole under %s' % (list(want),), ev=at)
    if hints is None:
        ctx.report('read', 'hints', 'load does not hand on the types that '
                   'are written under %s' % (list(want[:2]),), ev=at)
        return None
    for p in r[1]:
        if p.ctl != 'N':
            continue
        for e in p.events:
            if e.kind != 'ucall' or not is_lizer_result(ctx, e.callee):
                continue
            ctx.count('obligations')
            own(ctx, q, lay, p, e, obj, hints)
    return hints


def inner_of(obj, k):
    return (k[1], obj, const(k[0])) if k[1] != 'get' else \
        ('get', obj, const(k[0]), NONE)


def own(ctx, q, lay, p, e, obj, hints):
    """The metadata of the value itself comes before that of its parents."""
    got = get(e.kw, hints)
    v = got[1] if got else NONE
    has = p.facts.get(('in', const(lay.meta), obj))
    classes = [s for s in subterms(v) if (chain(s, obj) or ((None, 0),))[
        -1][0] == lay.classes]
    par = entry_opt(hints)
    if has and not classes and any(
            v2 and c[0] == 'in' and c[1] == const(lay.classes)
            for c, v2 in p.facts.items()) and not any(
            c[0] == 'truth' and not v2 and chain(c[1], obj)
            for c, v2 in p.facts.items()):
        ctx.report('own', short(q), 'the types recorded with a value are not '
                   'used for its parts', ev=e)
    if has is False and not contains(v, par):
        known = any(c[0] == 'truth' and not v2 and contains(c[1], par)
                    for c, v2 in p.facts.items())
        if not known:
            ctx.report('parents', short(q), 'the types recorded for a value '
                       'by its parent are not used for its parts', ev=e)


# -- nested values --------------------------------------------------------------------

def attributes(ctx, lay, hints):
    q = ctx.lizer_for('deserializer', 'builtins.object')
    keep = resolvers(ctx)
    obj, cls = (('sym', n) for n in first_params(ctx, q, 2))
    L = {ctx.fn('load')}
    B = load_boundary(ctx)
    M = entry_opt(hints)
    force = set()
    for _ in range(4):
        opq = (set(cached(ctx)) - B - force) | keep
        r = ctx.analyse(q, 2, B, B | {'UCALL'}, iters=1, fallback=False,
                        max_states=150000, raise_ops=False, ext_raise=False,
                        dedup=400, opaque=tuple(sorted(opq)),
                        force=tuple(sorted(force)),
                        without=('key_transformer', 'attr_getters'))
        if r is None:
            return
        more = set()
        for p in r[1]:
            for e in p.events:
                if not ctx.is_call(e, L):
                    continue
                h = lookup(e, hints, params_of(ctx, e))
                c = load_args(ctx, e)[1]
                for t in (h[1] if h else None, c):
                    if t is None:
                        continue
                    for s in subterms(t):
                        if s[0] == 'call' and s[1][0] == 'func' and any(
                                contains(x, M) for x in list(s[2]) + [
                                    l[2] for l in s[3] if l[0] == 'k']):
                            more.add(s[1][1])
        more = {f for f in more if f in ctx.prog.functions} - force - keep
        if not more:
            break
        force |= more
    # all paths of one place and situation together: the loops over the
    # recorded types run once, for a key of any form
    n = typed = 0
    for p in r[1]:
        for e in p.events:
            if not ctx.is_call(e, L) or not e.args:
                continue
            name = name_of(e.args[0], obj)
            if name is None:
                ctx.undecide('it is not known which part %s loads' %
                             short_show(e.args[0]))
                continue
            n += 1
            ctx.count('nested_loads')
            typed += type_key(ctx, q, lay, p, e, name, M)
            below(ctx, q, lay, p, e, name, M, hints)
    ctx.require(n, 'no loads of attributes found')
    if not typed:
        ctx.report('types', short(q), 'the type recorded for an attribute is '
                   'not used', ev=place(ctx, q))


def texts(lay, *ts):
    """Names of uninterpreted letters, also with the literal texts that the
    terms look for at their start or end."""
    out = [N1, N2]
    for t in ts:
        for s in subterms(t):
            c = s[2] if s[0] == 'c' and len(s) > 2 else None
            if isinstance(c, str) and 0 < len(c) <= 8 and '/' not in c and \
                    lay.meta != c and len(out) < 10:
                out += [x for x in (c + N2, N2 + c) if x not in out]
            if s[0] == 'mcall' and s[2] in TEXT_METHODS:
                out += [x for x in (' aB', 'aB ') if x not in out]
    return out


def name_of(t, obj):
    if t[0] in ('item', 'lookup', 'get'):
        b = t[1]
        if b == obj or b[0] == 'D' or contains(b, obj):
            return t[2]
    return None


def type_key(ctx, q, lay, p, e, name, M):
    """1 if the type of the part may come from the recorded types."""
    c = load_args(ctx, e)[1]
    got = 0
    for s in subterms(c) if c is not None else ():
        if s[0] not in ('get', 'item', 'lookup') or s[1] != M:
            continue
        got = 1
        if s[2][0] == 'elem' and s[2][1] == M:
            # found while looking through all of them
            for x in (N1, N2):
                for k in [k for k, _ in candidates(lay, x)]:
                    ctx.count('obligations')
                    w = Letters({name: x, s[2]: k})
                    if k != lay.key(x) and w.feasible(p.facts) and \
                            decided(w, p, s[2]):
                        ctx.report('lookup', short(e.func), 'the type '
                                   'recorded under %s is that of the value '
                                   'named %s' % (readable(k), readable(x)),
                                   ev=e)
                        return 1
            continue
        for x in texts(lay, s[2]):
            w = Letters({name: x})
            if not w.feasible(p.facts):
                continue
            ctx.count('obligations')
            v = w.ev(s[2])
            if v is UNKNOWN:
                ctx.undecide('the type is looked up under %s' %
                             short_show(s[2]))
            elif v != lay.key(x):
                ctx.report('lookup', short(e.func), 'the type of a part is '
                           'looked up under %s, but recorded under %r' % (
                               short_show(s[2], 60), lay.key('name')), ev=e)
                return 1
    return got


def candidates(lay, x):
    """Keys of recorded types, and what each is for the value named x."""
    root = lay.root
    return (
        (lay.key(x), root),
        (lay.below(x) + REST, root + REST),
        (lay.below(x) + OTHER + '/' + x, root + OTHER + '/' + x),
        (root, None), (lay.key(OTHER), None),
        (lay.key(x) + TAIL, None),
        (lay.key(x) + TAIL + '/' + REST, None),
        (lay.below(OTHER) + x, None),
        (lay.below(OTHER) + x + '/' + REST, None),
        (lay.key(x)[:-1], None) if len(x) > 1 else (root, None))


def decided(w, p, K):
    return all(w.cond(c) is not UNKNOWN for c, v in p.facts.items()
               if any(contains(y, K) for y in c[1:] if isinstance(y, tuple)))


def below(ctx, q, lay, p, e, name, M, hints):
    got = lookup(e, hints, params_of(ctx, e))
    h = got[1] if got else None
    if h is None or h == M:
        ctx.report('hints', short(e.func), 'a nested value is loaded with %s' %
                   ('all recorded types of its parent' if h == M else
                    'no recorded types'), ev=e)
        return
    if h[0] != 'D':
        ctx.undecide('a nested value is loaded with the types %s' %
                     short_show(h))
        return
    K = None
    for l in e_loops(p, e, M):
        K = ('elem', M, 0)
    if K is None:
        if h[2]:
            ctx.undecide('nested types are %s' % short_show(h))
        return
    root = lay.root
    for x in texts(lay, *([l[1] for l in h[2] if l[0] == 'k'] + [
            c for c in p.facts if contains(c, K)])):
        for k, want in candidates(lay, x):
            w = Letters({name: x, K: k})
            if not w.feasible(p.facts):
                continue
            ctx.count('obligations')
            out = {}
            for l in h[2]:
                if l[0] != 'k':
                    out = None
                    break
                kk = w.ev(l[1])
                if kk is UNKNOWN:
                    out = None
                    break
                out[kk] = l[2]
            if out is None:
                ctx.undecide('nested types are %s' % short_show(h))
                return
            sure = decided(w, p, K)
            if want is None and out:
                if not sure:
                    continue
                ctx.report('hints', '%s/extra' % short(e.func), 'the type '
                           'recorded under %s is handed to the value named '
                           '%s' % (readable(k), readable(x)), ev=e)
                return
            if want is not None and set(out) != {want}:
                if not sure:
                    continue
                ctx.report('hints', '%s/missing' % short(e.func), 'the type '
                           'recorded under %s is handed to the value named '
                           '%s as %s instead of %s' % (
                               readable(k), readable(x), ', '.join(
                                   map(readable, out)) or 'nothing',
                               readable(want)), ev=e)
                return
            for v in out.values():
                if v not in (('item', M, K), ('lookup', M, K)) and not (
                        v[0] == 'get' and v[1:3] == (M, K)):
                    ctx.report('hints', '%s/value' % short(e.func), 'the '
                               'type that is handed on is %s' %
                               short_show(v, 60), ev=e)
                    return


def e_loops(p, e, M):
    """Loops over the recorded types before the event."""
    return [x for x in p.events if x.kind == 'loop' and over(x, M) and
            x.args[0][2] > 0]


def readable(s):
    for a, b in ((N1, 'a'), (N2, 'name'), (OTHER, 'other'),
                 (REST, 'some/path'), (TAIL, 'x')):
        s = s.replace(a, b)
    return repr(s)
