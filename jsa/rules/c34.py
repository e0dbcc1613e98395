"""What a dump contains is decided by its mode. The serializer of objects is
executed abstractly. For every attribute that is dumped on some path, it is
derived where its name comes from: through the helpers, down to what the names
are read from. On a path that is possible for a strict dump as a class, that
must be the given class and nothing of the object; on a path that is possible
for any other dump, it must be all attributes of the object. The declared type
of an attribute, or else the type of its value, must select the serializer.
The element types of lists, tuples and other iterables and the members of
unions must be handed on, and dump itself must select by the given class."""
from ..objects import *
from ..facts import cases
from ..interp import Interp, Policy, Budget

CLS = entry_opt('cls')
STRICT = entry_opt('strict')
COPIES = {'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.dict',
          'builtins.sorted', 'builtins.frozenset', 'builtins.iter',
          'builtins.enumerate', 'builtins.reversed', 'builtins.filter',
          'dict.fromkeys', 'builtins.dict.fromkeys', 'types.MappingProxyType'}


def check(ctx):
    ctx.rule('the names of the attributes of a strict dump as a class come '
             'from that class only')
    ctx.rule('the names of the attributes of any other dump are those of '
             'the object')
    ctx.rule('the declared type of a part selects its serializer and is '
             'handed to it')
    ctx.rule('dump selects the serializer by the given class, or by the '
             'class of the object')
    of_objects(ctx)
    for what in ('builtins.list', 'builtins.tuple', 'typing.Iterable'):
        of_elements(ctx, what)
    of_unions(ctx)
    of_dump(ctx)


def sym(ctx, q):
    return ('sym', first_params(ctx, q, 1)[0])


def is_cls(t, ctx, q):
    return t == CLS or t == ('sym', 'cls')


def run(ctx, q, **kw):
    return parts_run(ctx, q, 'serializer', iters=1, **kw)


# -- where names come from -------------------------------------------------------

class Names:
    """Where names come from, in a strict dump as a class or another one."""
    def __init__(self, ctx, obj, strict):
        self.ctx = ctx
        self.obj = obj
        self.strict = strict
        self.memo = {}

    def together(self, some):
        """Names of several sources: all those of the object and more."""
        whole = {s for s in some if all_of_object(s, self.obj)}
        return whole if whole and not self.strict else set(some)

    def sources(self, t, depth=0):
        """The terms that the name t is read from, as far as known."""
        if depth > 8:
            return {t}
        if t[0] in ('elem', 'idx'):
            return self.container(t[1], depth)
        if t[0] == 'item' and t[2] == const(0) and t[1][0] == 'elem':
            return self.sources(t[1], depth + 1)    # of a pair
        if t[0] == 'attr' and t[2] == 'name':
            return self.sources(t[1], depth + 1)
        if t[0] == 'mcall' and t[2] in ('lstrip', 'strip', 'rstrip',
                                        'replace', 'removeprefix'):
            return self.sources(t[1], depth + 1)
        return {t}

    def container(self, x, depth):
        if x[0] == 'call' and x[1][0] == 'ext' and x[1][1] in COPIES and \
                x[2]:
            return self.container(x[2][-1 if x[1][1].endswith('filter')
                                       else 0], depth + 1)
        if x[0] == 'mcall' and x[2] in ('items', 'keys', 'copy'):
            return self.container(x[1], depth + 1)
        if x[0] == 'bin' and x[1] in ('or', '+', '|'):
            some = self.container(x[2], depth + 1) | \
                self.container(x[3], depth + 1)
            return some if x[1] == 'or' else self.together(some)
        if x[0] == 'ite':
            return set().union(*(self.container(y, depth + 1)
                                 for y in x[2:] if isinstance(y, tuple)))
        if x[0] == 'D':
            out = set()
            for l in x[2]:
                if l[0] == 'k':
                    out |= self.sources(l[1], depth + 1)
                elif l[0] == 'rest':
                    out |= self.container(l[1], depth + 1)
            return self.together(out)
        if x[0] == 'L':
            out = set()
            for i in x[3]:
                out |= self.container(i[1], depth + 1) if i[0] == '*' else \
                    self.sources(i, depth + 1)
            return self.together(out)
        if x[0] == 'tup':
            return self.together(set().union(*(
                self.sources(i, depth + 1) for i in x[1])))
        if x[0] == 'call' and x[1][0] == 'func' and \
                x[1][1] in self.ctx.prog.functions:
            r = self.function(x, depth)
            return {x} if r is None else r
        return {x}

    def function(self, x, depth):
        if x in self.memo:
            return self.memo[x]
        self.memo[x] = None
        it = Interp(self.ctx.prog, Policy(force=(x[1][1],), iters=1,
                                          max_states=6000))
        try:
            ps = it.run(x[1], tuple(x[2]), tuple(x[3]))
        except Budget:
            return None
        self.ctx.samples.setdefault('functions', set()).update(it.analysed)
        self.ctx.count('abstract_paths', len(ps))
        out = set()
        for p in ps:
            if p.ctl != 'N' or \
                    not mode(self.ctx, p)[0 if self.strict else 1]:
                continue
            if p.val == x:
                return None
            out |= self.container(p.val, depth + 1)
        self.memo[x] = out
        return out


def part_of_object(t, obj):
    """t reads the object itself, not only its class."""
    if t == obj:
        return True
    if t in (('attr', obj, '__class__'),
             ('call', ('ext', 'builtins.type'), (obj,), ())):
        return False
    return any(isinstance(x, tuple) and (
        part_of_object(x, obj) if x and isinstance(x[0], str) else any(
            isinstance(y, tuple) and part_of_object(y, obj) for y in x))
        for x in t[1:] if isinstance(x, tuple))


def all_of_object(t, obj):
    """t holds the names of all attributes of the object."""
    if t == ('call', ('ext', 'builtins.dir'), (obj,), ()):
        return True
    return t == ('mcall', obj, '__dir__', (), ()) or \
        t[0] == 'call' and t[1] == ('ext', 'inspect.getmembers') and \
        t[2][:1] == (obj,)


def mode(ctx, p):
    """(may be a strict dump as a class, may be another one)"""
    return (agrees(ctx, p.facts, True, True),
            any(agrees(ctx, p.facts, s, c)
                for s, c in ((True, False), (False, True), (False, False))))


def agrees(ctx, facts, strict, given, depth=3):
    """The conditions do not rule out strictness and a given class."""
    for c, v in facts.items():
        r = holds(c, strict, given)
        if r is None and c[0] == 'truth' and depth:
            cs = cases(ctx, c[1], v)        # of a predicate of the package
            if cs and not any(agrees(ctx, f, strict, given, depth - 1)
                              for f in cs):
                return False
        if r is not None and r is not v:
            return False
    return True


def holds(c, strict, given):
    if c[0] == 'truth':
        return truth(c[1], strict, given)
    if c == ('isnone', CLS):
        return not given
    if c[0] in ('is', 'eq') and STRICT in c[1:]:
        o = c[1] if c[2] == STRICT else c[2]
        return (o == TRUE) is strict if o in (TRUE, FALSE) else None
    return None


def truth(t, strict, given):
    if t == STRICT:
        return strict
    if t == CLS:
        return given
    if t[0] == 'bin' and t[1] in ('and', 'or'):
        rs = [truth(x, strict, given) for x in t[2:4]]
        stop = t[1] == 'or'
        return stop if stop in rs else None if None in rs else not stop
    if t[0] == 'call' and t[1] == ('ext', 'builtins.bool') and \
            len(t[2]) == 1:
        return truth(t[2][0], strict, given)
    return None


def same_class(p, obj):
    for c, v in p.facts.items():
        if v and c[0] in ('is', 'eq') and CLS in c[1:] and any(
                x == ('attr', obj, '__class__') or x == (
                    'call', ('ext', 'builtins.type'), (obj,), ())
                for x in c[1:]):
            return True
    return False


# -- objects ----------------------------------------------------------------------

def of_objects(ctx):
    q = ctx.lizer_for('serializer', 'builtins.object')
    r = run(ctx, q)
    if r is None:
        return
    obj = sym(ctx, q)
    names = {s: Names(ctx, obj, s) for s in (True, False)}
    n = 0
    seen = set()
    for p in r[1]:
        evs = {e.res: e for e in p.events if e.res is not None}
        for e in part_attempts(ctx, 'serializer', p):
            v = e.args[0] if e.args else None
            name = attribute(v, obj)
            if name is None:
                if v is not None and not part_of_object(v, obj):
                    continue
                ctx.undecide('%s dumps %s' % (short(q), short_show(v)
                                              if v else 'nothing'))
                continue
            n += 1
            ctx.count('obligations')
            strict, other = mode(ctx, p)
            key = (name, strict, other)
            if key not in seen:
                seen.add(key)
                if strict:
                    as_class(ctx, q, p, e, names[True].sources(name), obj)
                if other:
                    as_object(ctx, q, e, names[False].sources(name), obj)
            declared(ctx, q, p, e, evs, v, name)
    ctx.require(n, 'the object serializer never dumps an attribute')


def attribute(v, obj):
    """The name of the attribute of obj that v is."""
    if v is None:
        return None
    if v[0] == 'call' and v[1] == ('ext', 'builtins.getattr') and \
            len(v[2]) > 1 and v[2][0] == obj:
        return v[2][1]
    if v[0] == 'mcall' and v[1] == obj and v[2] == '__getattribute__':
        return v[3][0]
    if v[0] == 'item' and v[1] in (
            ('attr', obj, '__dict__'),
            ('call', ('ext', 'builtins.vars'), (obj,), ())):
        return v[2]
    if v[0] == 'attr' and v[1] == obj:
        return const(v[2])
    return None


def as_class(ctx, q, p, e, src, obj):
    for s in sorted(src, key=repr):
        if s[0] in ('c', 'unbound'):
            continue
        if part_of_object(s, obj):
            if not same_class(p, obj):
                ctx.report('strict', '%s/names' % short(q), 'a strict dump '
                           'as a class takes its attributes from %s' %
                           short_show(s, 90), ev=e)
        elif not contains(s, CLS):
            if contains(s, obj):
                ctx.report('strict', '%s/class' % short(q), 'a strict dump '
                           'as a class takes its attributes from the class '
                           'of the object (%s)' % short_show(s, 60), ev=e)
            else:
                ctx.undecide('the names of attributes come from %s' %
                             short_show(s))


def as_object(ctx, q, e, src, obj):
    some = [s for s in sorted(src, key=repr)
            if s[0] not in ('c', 'unbound') and not all_of_object(s, obj)]
    if src and not some and any(all_of_object(s, obj) for s in src):
        return
    s = some[0] if some else NONE
    if s[0] == 'call' and s[1][0] == 'func' and part_of_object(s, obj):
        ctx.undecide('the names of attributes come from %s' % short_show(s))
        return
    ctx.report('other', '%s/names' % short(q), 'a dump that is not a strict '
               'one as a class takes its attributes from %s instead of the '
               'object' % short_show(s, 90), ev=e)


def declared(ctx, q, p, e, evs, v, name):
    """The declared type or the type of the value selects the serializer."""
    t = lookup(e, 'cls', params_of(ctx, e) if e.kind == 'call' else [])
    t = t[1] if t else e.args[1] if len(e.args) > 1 else None
    if t is None or t == NONE or not contains(t, name):
        ctx.report('declared', '%s/type' % short(q), 'the declared type of '
                   'an attribute is not handed to its serializer (%s)' % (
                       short_show(t, 60) if t else 'nothing'), ev=e)
        return
    if e.kind != 'ucall':
        return
    g = evs.get(e.callee)
    if g is None or not g.args:
        return
    by = g.args[0]
    own = (('call', ('ext', 'builtins.type'), (v,), ()),
           ('attr', v, '__class__'))
    given = p.facts.get(('truth', t))
    if given is None and ('isnone', t) in p.facts:
        given = not p.facts[('isnone', t)]
    if by == t:
        ok = given is not False
    elif by in own:
        ok = given is False
    elif by[0] == 'bin' and by[1] == 'or':
        ok = by[2] == t and by[3] in own
    elif by[0] == 'ite':
        ok = True
    else:
        if not contains(by, t) and not any(contains(by, o) for o in own):
            ctx.report('declared', '%s/serializer' % short(q), 'the '
                       'serializer of an attribute is selected by %s' %
                       short_show(by, 80), ev=e)
        return
    if not ok:
        ctx.report('declared', '%s/serializer' % short(q), 'the serializer '
                   'of an attribute is selected by %s although %s' % (
                       'its declared type' if by == t else
                       'the type of its value',
                       'there is none' if by == t else
                       'a type may be declared'), ev=e)


# -- elements ----------------------------------------------------------------------

def of_elements(ctx, what):
    q = ctx.lizer_for('serializer', what)
    r = run(ctx, q)
    if r is None:
        return
    obj = sym(ctx, q)
    n = 0
    for p in r[1]:
        if any(c[0] in ('truth', 'hasattr') and v and '_fields' in repr(c)
               for c, v in p.facts.items()):
            continue                # a named tuple
        evs = {e.res: e for e in p.events if e.res is not None}
        if not mode(ctx, p)[0] or not any(
                c in (('truth', STRICT), ('truth', CLS)) or
                contains(c[1], CLS) for c, v in p.facts.items() if v):
            continue
        if no_args(p):
            continue
        for e in part_attempts(ctx, 'serializer', p):
            if not e.args or e.args[0][0] not in ('elem', 'item'):
                continue
            n += 1
            ctx.count('obligations')
            ps = params_of(ctx, e) if e.kind == 'call' else []
            t = lookup(e, 'cls', ps)
            t = t[1] if t else e.args[1] if len(e.args) > 1 else NONE
            if p.facts.get(('truth', CLS)) is False or \
                    p.facts.get(('isnone', CLS)) is True:
                continue
            if not contains(t, CLS):
                ctx.report('element', '%s/type' % short(q), 'the type of '
                           'the elements of a strict dump is %s, it does '
                           'not come from the given type' % short_show(
                               t, 80), ev=e)
                continue
            if e.kind == 'ucall':
                g = evs.get(e.callee)
                if g is not None and g.args and g.args[0] != t and \
                        not contains(g.args[0], t):
                    ctx.report('element', '%s/serializer' % short(q),
                               'the serializer of an element is selected '
                               'by %s and not by its type' % short_show(
                                   g.args[0], 80), ev=e)
    ctx.count('element_sites', n)


def no_args(p):
    """The given type is known to have no generics."""
    for c, v in p.facts.items():
        if c[0] == 'truth' and not v and c[1][0] == 'call' and \
                contains(c[1], CLS) and c[1][1][0] in ('ext', 'func') and \
                c[1][1][1].endswith('get_args'):
            return True
        if c[0] == 'hasattr' and not v and contains(c[1], CLS) and \
                '__args__' in repr(c[2:]):
            return True
    return False


def of_unions(ctx):
    q = ctx.lizer_for('serializer', 'typing.Union')
    r = run(ctx, q)
    if r is None:
        return
    for p in r[1]:
        for e in part_attempts(ctx, 'serializer', p):
            ctx.count('obligations')
            ps = params_of(ctx, e) if e.kind == 'call' else []
            t = lookup(e, 'cls', ps)
            t = t[1] if t else e.args[1] if len(e.args) > 1 else NONE
            if not contains(t, ('sym', 'cls')) and not contains(t, CLS) or \
                    t in (('sym', 'cls'), CLS):
                ctx.report('member', short(q), '%s dumps the value as %s, '
                           'which is no member of the union' % (
                               short(q), short_show(t, 80)), ev=e)


# -- dump itself --------------------------------------------------------------------

def of_dump(ctx):
    q = ctx.fn('dump')
    B = ctx.api('get_serializer', 'get_validator', 'announce_class',
                'get_deserializer')
    r = ctx.analyse(q, 1, B, B | {'UCALL', 'VCALL'}, iters=1,
                    fallback=False)
    if r is None:
        return
    obj = sym(ctx, q)
    own = (('attr', obj, '__class__'),
           ('call', ('ext', 'builtins.type'), (obj,), ()))
    n = 0
    for p in r[1]:
        evs = {e.res: e for e in p.events if e.res is not None}
        for e in p.events:
            if e.kind != 'ucall' or not is_lizer_result(ctx, e.callee):
                continue
            n += 1
            ctx.count('obligations')
            if not e.args or e.args[0] != obj:
                ctx.report('dump', 'dump/value', 'the serializer gets %s '
                           'instead of the value' % (
                               short_show(e.args[0], 60) if e.args else
                               'nothing'), ev=e)
            c = lookup(e, 'cls', [])
            c = c[1] if c else e.args[1] if len(e.args) > 1 else NONE
            given = p.facts.get(('truth', CLS))
            if given is None and ('isnone', CLS) in p.facts:
                given = not p.facts[('isnone', CLS)]
            if given is not False and not contains(c, CLS):
                ctx.report('dump', 'dump/class', 'the given class is not '
                           'handed to the serializer', ev=e)
            g = evs.get(e.callee)
            if g is None or not g.args:
                continue
            by = g.args[0]
            if by == CLS and given is not False or by in own and \
                    given is False or by[0] == 'bin' and by[1] == 'or' and \
                    by[2] == CLS and by[3] in own:
                continue
            if by in own or by == CLS:
                ctx.report('dump', 'dump/serializer', 'the serializer is '
                           'selected by %s although %s' % (
                               show(by), 'a class may be given' if by in own
                               else 'no class is given'), ev=e)
            elif contains(by, CLS) or contains(by, obj):
                ctx.undecide('dump selects the serializer by %s' %
                             short_show(by))
            else:
                ctx.report('dump', 'dump/serializer', 'the serializer is '
                           'selected by %s' % short_show(by, 80), ev=e)
    ctx.require(n, 'dump never calls a serializer')
