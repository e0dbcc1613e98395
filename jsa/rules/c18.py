"""Values are dispatched to the most specific default, by type order. (1) The
default registrations are replayed from the module-level statements of the
package into two ordered lists (high priority in front, low priority at the
end); in each list a class with another function may not stand behind one of
its superclasses, a class that derives from Enum must find the function of Enum
first, and what can be written can be read. (2) The register functions are
executed abstractly: per class one entry is inserted in front or at the end,
as the priority says, and the function is stored under the name of the class.
(3) The lookup functions are executed abstractly: a function stored under the
name of the type wins, then that of the first class of the list that the type
is a subclass of. (4) Under compatible conditions the name used for storing and
the name used for looking up are the same term, built from module and name."""
import collections
import enum

from ..caching import cached
from ..interp import ext_object
from ..interp import Budget
from ..objects import *


def check(ctx):
    ctx.rule('no default registration stands behind one for a superclass')
    ctx.rule('registering inserts the class in front or at the end of the '
             'list and stores the function under the name of the class')
    ctx.rule('the function under the name of the type wins, then that of the '
             'first class of the list that is a superclass')
    ctx.rule('storing and looking up build the same name')
    defaults(ctx)
    for what in ('serializer', 'deserializer', 'validator'):
        registered(ctx, what)


# -- the default registrations --------------------------------------------------

def real(t):
    if t == NONE or t == ('ext', 'builtins.NoneType'):
        return type(None)
    if t is None or t[0] != 'ext':
        return None
    return ext_object(t[1])


def naked(o):
    return getattr(o, '__extra__', getattr(o, '__origin__', o))


def sub(a, b):
    try:
        return issubclass(naked(a), b)
    except (TypeError, AttributeError):
        return False


def order(ctx, kind):
    out = []
    for k, fn, classes, prio, e in ctx.registry():
        if k != kind:
            continue
        for c in classes:
            o = real(c)
            if o is None:
                ctx.undecide('registration of %s' % show(c or NONE))
                continue
            if prio:
                out.insert(0, (o, fn, e))
            else:
                out.append((o, fn, e))
    return out


def exact(l, o):
    """The function stored under the name of o (the last registration)."""
    r = [(e.line, i, fn) for i, (c, fn, e) in enumerate(l) if c is o]
    return max(r)[2] if r else None


WITNESSES = [enum.IntEnum, enum.IntFlag, enum.Flag] + (
    [enum.StrEnum] if hasattr(enum, 'StrEnum') else [])


def defaults(ctx):
    lists = {k: order(ctx, k) for k in ('serializer', 'deserializer')}
    for kind, l in lists.items():
        for i, (c, fn, e) in enumerate(l):
            for d, fn2, e2 in l[i + 1:]:
                ctx.count('pairs')
                if fn2 != fn and d is not c and naked(d) is not naked(c) \
                        and sub(d, c):
                    ctx.report('order', '%s/%s' % (kind, name(d)),
                               'the %s for %s stands behind the one for %s, '
                               'its superclass: subclasses of %s get %s' % (
                                   kind, name(d), name(c), name(d),
                                   short_show(fn)), ev=e2)
        want = next((fn for c, fn, e in l if c is enum.Enum), None)
        for w in WITNESSES:
            got = exact(l, w) or next(
                (fn for c, fn, e in l if sub(w, c)), None)
            ctx.count('obligations')
            if want is None or got != want:
                ctx.report('enum', '%s/%s' % (kind, name(w)), 'a %s is given '
                           'to %s, not to the %s of enums' % (
                               name(w), short_show(got or NONE), kind),
                           ev=l[0][2])
            gotsub = next((fn for c, fn, e in l if sub(w, c)), None)
            if gotsub != want:
                ctx.report('enum', '%s/subclass of %s' % (kind, name(w)),
                           'members of a %s are given to %s, not to the %s of '
                           'enums' % (name(w), short_show(gotsub or NONE),
                                      kind), ev=l[0][2])
        for top in (object, collections.abc.Iterable):
            if not any(naked(c) is top for c, fn, e in l):
                ctx.report('missing', '%s/%s' % (kind, name(top)),
                           'there is no default %s for %s' % (
                               kind, name(top)), ev=l[0][2])
    have = [c for c, fn, e in lists['deserializer']]
    for c, fn, e in lists['serializer']:
        ctx.count('obligations')
        if not any(naked(d) is naked(c) for d in have) and not any(
                sub(c, d) for d in have if naked(d) not in (
                    object, collections.abc.Iterable)):
            ctx.report('pair', name(c), 'values of %s have a default '
                       'serializer but no deserializer' % name(c), ev=e)
    have = [c for c, fn, e in lists['serializer']]
    for c, fn, e in lists['deserializer']:
        if not any(naked(d) is naked(c) for d in have) and not any(
                sub(naked(c), d) for d in have if naked(d) not in (
                    object, collections.abc.Iterable)):
            ctx.report('pair', name(c), 'values of %s have a default '
                       'deserializer but no serializer' % name(c), ev=e)


def name(o):
    return getattr(o, '__name__', None) or str(o)


# -- registering ------------------------------------------------------------------

def norm(t):
    """Spellings of the lower-case name are made equal."""
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        return t
    t = tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'call' and t[1] == ('ext', 'builtins.str.lower') and \
            len(t[2]) == 1:
        return ('mcall', t[2][0], 'lower', (), ())
    if t[0] == 'call' and t[1] == ('attr', ('ext', 'builtins.str'),
                                   'lower') and len(t[2]) == 1:
        return ('mcall', t[2][0], 'lower', (), ())
    if t[0] == 'mcall' and t[2] == 'lower' and t[1] == (
            'ext', 'builtins.str') and len(t[3]) == 1:
        return ('mcall', t[3][0], 'lower', (), ())
    return t


def params(ctx, q):
    a = ctx.prog.functions[q].node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def runs(ctx, q, npos):
    clear = {f for f in ctx.prog.functions if short(f) == 'clear'}
    clear |= set(ctx.api('dump', 'load'))
    return ctx.analyse(q, npos, clear, clear | {'UCALL', 'LOOP'},
                       raise_ops=False, inline_all=True, dedup=400, iters=2,
                       max_states=60000, fallback=False, raise_only=('issubclass',
                                                   'builtins.issubclass'),
                       opaque=tuple(sorted(set(cached(ctx)) - {q})))


def expand(ctx, t):
    """[(facts, term)]: the calls of package functions in t replaced by what
    they return."""
    call = next((s for s in subterms(t) if s[0] == 'call' and
                 s[1][0] == 'func' and s[1][1] in ctx.prog.functions), None)
    if call is None:
        return [({}, norm(t))]
    memo = ctx.prog.__dict__.setdefault('_c18_expand', {})
    if call not in memo:
        it = Interp(ctx.prog, Policy(inline_all=True, raise_ops=False,
                                     dedup=400, max_states=4000))
        try:
            ps = it.run(call[1], tuple(call[2]), tuple(call[3]))
        except Budget:
            ps = ()
        memo[call] = [(dict(p.facts), it.freeze(p.val, p.st))
                      for p in ps if p.ctl == 'N']
    out = []
    for facts, v in memo[call]:
        if contains(v, call):
            continue
        for f2, t2 in expand(ctx, swap(t, call, v)):
            if all(facts.get(c, b) == b for c, b in f2.items()):
                out.append(({**facts, **f2}, t2))
    return out


def registered(ctx, what):
    q = ctx.fn('set_' + what)
    ps = params(ctx, q)
    r = runs(ctx, q, len(first_params(ctx, q, 99)))
    if r is None:
        return
    func, cls = ('sym', ps[0]), ('sym', ps[1])
    npos = len(first_params(ctx, q, 99))

    def term(n):
        return ('sym', n) if n in ps[:npos] else entry_opt(n)
    prio, fork = term('high_prio'), term('fork_inst')
    S, C, keys = set(), set(), []
    lists = []
    for p in r[1]:
        if p.ctl != 'N':
            continue
        ctx.count('register_paths')
        targets = [cls]
        if any(c[0] == 'isinst' and c[1] == cls and v
               for c, v in p.facts.items()) or any(
                   e.kind == 'loop' and contains(e.callee, cls)
                   for e in p.events):
            ls = [e for e in p.events if e.kind == 'loop' and
                  e.callee == cls]
            n = max([e.args[0][2] for e in ls] or [0])
            if any(e.args[1] != const('exhausted') for e in ls):
                ctx.report('sequence', short(q), 'not every class of a '
                           'sequence is registered', ev=place(ctx, q))
            targets = [('elem', cls, i) for i in range(n)]
        puts = [e for e in p.events if e.kind == 'mut' and e.callee[0] ==
                'item' and e.callee[1][0] == 'attr' and
                e.callee[1][1] == fork]
        ins = [e for e in p.events if e.kind == 'mut' and e.callee[0] ==
               'attr' and e.callee[1] == fork and e.extra in (
                   '.insert', '.append')]
        rec = [e for e in p.events if e.kind == 'recursive' and
               e.callee == ('func', q)]
        done = []
        for e in rec:
            d = dict(zip(ps, e.args))
            for l in e.kw:
                if l[0] == 'k':
                    d[l[1][2]] = l[2]
            done.append(d.get(ps[1]))
            ctx.count('obligations')
            for n2, t in ((ps[0], func), ('high_prio', prio),
                          ('fork_inst', fork)):
                if n2 in ps and d.get(n2) != t:
                    ctx.report('sequence', '%s/%s' % (short(q), n2),
                               'the classes of a sequence are registered '
                               'with another %s' % n2, ev=e)
        for e in puts:
            if not e.args or e.args[0] != func:
                ctx.report('store', short(q), 'what is stored for a class is '
                           '%s' % short_show(e.args[0] if e.args else NONE),
                           ev=e)
            S.add(e.callee[1][2])
        for t in targets:
            if t in done:
                if done.count(t) > 1 or done != targets:
                    ctx.report('sequence', short(q) + '/twice', 'a class of '
                               'a sequence is registered twice or out of '
                               'order', ev=rec[0])
                continue
            ctx.count('obligations')
            if p.facts.get(('truth', t)) is False or p.facts.get(
                    ('isnone', t)) is True:
                ks = [norm(e.callee[2]) for e in puts]
                if const('nonetype') not in ks and not any(
                        contains(k, t) for k in ks) and len(targets) == 1 \
                        and not rec and targets[0] == cls and \
                        not isinstance_seq(p, cls):
                    ctx.report('none', short(q), 'the function for None is '
                               'not stored under the name of NoneType',
                               ev=place(ctx, q))
                continue
            mine = [e for e in puts if contains(e.callee[2], t)]
            mins = [e for e in ins if e.args and e.args[-1] == t]
            if not mine:
                ctx.report('store', short(q) + '/missing', 'the function for '
                           'a class is not stored under its name',
                           ev=place(ctx, q))
            if len(mins) != 1:
                ctx.report('list', short(q), 'a class is inserted %d times '
                           'into the ordered list' % len(mins),
                           ev=place(ctx, q))
                continue
            e = mins[0]
            C.add(e.callee[2])
            front = e.extra == '.insert' and e.args[0] == const(0)
            end = e.extra == '.append' or e.args[0] == (
                'call', ('ext', 'builtins.len'), (e.callee,), ())
            want = p.facts.get(('truth', prio))
            if 'high_prio' not in ps:
                want = False
            if want is None or (want and not front) or (
                    not want and not end):
                ctx.report('priority', short(q), 'with high_prio=%s a class '
                           'is inserted at %s' % (want, short_show(
                               e.args[0]) if e.extra == '.insert'
                               else 'the end'), ev=e)
            for e in mine:
                for facts, k in expand(ctx, swap(e.callee[2], t, cls)):
                    keys.append(({**facts_about(p.facts, t, cls), **facts},
                                 k, e))
    ctx.require(S and C and keys, '%s was not understood' % q)
    if len(S) != 1 or len(C) != 1:
        ctx.report('tables', short(q), 'registrations go to several tables: '
                   '%s' % ', '.join(sorted(S | C)), ev=place(ctx, q))
        return
    lookup_side(ctx, what, S.pop(), C.pop(), keys)


def isinstance_seq(p, cls):
    return any(c[0] == 'isinst' and c[1] == cls and v
               for c, v in p.facts.items())


def swap(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or t and t[0] == 'c':
        return t
    return tuple(swap(x, a, b) if isinstance(x, tuple) else x for x in t)


def facts_about(facts, t, cls):
    return {swap(c, t, cls): v for c, v in facts.items()
            if any(contains(x, t) for x in c[1:])}


# -- looking up --------------------------------------------------------------------

def lookups(t, fork):
    """[(table, key)] of the reads of a fork's tables in a term."""
    out = []
    for s in subterms(t):
        base = key = None
        if s[0] in ('item', 'lookup'):
            base, key = s[1], s[2]
        elif s[0] == 'get':
            base, key = s[1], s[2]
        elif s[0] == 'mcall' and s[2] in ('get', '__getitem__') and s[3]:
            base, key = s[1], s[3][0]
        if base and base[0] == 'attr' and base[1] == fork:
            out.append((base[2], norm(key)))
    return out


def is_sub(c, cls, x):
    return c[0] == 'truth' and c[1][0] == 'call' and \
        c[1][1] == ('ext', 'builtins.issubclass') and len(c[1][2]) == 2 and \
        contains(c[1][2][0], cls) and c[1][2][1] == x


def lookup_side(ctx, what, S, C, keys):
    q = ctx.fn('get_' + what)
    r = runs(ctx, q, 2)
    if r is None:
        return
    cls, fork = (('sym', n) for n in first_params(ctx, q, 2))
    allkeys = [k for _, k, _ in keys]
    if not any(any(s[0] == 'c' and s[2] == '__module__' or s[0] == 'attr'
                   and s[2] == '__module__' for s in subterms(k))
               for k in allkeys):
        ctx.report('name', 'set_' + what, 'the name of a class is made '
                   'without its module: classes of the same name replace '
                   'each other', ev=keys[0][2])
    loop = ('attr', fork, C)
    seen_exact = seen_parent = 0
    for p in r[1]:
        if p.ctl != 'N':
            continue
        ctx.count('lookup_paths')
        used = [x for x in lookups(p.val, fork)]
        for c in p.facts:
            for x in c[1:]:
                used += lookups(x, fork)
        for tab, k in used:
            ctx.count('obligations')
            if tab != S:
                ctx.report('tables', short(q), 'set_%s stores in %s, but %s '
                           'reads %s' % (what, S, short(q), tab),
                           ev=place(ctx, q))
        for e in p.events:
            if e.kind == 'loop' and e.callee[0] == 'attr' and \
                    e.callee[1] == fork and e.callee[2] != C:
                ctx.report('tables', short(q) + '/list', 'set_%s inserts '
                           'into %s, but %s goes through %s' % (
                               what, C, short(q), e.callee[2]), ev=e)
        own = [k for tab, k in used if contains(k, cls) and
               not contains(k, loop)]
        if not own:
            ctx.report('exact', short(q), 'a registration for the type '
                       'itself is not looked up first', ev=place(ctx, q))
            continue
        for k in own:
            agree(ctx, what, q, p, k, cls, cls, keys)
        v = lookups(p.val, fork) if p.val[0] in (
            'item', 'get', 'lookup', 'mcall') else []
        if not v:
            if p.val != NONE and p.facts.get(('truth', p.val)) is not False \
                    and not lookups(p.val, fork) and \
                    not (p.val[0] == 'evt' and p.val[2][0] == 'func'):
                ctx.undecide('%s returns %s' % (short(q),
                                                short_show(p.val, 80)))
            missed(ctx, q, p, cls, loop, S, fork)
            continue
        k = v[0][1]
        if not contains(k, loop):
            seen_exact += 1
            continue
        seen_parent += 1
        el = [s for s in subterms(k) if s[0] in ('elem', 'item') and
              s[1] == loop]
        if not el:
            ctx.undecide('%s returns the function of %s' % (
                short(q), short_show(k, 80)))
            continue
        x = el[0]
        agree(ctx, what, q, p, k, x, cls, keys)
        if not any(is_sub(c, cls, x) and b for c, b in p.facts.items()):
            ctx.report('parent', short(q), 'the function of a class is '
                       'returned that is not known to be a superclass',
                       ev=place(ctx, q))
            continue
        for c, b in p.facts.items():
            if b and c[0] == 'truth':
                for i in range(x[2] if isinstance(x[2], int) else 0):
                    if is_sub(c, cls, ('elem', loop, i)) and \
                            value_used(p, i, loop, fork, S):
                        ctx.report('first', short(q), 'the function of a '
                                   'later superclass in the list is '
                                   'returned', ev=place(ctx, q))
        if not any(b is False and any(
                kk in own for _, kk in lookups(c[1], fork))
                for c, b in p.facts.items() if c[0] in ('truth',)) and \
                not any(c[0] in ('isnone', 'in') and any(
                    kk in own for _, kk in keyed(c, fork))
                    for c in p.facts):
            ctx.report('exact', short(q) + '/parent', 'the function of a '
                       'superclass is returned although the type itself may '
                       'have one', ev=place(ctx, q))
    if not seen_exact:
        ctx.report('exact', short(q) + '/never', 'a registration for the type '
                   'itself is never returned', ev=place(ctx, q))
    if not seen_parent:
        ctx.report('parent', short(q) + '/never', 'a registration for a '
                   'superclass is never returned', ev=place(ctx, q))


def keyed(c, fork):
    out = []
    for x in c[1:]:
        out += lookups(x, fork)
    if c[0] == 'in' and c[2][0] == 'attr' and c[2][1] == fork:
        out.append((c[2][2], norm(c[1])))
    return out


def value_used(p, i, loop, fork, S):
    """The function of the earlier class was not found to be missing."""
    x = ('elem', loop, i)
    for c, v in p.facts.items():
        if not v and c[0] == 'truth' and any(
                contains(k, x) for _, k in lookups(c[1], fork)):
            return False
    return True


def missed(ctx, q, p, cls, loop, S, fork):
    """Nothing is returned: no class of the list may be a superclass, unless
    its function was looked up and is empty. The list is gone through to its
    end, also if the comparison with one of its classes fails."""
    found = any(v and c[0] == 'truth' and any(
        s[0] == 'elem' and s[1] == loop for s in subterms(c[1]))
        for c, v in p.facts.items())
    for e in p.events:
        if e.kind == 'loop' and e.callee == loop and not found and \
                e.args[1] != const('exhausted'):
            ctx.report('cut', short(q), 'the search ends before the last '
                       'class of the list although none was found', ev=e)
    for c, v in p.facts.items():
        if v and c[0] == 'truth' and c[1][0] == 'call' and c[1][1] == (
                'ext', 'builtins.issubclass') and len(c[1][2]) == 2 and \
                c[1][2][1][0] == 'elem' and c[1][2][1][1] == loop:
            x = c[1][2][1]
            if any(not b and d[0] == 'truth' and any(
                    contains(k, loop) for _, k in lookups(d[1], fork))
                    for d, b in p.facts.items()):
                continue
            ctx.report('parent', short(q) + '/missed', 'nothing is returned '
                       'although a class of the list is a superclass',
                       ev=place(ctx, q))


def agree(ctx, what, q, p, k, x, cls, keys):
    """The name k of x is the one under which it was stored."""
    mine0 = facts_about(p.facts, x, cls)
    done = ctx.prog.__dict__.setdefault('_c18_agree', set())
    k0 = swap(k, x, cls)
    ident = (what, q, k0, frozenset(mine0.items()))
    if ident in done:
        return
    done.add(ident)
    ctx.count('name_comparisons')
    for f2, k in expand(ctx, k0):
        mine = {**mine0, **f2}
        for facts, key, e in keys:
            if any(mine.get(c, v) != v for c, v in facts.items()) or \
                    clash(mine, facts) or clash(facts, mine):
                continue
            if key != k:
                ctx.report('name', short(q), 'a function is stored under %s '
                           'but looked up under %s' % (
                               short_show(key, 90), short_show(k, 90)), ev=e)


def clash(a, b):
    """One says that a value is None, the other that it is truthy."""
    return any(v and c[0] == 'isnone' and b.get(('truth', c[1]))
               for c, v in a.items())
