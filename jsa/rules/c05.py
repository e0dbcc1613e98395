"""Registrations take effect at once; nothing cached goes stale. The cached
functions are found from their decorators (and from functions that keep
results in a global container themselves). Those that read fork state oblige
every public function that changes that state to clear the cache after the
change, on every normal path. Cached functions have no effect of their own,
are not asked about mutable values, and nobody modifies what they return."""
import ast

from ..options import *
from ..caching import *
from .c01 import state_attrs, STATE_API, locals_of

EFFECTS = ('ext:warnings.warn', 'ext:warnings.warn_explicit')
WRITES = ('mut', 'setitem', 'delitem', 'append', 'setattr')


def check(ctx):
    ctx.rule('every change of fork state that a cached function reads is '
             'followed by clearing the cache on every normal path')
    ctx.rule('cached functions have no effect, do not depend on the content '
             'of mutable values, and their results are not modified')
    K = cached(ctx)
    it = Interp(ctx.prog, Policy())
    attrs = state_attrs(ctx)
    ctx.count('cached_functions', len(K))
    reads = {}
    for q in K:
        for a in attrs:
            if 'attr:' + a in it.reach.closed(q):
                reads.setdefault(a, set()).add(q)
    memo = own_memos(ctx, it, K)
    ctx.count('state_read_by_cached_functions', len(reads))
    clears = clear_functions(ctx, it)
    for q in clears:
        clear_is_complete(ctx, q)
    changes(ctx, it, K, reads, memo, clears)
    effects(ctx, it, K)
    uses(ctx, K)
    no_registry_bypass(ctx, K)
    registers(ctx)


def registers(ctx):
    """Each registration stores what it is given, whatever is there."""
    ctx.rule('every path of a registration stores what is registered')
    for name, npos in (('set_serializer', 2), ('set_deserializer', 2),
                       ('set_validator', 2), ('announce_class', 1)):
        q = ctx.fn(name)
        a = ctx.prog.functions[q].node.args
        given = ('sym', (a.posonlyargs + a.args)[0].arg)
        r = ctx.analyse(q, npos, (), {'MUT'}, iters=1)
        if r is None:
            continue
        for p in r[1]:
            if p.ctl != 'N' or any(e.kind in ('loop', 'recursive', 'opaque')
                                   and given in e.args or e.kind == 'loop'
                                   for e in p.events):
                if not (p.ctl == 'N' and name == 'announce_class' and
                        not any(e.kind == 'loop' for e in p.events)):
                    continue
            ctx.count('obligations')
            stores = [e for e in p.events if e.kind in (
                'mut', 'setitem', 'append', 'setattr', 'mcall', 'aug')]
            if any(contains_any(e, given) for e in stores
                   if e.callee and 'item' == e.callee[0] and
                   e.callee[2] != given or
                   e.callee and e.callee[0] != 'item'):
                continue
            if any(v and c[0] in ('is', 'eq') and given in c[1:]
                   for c, v in p.facts.items()):
                continue        # known to be there already
            why = ', '.join(sorted(
                '%s%s' % ('' if v else 'not ', show_cond(c))
                for c, v in p.facts.items()))
            ctx.report('registered', name, 'a call of %s can end without '
                       'having stored %s (%s)' % (
                           name, show(given), why[:200]), q,
                       ctx.prog.functions[q].node.lineno)


def show_cond(c):
    return '%s(%s)' % (c[0], ', '.join(
        show(x) for x in c[1:] if isinstance(x, tuple)))


def contains_any(e, t):
    return any(contains(a, t) for a in e.args) or any(
        contains(x, t) for l in e.kw for x in l[1:] if isinstance(x, tuple))


# -- clearing -----------------------------------------------------------------

def clear_functions(ctx, it):
    return {q for q in ctx.prog.functions
            if 'attr:cache_clear' in it.reach.direct[q] and
            '<locals>' not in q}


def clear_is_complete(ctx, q):
    """The clearing function reaches every remembered wrapper."""
    it = Interp(ctx.prog, Policy(iters=1, dedup=100, interest={'VCALL'}))
    try:
        paths = it.run(('func', q), (), ())
    except Budget:
        return ctx.undecide('%s: state budget exceeded' % q)
    ctx.count('clear_paths', len(paths))
    line = ctx.prog.functions[q].node.lineno
    hits = any('cache_clear' in repr(e.callee) for p in paths
               for e in p.events if e.kind == 'mcall')
    for p in paths:
        if p.ctl != 'N':
            continue
        hit = any(e.kind in ('mcall', 'call', 'ucall', 'vcall') and
                  'cache_clear' in repr(e.callee) for e in p.events) or any(
            'cache_clear' in repr((e.callee, e.extra)) for e in p.events)
        loops = [e for e in p.events if e.kind == 'loop']
        if hit:
            continue
        if loops and all(e.args[0] == const(0) and
                         e.args[1] == const('exhausted') for e in loops):
            if all(plain(e.callee) for e in loops):
                continue
        if loops and hits and all(
                e.args[1] == const('exhausted') and whole_copy(e.callee)
                for e in loops):
            continue
        ctx.report('clear', short(q), '%s can leave the cache as it is' %
                   short(q), q, line)
    for p in paths:
        for e in p.events:
            if e.kind == 'loop' and e.callee and not plain(e.callee):
                ctx.report('clear', short(q) + '/part', '%s only clears the '
                           'cache of %s' % (short(q), show(e.callee)), q,
                           e.line)


def whole_copy(t):
    """A copy of a container, of which each element may or may not exist."""
    return t and t[0] == 'L' and t[3] and all(
        i[0] == '*' and plain(i[1]) for i in t[3])


def plain(t):
    """A whole container, not a selection of it."""
    if t[0] == 'call' and len(t[2]) == 1 and t[1] in [
            ('ext', 'builtins.' + n) for n in (
                'list', 'tuple', 'set', 'enumerate', 'reversed', 'range',
                'len', 'iter')]:
        return plain(t[2][0])
    if t[0] == 'mcall' and t[2] in ('copy', 'values', 'keys', 'items'):
        return plain(t[1])
    return t[0] in ('attr', 'sym', 'ref', 'L', 'D', 'glob', 'O', 'name') or \
        t[0] == 'call' and t[1] == ('ext', 'collections.deque')


def is_clear(ctx, e, q, clears, K):
    """The event clears the cache of the cached function q."""
    d = K.get(q)
    if ctx.is_call(e, clears):
        return not (d or '').startswith('functools')
    if e.kind == 'mcall' or e.callee:
        t = repr(e.callee)
        return 'cache_clear' in t and q in t
    return False


def changes(ctx, it, K, reads, memo, clears):
    seen = set()
    for name in STATE_API:
        q = ctx.fn(name)
        n = 1 if name.startswith('suppress') else 2
        r = ctx.analyse(q, n, clears, clears | {'MUT', 'attr:cache_clear'},
                        iters=1, fallback=False, dedup=400)
        if r is None:
            continue
        for p in r[1]:
            if p.ctl != 'N':
                continue
            for i, e in enumerate(p.events):
                if e.kind not in WRITES or not e.callee:
                    continue
                for s in subterms(e.callee):
                    if s[0] != 'attr' or s[2] not in reads:
                        continue
                    if s[1][0] in ('ref', 'O'):
                        continue        # of a new fork
                    seen.add(s[2])
                    for k in sorted(reads[s[2]]):
                        ctx.count('obligations')
                        if not any(is_clear(ctx, c, k, clears, K)
                                   for c in p.events[i + 1:]):
                            ctx.report('stale', '%s/%s' % (name, short(k)),
                                       '%s changes %s, which the cached %s '
                                       'depends on, without clearing its '
                                       'cache afterwards' % (
                                           name, s[2], short(k)), ev=e)
                    break
        for (mq, what), read in memo.items():
            touched = {s[2] for p in r[1] for e in p.events
                       if e.kind in WRITES and e.callee
                       for s in subterms(e.callee)
                       if s[0] == 'attr' and s[1][0] not in ('ref', 'O')}
            if read & touched and not any(
                    what in names_written(ctx.prog.functions[x].node)
                    for x in it.reach.closed(q) | {q}
                    if x in ctx.prog.functions):
                ctx.report('stale', '%s/%s' % (name, short(mq)),
                           '%s changes %s, which %s remembers results of in '
                           '%s, without touching that' % (
                               name, sorted(read & touched)[0], short(mq),
                               what), q, ctx.prog.functions[q].node.lineno)
    missing = set(reads) - seen
    for a in sorted(missing):
        ctx.note('no public function was seen to change %s' % a)


# -- memos kept by hand --------------------------------------------------------

def names_written(node):
    """Containers a function writes into or empties: 'x' or 'y.x'."""
    out = set()

    def name(n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute):
            return '.' + n.attr
        return None
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            out.add(name(n.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ('setdefault', 'update', 'clear', 'pop',
                                    'append', 'add', 'insert', 'popitem'):
            out.add(name(n.func.value))
        elif isinstance(n, ast.Global):
            out |= set(n.names)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            out.add('.' + n.attr)
    return out - {None}


def own_memos(ctx, it, K):
    """{(function, container): state it reads} of functions that look things
    up in fork state and store into a container that outlives the call."""
    attrs = state_attrs(ctx)
    out = {}
    entries = ctx.api('get_serializer', 'get_deserializer', 'get_validator',
                      'dump', 'load', 'validate')
    reach = set(entries)
    for q in entries:
        reach |= {x for x in it.reach.closed(q) if x in ctx.prog.functions}
    mutators = ctx.api(*STATE_API) | {ctx.fn('fork')}
    for q in reach - mutators:
        f = ctx.prog.functions[q]
        read = {a for a in attrs if 'attr:' + a in it.reach.closed(q)}
        loc = locals_of(f)
        for n in names_written(f.node):
            if n in attrs or n.lstrip('.') in attrs:
                continue
            if n.startswith('.'):
                if stored_attr(f, n[1:], loc):
                    out[(q, n)] = read
            elif n not in loc and n not in params(f):
                r = ctx.prog.resolve_name(f.module.name, n)
                if r and r[0] == 'expr':
                    out[(q, n)] = read
    for q, n in list(out):
        out[(q, n)] = out[(q, n)] | given_state(ctx, q, attrs)
        ctx.count('memos')
    return {k: v for k, v in out.items() if v}


def given_state(ctx, q, attrs):
    """Fork state that is passed to q by the lookups."""
    out = set()
    for name in ('get_serializer', 'get_deserializer', 'get_validator'):
        r = ctx.analyse(ctx.fn(name), 1, {q}, bag=True, iters=1)
        for e in (r[0].all_events(r[1]) if r else ()):
            if ctx.is_call(e, {q}):
                for a in list(e.args) + [l[2] for l in e.kw if l[0] == 'k']:
                    out |= {s[2] for s in subterms(a)
                            if s[0] == 'attr' and s[2] in attrs}
    return out


def params(f):
    a = f.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {
        x.arg for x in (a.vararg, a.kwarg) if x}


def stored_attr(f, attr, loc):
    """f stores into x.attr of something that is not made in f."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(
                n.value, ast.Name) and (n.value.id not in loc or
                                        n.value.id == 'fork_inst' or
                                        n.value.id in params(f)):
            return n.value.id == 'fork_inst' or n.value.id not in loc
    return False


# -- effects and uses ----------------------------------------------------------

def effects(ctx, it, K):
    announce = ctx.fn('announce_class')
    for q in K:
        c = it.reach.closed(q) | it.reach.direct[q]
        bad = [x for x in EFFECTS if x in c] + (
            [announce] if announce in c else [])
        line = ctx.prog.functions[q].node.lineno
        ctx.count('obligations')
        if bad:
            ctx.report('effect', short(q), 'the cached %s has an effect '
                       '(%s) that only happens the first time' % (
                           short(q), short(bad[0])), q, line)
        if 'MUT' not in c or ctx.prog.functions[q].cls is not None:
            continue
        names = [a.arg for a in ctx.prog.functions[q].node.args.args]
        r = ctx.analyse(q, len(names), set(K) - {q}, {'MUT'} | (
            set(K) - {q}), bag=True, iters=1)
        for e in (r[0].all_events(r[1]) if r else ()):
            if e.kind in WRITES and e.callee and root(e.callee)[0] in (
                    'sym', 'opt', 'cls', 'mod', 'func') and not local(
                        e.callee):
                ctx.report('effect', '%s/%s' % (short(q), show(e.callee)),
                           'the cached %s modifies %s' % (
                               short(q), show(e.callee)), ev=e)


def local(t):
    return t[0] in ('ref', 'L', 'D')


def is_value(t, entry):
    """t is (a part of) the value being dumped or loaded, not its type."""
    while True:
        if t == entry:
            return True
        if t[0] == 'attr' and t[2] not in ('__class__', '__dict__',
                                           '__name__', '__module__',
                                           '__slots__', '__qualname__'):
            t = t[1]
        elif t[0] == 'item':
            t = t[1]
        elif t[0] == 'elem':
            t = t[1]
            if t == entry:
                return False    # a key or an immutable element at best
        elif t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and t[2]:
            t = t[2][0]
        else:
            return False


def uses(ctx, K):
    keep = set(K)
    B = keep | ctx.api('dump', 'load')
    for kind, n in (('serializer', 1), ('deserializer', 2)):
        for q in ctx.lizers(kind):
            use(ctx, q, n, B, keep)
    for name in ('dump', 'load', 'validate'):
        q = ctx.fn(name)
        use(ctx, q, 2 if name == 'load' else 1,
            keep | ctx.api('announce_class') | (B - {q}), keep)
    for q in K:
        f = ctx.prog.functions[q]
        if f.cls is None:
            use(ctx, q, len(f.node.args.args), keep - {q}, keep, False)


def use(ctx, q, n, B, K, values=True):
    r = ctx.analyse(q, n, B, B | {'MUT'}, bag=True, iters=1,
                    max_states=40000)
    if r is None:
        return
    ps = first_param(ctx, q)
    for e in r[0].all_events(r[1]):
        if (e.kind in WRITES or e.kind == 'aug') and e.callee:
            rt = root(e.callee)
            ctx.count('stores')
            if e.kind == 'aug' and not (
                    rt[0] == 'evt' and rt[2][0] == 'func' and
                    rt[2][1] in K and
                    may_be_container(ctx, rt[2][1], e.callee)):
                continue
            if rt[0] == 'evt' and rt[2][0] == 'func' and rt[2][1] in K:
                ctx.report('modify', '%s@%s' % (short(rt[2][1]), e.func),
                           'the cached result of %s is modified, so later '
                           'calls see the change' % short(rt[2][1]), ev=e)
        if values and ctx.is_call(e, K):
            ctx.count('cached_calls')
            if any(is_value(a, ps) for a in e.args):
                ctx.report('mutable', '%s@%s' % (short(e.callee[1]), e.func),
                           'the cached %s is asked about the value %s '
                           'itself, whose content may change' % (
                               short(e.callee[1]), show(e.args[0])), ev=e)


def may_be_container(ctx, q, t):
    """The part t of what the function q returns may be a list, dict or
    set, so an augmented assignment changes it."""
    idx = []
    while t[0] == 'item':
        idx.append(t[2])
        t = t[1]
    r = ctx.analyse(q, len(ctx.prog.functions[q].node.args.args), set(),
                    iters=1, fallback=False, dedup=200)
    for p in (r[1] if r else ()):
        if p.ctl != 'N' or p.val is None:
            continue
        v = p.val
        for i in reversed(idx):
            if v[0] == 'tup' and is_const(i) and isinstance(
                    i[2], int) and i[2] < len(v[1]):
                v = v[1][i[2]]
            else:
                v = NONE
        if v[0] in ('L', 'D', 'ref') or v[0] == 'call' and v[1] in [
                ('ext', 'builtins.' + n) for n in ('list', 'dict', 'set',
                                                   'sorted')]:
            return True
    return False


def first_param(ctx, q):
    a = ctx.prog.functions[q].node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    return ('sym', ps[0]) if ps else None


def no_registry_bypass(ctx, K):
    """What was looked up once is not kept in a module-level name."""
    lookups = ctx.api('get_serializer', 'get_deserializer', 'get_validator')
    n = 0
    for m in ctx.prog.modules.values():
        for st in m.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                defaults = [d for x in ast.walk(st)
                            if isinstance(x, ast.FunctionDef)
                            for d in x.args.defaults + x.args.kw_defaults
                            if d is not None]
                nodes = [y for d in defaults for y in ast.walk(d)]
            else:
                nodes = list(ast.walk(st))
            for c in nodes:
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
                    n += 1
                    r = ctx.prog.resolve_name(m.name, c.func.id)
                    if r and r[0] == 'func' and r[1].qual in lookups:
                        ctx.report('frozen', '%s:%s' % (m.name, c.func.id),
                                   'the result of %s is fixed when the '
                                   'module is imported' % c.func.id, m.name,
                                   c.lineno)
    ctx.count('module_level_calls', n)
