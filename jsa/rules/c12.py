"""Work spread over tasks is complete, ordered and reports every failure.
The helper that starts tasks is executed abstractly for known lengths and
numbers of tasks (elements, results, failures and the task type stay unknown):
in the list that it returns each slot must hold the result of the call for the
element of that index, or a marker with the failure of that call; every task
is started and joined, without a timeout, before the results are read; a list
filled by processes is a shared one. For all lengths and numbers of tasks it is
proved by polynomial normalisation that the first task starts at 0, each task
starts where the previous one ends and the last one ends at the length (where
the code has that shape; otherwise only the enumerated sizes are decided). In
the (de)serializers that use the helper every element of its result must be
tested for the marker; a marker leads to its error or to a warning, the other
elements to the result, in order."""
from ..arith import *
from ..objects import *

SIZES = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (4, 3), (5, 2), (5, 3),
         (6, 4), (7, 3), (8, 3), (12, 2), (17, 4)]


def check(ctx):
    ctx.rule('each slot of the list a task helper returns holds the result or '
             'the failure of the element of that index')
    ctx.rule('every task is started and joined before the results are read')
    ctx.rule('every element of that list is tested for the failure marker')
    uses = {}
    for kind in ('serializer', 'deserializer'):
        for q in ctx.lizers(kind):
            H = task_helpers(ctx)
            if not calls_any(ctx, q, H):
                continue
            for p in consumer_runs(ctx, kind, q) or ():
                for e in p.events:
                    if ctx.is_call(e, H):
                        uses.setdefault(e.callee[1], {}).setdefault(
                            (q, kind), []).append((p, e))
    ctx.require(uses, 'no (de)serializer uses tasks')
    for h, users in sorted(uses.items()):
        es = [e for pes in users.values() for _, e in pes]
        e = next((e for e in es if any(
            elementwise(a, ('sym', 'obj')) and not empty(a)
            for a in e.args)), es[0])
        markers = helper(ctx, h, e)
        for (q, kind), pes in sorted(users.items()):
            given = any(not empty(a) and elementwise(a, first_obj(ctx, q))
                        for _, e in pes for a in handed(e))
            for p, e in pes:
                if given and any(empty(a) for a in handed(e)):
                    continue        # of no elements
                consumer(ctx, kind, q, p, e, markers)


def calls_any(ctx, q, H):
    it = ctx.prog.__dict__.get('_c12_reach')
    if it is None:
        it = ctx.prog._c12_reach = Interp(ctx.prog, Policy())
    return bool(it.reach.closed(q) & H)


def marker_users(ctx):
    """Functions that look at the classes of the modules of the helpers."""
    mods = {ctx.prog.functions[h].module.name for h in task_helpers(ctx)}
    names = {short(q) for q, c in ctx.prog.classes.items()
             if c.module.name in mods}
    out = set()
    for q, f in ctx.prog.functions.items():
        if any(isinstance(n, ast.Name) and n.id in names or
               isinstance(n, ast.Attribute) and n.attr in names
               for n in ast.walk(f.node)):
            out.add(q)
    return out


def consumer_runs(ctx, kind, q):
    r = parts_run(ctx, q, kind, iters=2, more={'LOOP', 'RAISE'},
                  force=tuple(sorted(marker_users(ctx))))
    return r[1] if r else None


# -- the helper ---------------------------------------------------------------

FUNC, TYPE = ('sym', 'FUNC'), ('sym', 'TASK')


def roles(ctx, e):
    """Arguments of the helper with the roles replaced by unknowns."""
    def f(t, obj, n):
        if t[0] in ('func', 'clo', 'bm', 'partial'):
            return FUNC
        if t == entry_opt('tasks'):
            return n
        if t == entry_opt('task_type'):
            return TYPE
        if t[0] in ('L', 'sym', 'tup', 'copy', 'call') and \
                contains(t, ('sym', 'obj')) and any(
                    x[0] == '*' for x in t[-1] if isinstance(x, tuple)) or \
                t[0] == 'sym' or not empty(t) and \
                elementwise(t, ('sym', 'obj')):
            return obj
        return t
    return lambda obj, n: (
        tuple(f(a, obj, n) for a in e.args),
        tuple(('k', l[1], f(l[2], obj, n)) if l[0] == 'k' else l
              for l in e.kw))


def policy(ctx, **kw):
    B = part_boundary(ctx)
    return Policy(boundary=B, interest=B | {'UCALL', 'LOOP', 'READ'},
                  inline_all=True, fold=True, dedup=400, **kw)


def helper(ctx, h, e):
    mk = roles(ctx, e)
    sizes = list(SIZES)
    if ctx.tier != 'quick':
        sizes = [(l, n) for l in range(1, 14) for n in range(1, 9)]
    markers = set()
    shared = set()
    for l, n in sizes:
        elems = tuple(('sym', 'elem%d' % i) for i in range(l))
        args, kw = mk(('tup', elems), const(n))
        ctx.require(FUNC in args + tuple(x[2] for x in kw if x[0] == 'k') and
                    const(n) in args + tuple(
                        x[2] for x in kw if x[0] == 'k'),
                    'the arguments of %s were not understood' % h)
        for fails in (False, True) if (l, n) in ((2, 1), (2, 2)) else (
                False,):
            pol = policy(ctx, raise_ops=fails, ext_raise=False)
            it = Interp(ctx.prog, pol)
            try:
                paths = it.run(('func', h), args, kw)
            except Budget:
                ctx.undecide('%s: too many paths for %d elements in %d tasks'
                             % (short(h), l, n))
                continue
            ctx.samples.setdefault('functions', set()).update(it.analysed)
            for p in paths:
                ctx.count('abstract_paths')
                slots(ctx, h, p, elems, n, markers)
                joins(ctx, h, p)
                shared_list(ctx, h, p, shared)
            ctx.count('sizes')
    if shared == {'plain'}:
        ctx.report('shared', short(h), 'the list that processes fill is not '
                   'a shared one', ev=place(ctx, h))
    proof(ctx, h, mk)
    return markers


def calls_of(p):
    return [e for e in p.events if e.kind == 'ucall' and e.callee == FUNC]


def container(p):
    """(term of the container the results are put into, [(index, value)])."""
    out = []
    cs = set()
    for e in p.events:
        if not e.tasks:
            continue
        if e.kind == 'setitem' and e.callee[0] in ('L', 'D') and e.args:
            cs.add(('id', e.callee[2] if e.callee[0] == 'L'
                    else e.callee[1]))
            out.append((e.args[0], e.args[1], e))
        elif e.kind == 'mut' and e.callee[0] == 'item':
            cs.add(e.callee[1])
            out.append((e.callee[2], e.args[0] if e.args else NONE, e))
    return cs, out


IMPOSSIBLE = ()


def final(p):
    """Terms of the slots of the returned list, or None."""
    v = p.val
    for e in p.events:
        # a copy made by going through a shared container of known size
        items = known_list(e.callee) if e.kind == 'loop' and e.callee and \
            e.callee[0] == 'mcall' else None
        if items is None or v[0] not in ('L', 'tup'):
            continue
        n = e.args[0][2]
        if e.args[1] == const('exhausted') and (v[3] if v[0] == 'L' else v[1]
                ) == tuple(('elem', e.callee, i) for i in range(n)):
            return contents(p, e.callee) if n == min(2, len(items)) else \
                IMPOSSIBLE
    if v[0] == 'tup' and not any(x[0] == '*' for x in v[1]):
        return [slot(p, x) for x in v[1]]
    if v[0] == 'L' and not any(x[0] == '*' for x in v[3]):
        return [slot(p, x) for x in v[3]]
    cs, puts = container(p)
    c = [x for x in cs if x[0] != 'id' and contains(v, x)]
    if not puts:
        c = [s for s in subterms(v) if s[0] == 'mcall' and known_list(s)]
    if len(c) != 1:
        return None
    if v != c[0] and not (v[0] in ('L', 'tup') and
                          v[-1] == (('*', c[0]),)) and not (
            v[0] == 'copy' and v[1] == c[0]):
        return None
    return contents(p, c[0])


def known_list(c):
    for s in subterms(c):
        if s[0] == 'L' and s != c and s[3] and not any(
                x[0] == '*' for x in s[3]):
            return list(s[3])
    return None


def contents(p, c):
    """A shared container: its first contents, then what was put into it."""
    items = known_list(c)
    if items is None:
        return None
    for k, x, e in container(p)[1]:
        if e.kind != 'mut' or e.callee[1] != c:
            continue
        if k[0] != 'c' or not isinstance(k[2], int) or \
                not -len(items) <= k[2] < len(items):
            return None
        items[k[2]] = x
    return items


def slot(p, x):
    if x[0] == 'item' and x[2][0] == 'c' and isinstance(x[2][2], int):
        items = contents(p, x[1])
        if items and -len(items) <= x[2][2] < len(items):
            return items[x[2][2]]
    return x


def slots(ctx, h, p, elems, n, markers):
    made = calls_of(p)
    excs = {('exc', e.n): e for e in made}

    def failed(e):
        return any(x.kind in ('caught', 'task-lost') and any(
            s[0] == 'exc' and s[1] == e.n for a in (
                (x.callee,) + tuple(x.args)) if a for s in subterms(a))
            for x in p.events) or p.ctl == 'X' and any(
                s[0] == 'exc' and s[1] == e.n for s in subterms(p.val))
    lost = [x for x in p.events if x.kind == 'task-lost']
    ctx.count('obligations', len(elems))
    size = '%d elements in %d tasks' % (len(elems), n)
    if p.ctl == 'X':
        if not any(failed(e) for e in made):
            ctx.report('error', short(h), '%s fails for %s although no '
                       'element fails: %s' % (short(h), size,
                                              short_show(p.val)),
                       ev=place(ctx, h))
        return
    byelem = {}
    for e in made:
        byelem.setdefault(e.args[0] if e.args else None, []).append(e)
    for e in elems:
        k = len(byelem.get(e, ()))
        if k > 1:
            ctx.report('twice', short(h), 'an element is handled %d times (%s)'
                       % (k, size), ev=byelem[e][1])
        if k == 0 and not lost:
            ctx.report('skipped', short(h), 'an element is not handled at all '
                       '(%s)' % size, ev=place(ctx, h))
    if set(byelem) - set(elems):
        ctx.undecide('%s: elements are not followed (%s)' % (short(h), size))
        return
    items = final(p)
    if items is IMPOSSIBLE:
        return
    if items is None:
        ctx.undecide('%s: the returned value %s is not followed' % (
            short(h), short_show(p.val, 80)))
        return
    if len(items) != len(elems):
        ctx.report('length', short(h), 'the result of %s has %d elements' % (
            size, len(items)), ev=place(ctx, h))
        return
    for i, (x, v) in enumerate(zip(elems, items)):
        es = byelem.get(x, [])
        if es and any(v == e.res for e in es):
            if failed(es[0]):
                ctx.report('failed', short(h), 'the slot of an element that '
                           'failed holds an unrelated value', ev=es[0])
            continue
        if v[0] == 'evt':
            ctx.report('order', short(h), 'the result of an element is put '
                       'into the slot of another one (%s)' % size,
                       ev=place(ctx, h))
            continue
        bad = bool(es) and failed(es[0])
        if not bad and es or not es and not lost:
            ctx.report('missing', short(h), 'the slot of element %d holds %s '
                       'although it was handled (%s)' % (
                           i, short_show(v), size), ev=place(ctx, h))
            continue
        if v[0] != 'O' or not isinstance(v[2], tuple) or v[2][0] != 'cls':
            ctx.report('marker', short(h), 'the slot of an element that was '
                       'not handled or failed holds %s, not a failure marker'
                       % short_show(v), ev=place(ctx, h))
            continue
        markers.add(v[2][1])
        err = [s for s in subterms(v) if s[0] == 'exc' or s[0] == 'new' or
               s[0] == 'call' and any(
                   y[0] == 'exc' for y in subterms(s))]
        if es and not lost and not any(
                s[0] == 'exc' and s[1] == es[0].n for s in subterms(v)):
            ctx.report('cause', short(h), 'the marker of an element that '
                       'failed does not hold its error', ev=es[0])
        elif not err:
            ctx.report('cause', short(h), 'a failure marker holds no error',
                       ev=place(ctx, h))


def task_id(e):
    t = e.res if e.kind == 'task-new' else e.callee
    return t[1] if t and t[0] in ('ref', 'O') else t


def joins(ctx, h, p):
    if p.ctl == 'X':
        return
    state = {}
    last_join = -1
    for i, e in enumerate(p.events):
        t = task_id(e) if e.kind.startswith('task-') else None
        if e.kind == 'task-new':
            state[t] = 'new'
        elif e.kind == 'task-start':
            state[t] = 'started'
        elif e.kind == 'task-join':
            if [a for a in e.args if a != NONE] or any(
                    l[0] == 'k' and l[2] != NONE for l in e.kw):
                ctx.report('join', short(h) + '/timeout', 'a task is joined '
                           'with a timeout, after which it may still run',
                           ev=e)
            state[t] = 'joined' if state.get(t) == 'started' else 'early'
            last_join = i
    for t, s in state.items():
        ctx.count('obligations')
        if s == 'new':
            ctx.report('start', short(h), 'a task is never started',
                       ev=place(ctx, h))
        elif s == 'early':
            ctx.report('join', short(h) + '/early', 'a task is joined before '
                       'it is started', ev=place(ctx, h))
        elif s == 'started':
            ctx.report('join', short(h), 'the results are returned before '
                       'every task has been joined', ev=place(ctx, h))
    cs, _ = container(p)
    for i, e in enumerate(p.events):
        if i > last_join:
            break
        t = e.callee if e.kind in ('read', 'loop') else None
        if not t or e.tasks:
            continue
        if t[0] == 'L' and ('id', t[2]) in cs or t[0] == 'D' and \
                ('id', t[1]) in cs or t in cs:
            if e.kind == 'loop' and e.args[0] == const(0):
                continue
            if any(x.kind == 'task-start' for x in p.events[:i]):
                ctx.report('read', short(h), 'the results are read before '
                           'every task has been joined', ev=e)


def shared_list(ctx, h, p, shared):
    cs, puts = container(p)
    if not puts:
        return
    plain = any(c[0] == 'id' for c in cs)
    shared.add('plain' if plain else 'shared')
    proc = [v for c, v in p.facts.items() if c[0] == 'truth' and v and
            is_process_test(c[1])]
    if plain and not proc and not any(
            c[0] == 'truth' and is_process_test(c[1]) for c in p.facts):
        proc = [c for c, v in p.facts.items() if c[0] in ('is', 'eq') and
                TYPE in c[1:] and any(x[0] == 'ext' and 'Process' in x[1]
                                      for x in c[1:])]
    if plain and proc:
        ctx.report('shared', short(h), 'the list that processes fill is not a '
                   'shared one', ev=puts[0][2])


def is_process_test(t):
    return t[0] == 'call' and t[1] == ('ext', 'builtins.issubclass') and \
        len(t[2]) == 2 and t[2][0] == TYPE and any(
            x[0] == 'ext' and 'Process' in x[1] for x in subterms(t[2][1]))


# -- the partition, for all sizes ----------------------------------------------

def proof(ctx, h, mk):
    OBJ, N = ('sym', 'SEQ'), ('sym', 'TASKS')
    args, kw = mk(OBJ, N)
    pol = policy(ctx, raise_ops=False, iters=2, max_states=20000)
    pol.fold = False
    it = Interp(ctx.prog, pol)
    try:
        paths = it.run(('func', h), args, kw)
    except Budget:
        ctx.undecide('%s: no proof of the partition (budget)' % short(h))
        return
    cases = set()
    for p in paths:
        for e in calls_of(p):
            if not e.args or not e.loops:
                continue
            outer = e.loops[0][1]
            inner = e.loops[-1][1]
            if e.loops[-1][2] != 0:
                continue
            num = e.loops[0][2]
            if len(e.loops) < 2 or inner[0] != 'call' or \
                    inner[1] != ('ext', 'builtins.range') or \
                    len(inner[2]) != 2 or outer[0] != 'call' or \
                    outer[1] != ('ext', 'builtins.range') or \
                    len(outer[2]) != 1:
                cases.add(None)
                continue
            n = outer[2][0]
            var = [('elem', outer, num), ('idx', n, num)]
            last = None
            for c, v in e.facts.items():
                if c[0] == 'eq' and any(x in var for x in c[1:]):
                    o = [x for x in c[1:] if x not in var]
                    if o and poly(o[0]) == poly(('bin', '-', n, const(1))):
                        last = v
            src = e.args[0]
            if src not in (('item', OBJ, ('elem', inner, 0)),):
                cases.add(None)
                continue
            i = ('sym', '#i')
            s, t = inner[2]
            for x in var:
                s, t = subst(s, x, i), subst(t, x, i)
            cases.add((n, last, s, t))
    if None in cases or not cases:
        ctx.undecide('%s: the partition has another shape: decided for the '
                     'enumerated sizes only' % short(h))
        return
    i = ('sym', '#i')
    one = const(1)
    L = ('call', ('ext', 'builtins.len'), (OBJ,), ())
    good = True
    for n, last, s, t in cases:
        good &= poly(subst(s, i, const(0))) == poly(const(0))
        for n2, last2, s2, t2 in cases:
            good &= n2 == n
            if last is not True:
                good &= poly(subst(s2, i, ('bin', '+', i, one))) == poly(t)
        if last is not False:
            good &= poly(subst(t, i, ('bin', '-', n, one))) == poly(L)
    ctx.count('partition_cases', len(cases))
    if good:
        ctx.count('partition_proved_for_all_sizes')
    else:
        ctx.undecide('%s: no proof of the partition for all sizes: decided '
                     'for the enumerated ones only' % short(h))


# -- the users of the helper -----------------------------------------------------

def elem_of(t, R):
    if t[0] in ('elem', 'item') and t[1] == R:
        return True
    return False


def consumer(ctx, kind, q, p, h, markers):
    R = h.res
    ctx.count('consumer_paths')
    inputs(ctx, kind, q, p, h)
    if p.facts.get(('truth', R)) is False:
        return
    if p.ctl == 'X' and p.val[0] == 'exc' and p.val[1] == h.n:
        return
    elems, tested = [], {}
    for e in p.events:
        if e.kind == 'loop' and loop_over(e.callee, R):
            k = e.args[0][2]
            for i in range(k):
                x = ('elem', R, i)
                if x not in elems:
                    elems.append(x)
    full = any(e.kind == 'loop' and loop_over(e.callee, R) and
               e.args[1] == const('exhausted') for e in p.events)
    for c, v in p.facts.items():
        if c[0] == 'isinst' and elem_of(c[1], R):
            names = {s[1] for x in c[2:] for s in subterms(x)
                     if s[0] == 'cls'}
            if names & markers:
                tested[c[1]] = v
    if p.ctl == 'N':
        if not elems or not full:
            ctx.report('unchecked', short(q), 'the results of the tasks are '
                       'returned without a test for failures', ev=h)
            return
        warned = [a for _, args in warnings_of(ctx, p) for a in args]
        for x in elems:
            ctx.count('obligations')
            if x not in tested:
                ctx.report('unchecked', short(q), 'an element of the results '
                           'of the tasks is not tested for a failure', ev=h)
            elif tested[x]:
                if not any(contains(a, x) for a in warned):
                    ctx.report('silent', short(q), 'the failure of an element '
                               'is neither raised nor warned of', ev=h)
                if holds(p, x, R):
                    ctx.report('leak', short(q), 'a failure marker gets into '
                               'the result', ev=h)
            elif not holds(p, x, R):
                ctx.report('lost', short(q), 'an element that did not fail is '
                           'missing from the result', ev=h)
        order = [x for v in values(p) for x in flat_items(v) if x in elems]
        if order != sorted(order, key=elems.index) or \
                len(set(order)) != len(order):
            ctx.report('order', short(q), 'the results of the tasks are '
                       'reordered or repeated', ev=h)
        return
    bad = [x for x, v in tested.items() if v]
    if bad and not any(contains(p.val, x) for x in bad) and \
            p.val[0] != 'exc':
        ctx.report('error', short(q), 'the error raised for a failed element '
                   'is %s, not its own' % short_show(p.val), ev=h)
    if not bad and p.val[0] == 'new':
        ctx.report('error', short(q) + '/nothing', 'an error is raised '
                   'although no element failed', ev=h)


def loop_over(t, R):
    while True:
        if t == R:
            return True
        if t[0] == 'call' and t[1][0] == 'ext' and t[2] and t[1][1] in (
                'builtins.enumerate', 'builtins.list', 'builtins.tuple',
                'builtins.iter', 'builtins.zip'):
            t = t[2][0] if t[1][1] != 'builtins.zip' else next(
                (x for x in t[2] if loop_over(x, R)), t[2][0])
        elif t[0] in ('L', 'tup') and len(t[-1]) == 1 and \
                t[-1][0][0] == '*':
            t = t[-1][0][1]
        elif t[0] == 'copy':
            t = t[1]
        else:
            return False


def flat_items(v):
    if v[0] == 'tup':
        return list(v[1])
    if v[0] == 'L':
        return list(v[3])
    return []


def values(p):
    """The returned value, or what the value was made from by a call."""
    out = [p.val]
    for v in out:
        for e in p.events:
            if e.res == v and e.kind in ('ucall', 'call') and v[0] == 'evt':
                out += [a for a in e.args if a not in out]
    return out


def holds(p, x, R):
    """The returned value has the element x of R."""
    for v in values(p):
        if v == R or v[0] == 'copy' and v[1] == R:
            return True
        items = flat_items(v)
        if x in items or ('*', R) in items:
            return True
    return False


def first_obj(ctx, q):
    return ('sym', first_params(ctx, q, 1)[0])


def handed(e):
    return e.args + tuple(l[2] for l in e.kw if l[0] == 'k')


def empty(t):
    return t[0] == 'L' and t[1] == 'list' and not t[3] or \
        t == ('tup', ())


def fewer(p, t, obj):
    """A list with less elements than were iterated over."""
    if t[0] not in ('L', 'tup') or any(x[0] == '*' for x in t[-1]):
        return False
    return any(e.kind == 'loop' and e.args[1] == const('exhausted') and
               e.args[0][2] > len(t[-1]) and elementwise(e.callee, obj)
               for e in p.events)


def inputs(ctx, kind, q, p, h):
    """The helper is given the elements themselves, in order."""
    obj = ('sym', first_params(ctx, q, 1)[0])
    ctx.count('obligations')
    for a in h.args + tuple(l[2] for l in h.kw if l[0] == 'k'):
        if not contains(a, obj) or a[0] in ('call', 'attr', 'item') and \
                not elementwise(a, obj):
            continue
        if elementwise(a, obj) and not fewer(p, a, obj):
            return
        ctx.report('input', short(q), 'the tasks are given %s, not the '
                   'elements in order' % short_show(a), ev=h)
        return
    ctx.report('input', short(q), 'the tasks are not given the elements',
               ev=h)


def elementwise(t, obj):
    if t == obj:
        return True
    if t[0] == 'copy':
        return elementwise(t[1], obj)
    if t[0] in ('L', 'tup'):
        if t[0] == 'L' and t[1] not in ('list', 'tuple'):
            return False
        items = t[-1]
        if len(items) == 1 and items[0][0] == '*':
            return elementwise(items[0][1], obj)
        els = [('elem', obj, i) for i in range(len(items))]
        return all(x == y or x[0] in ('tup', 'L') and contains(x, y)
                   for x, y in zip(items, els))
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in (
            'builtins.list', 'builtins.tuple', 'builtins.zip',
            'builtins.iter', 'builtins.enumerate'):
        return any(elementwise(x, obj) for x in t[2])
    return False
