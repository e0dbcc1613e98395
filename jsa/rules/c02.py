"""The chosen fork governs all nested work. Every function of the public API
that accepts a fork, and every default (de)serializer, is executed abstractly;
each call of another function that accepts a fork, each call of a looked-up
(de)serializer and each warning is an obligation: it must be made with the
fork of the entry."""
from ..options import *


def fork_param(ctx, q):
    """Name of the parameter of q that defaults to the state holder."""
    f = ctx.prog.functions[q]
    it = Interp(ctx.prog, Policy())
    a = f.node.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
        [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]
    for p, d in pairs:
        r = it.eval_static(f, d) if hasattr(it, 'eval_static') else None
        if r == ('cls', ctx.holder.qual):
            return p.arg
    return None


def accepts_fork(ctx):
    return {q for q in ctx.api(*[n for n in API])
            if has_fork(ctx, q) and q != ctx.fn('fork')}


def has_fork(ctx, q):
    a = ctx.prog.functions[q].node.args
    return any(p.arg == 'fork_inst'
               for p in a.posonlyargs + a.args + a.kwonlyargs) or a.kwarg


def holder_methods(ctx):
    h = ctx.holder.qual
    return {q for q in ctx.prog.functions if q.startswith(h + '.')}


def check(ctx):
    ctx.rule('value flow: the fork argument of every call that takes one, '
             'and the receiver of every warning, is the fork of the entry')
    B = accepts_fork(ctx)
    W = holder_methods(ctx)
    n = 0
    runs = []
    for kind in ('serializer', 'deserializer'):
        for q in ctx.lizers(kind):
            r = run_lizer(ctx, q, kind, B | W)
            if r:
                runs.append(r)
    for q in sorted(B):
        if q == ctx.fn('transform'):
            continue                        # has two option mappings
        r = ctx.analyse(q, 1 if 'dump' in short(q) else 2, B - {q} | W,
                        B | W | {'VCALL'}, bag=True, iters=1)
        if r:
            runs.append((q, r[0], list(r[0].all_events(r[1]))))
    for q, it, events in runs:
        for e in events:
            n += obligation(ctx, q, it, e, B, W)
            leak(ctx, q, it, e)
    n += helpers(ctx, B, W)
    ctx.count('fork_obligations', n)
    ctx.require(n >= 60, 'only %d calls that need a fork found' % n)


def takers(ctx, B, W):
    """The other functions that are told the fork and make use of it."""
    out = set()
    for q, f in ctx.prog.functions.items():
        if q in B or q in W or '.<locals>.' in q or f.cls is not None or \
                'fork_inst' not in params_all(ctx, q) or \
                q == ctx.fn('fork'):
            continue
        if any(isinstance(x, ast.Name) and x.id == 'fork_inst' and
               isinstance(x.ctx, ast.Load) for x in ast.walk(f.node)):
            out.add(q)
    return out


def helpers(ctx, B, W):
    """Each function that is told the fork, and each default (de)serializer,
    on its own: the helpers it calls are told the same fork."""
    H = takers(ctx, B, W)
    every = B | W | H
    n = 0
    starts = H | set(ctx.lizers('serializer')) | \
        set(ctx.lizers('deserializer')) | {ctx.fn('load'), ctx.fn('dump')}
    for q in sorted(starts):
        npos = 0 if q in H else 1 if q in ctx.lizers('serializer') else 2
        r = ctx.analyse(q, npos, every - {q},
                        every | {'UCALL'}, bag=True,
                        iters=1, quiet=True)
        if r is None:
            ctx.note('helpers of %s were not enumerated' % q)
            continue
        for e in r[0].all_events(r[1]):
            if e.kind in ('call', 'recursive') and e.callee and \
                    e.callee[0] == 'func' and e.callee[1] in H:
                got = lookup(e, 'fork_inst', params_of(ctx, e))
                n += 1
            elif recursion(ctx, e, B | W):
                got = lookup(e, 'fork_inst', params_of(ctx, e))
                n += 1
            else:
                continue
            why = judge(r[0], e, got, entry_opt('fork_inst'))
            if why:
                ctx.report('fork', '%s@%s' % (short(e.callee[1]), e.func),
                           'the fork given to %s is %s for the call of %s' % (
                               short(q), why, short(e.callee[1])), ev=e)
    return n


def obligation(ctx, q, it, e, B, W):
    opt = entry_opt('fork_inst')
    if e.kind in ('call', 'recursive') and e.callee and \
            e.callee[0] == 'func' and e.callee[1] in W:
        got = ('sure', e.args[0]) if e.args else None
        what = 'the warning'
    elif e.kind in ('call', 'recursive') and e.callee and \
            e.callee[0] == 'func' and e.callee[1] in B:
        if short(e.callee[1]) in ('dumps', 'dumpb', 'loads', 'loadb') or \
                'fork_inst' not in params_all(ctx, e.callee[1]):
            got = get(e.kw, 'fork_inst')
        else:
            got = lookup(e, 'fork_inst', params_of(ctx, e))
        what = 'the call of ' + short(e.callee[1])
    elif e.kind == 'ucall' and is_lizer_result(ctx, e.callee):
        got = get(e.kw, 'fork_inst')
        what = 'the looked-up (de)serializer'
    else:
        return 0
    why = judge(it, e, got, opt)
    if why:
        ctx.report('fork', '%s@%s' % (what.replace('the call of ', ''),
                                      e.func),
                   'the fork given to %s is %s for %s' % (
                       short(q), why, what), ev=e)
    return 1


def params_all(ctx, q):
    a = ctx.prog.functions[q].node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def leak(ctx, q, it, e):
    """State of the default fork is used although a fork was given."""
    h = ('cls', ctx.holder.qual)
    if known_falsy(e, entry_opt('fork_inst')):
        return
    for t in (e.callee,) + tuple(e.args):
        if t and any(s[0] in ('attr', 'item', 'mcall') and s[1] == h
                     for s in subterms(t)):
            ctx.report('default-state', '%s' % e.func,
                       '%s uses the state of the default fork: %s' % (
                           short(q), show(t)), ev=e)
