"""How options and the fork travel from a value to the work done for its
parts (C02, C03, C04)."""
import ast

from .core import *
from .interp import Budget


def lizer_runs(ctx, kind, extra_boundary=()):
    """[(qual, interp, events)] for every default (de)serializer."""
    B = ctx.api('dump', 'load', 'get_serializer', 'get_deserializer',
                'validate', 'announce_class') | set(extra_boundary)
    out = []
    for q in ctx.lizers(kind):
        out.append(run_lizer(ctx, q, kind, B))
    return [r for r in out if r]


def run_lizer(ctx, q, kind, B, force=()):
    """One loop iteration everywhere, and two where the budget allows it."""
    npos = 1 if kind == 'serializer' else 2
    I = B | {'UCALL', 'RAISE'}
    r = ctx.analyse(q, npos, B, I, bag=True, iters=1, max_states=40000,
                    force=tuple(force))
    if r is None:
        return None
    it, paths = r
    events = list(it.all_events(paths))
    r2 = ctx.analyse(q, npos, B, I, bag=True, force=tuple(force),
                     max_states=400 if ctx.tier == 'quick' else 2000,
                     fallback=False, quiet=True)
    if r2 is not None:
        it, paths = r2
        events = list(it.all_events(paths))
        ctx.count('entries_with_two_iterations')
    return q, it, events


def is_lizer_result(ctx, t, kinds=('get_serializer', 'get_deserializer')):
    return t[0] == 'evt' and t[2][0] == 'func' and \
        t[2][1] in ctx.api(*kinds)


def nested(ctx, kind, events):
    """Events that (de)serialize a part: calls of dump/load and calls of a
    looked-up (de)serializer."""
    fn = ctx.fn('dump' if kind == 'serializer' else 'load')
    for e in events:
        if ctx.is_call(e, {fn}):
            yield e
        elif e.kind == 'ucall' and is_lizer_result(ctx, e.callee):
            yield e
        elif recursion(ctx, e, {fn}):
            yield e


def recursion(ctx, e, targets):
    """A call of a function by itself that hands on what its parts need."""
    if e.kind != 'recursive' or not e.callee or e.callee[0] != 'func':
        return False
    q = e.callee[1]
    f = ctx.prog.functions.get(q)
    if f is None or not f.node.args.kwarg:
        return False
    return bool(Interp(ctx.prog, Policy()).reach.closed(q) & set(targets))


def option_names(ctx, kind):
    """Named options of the family, from the current signatures."""
    names = {}
    fns = [ctx.fn('dump' if kind == 'serializer' else 'load')] + \
        ctx.lizers(kind)
    for q in fns:
        a = ctx.prog.functions[q].node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        for p in pos[1 if kind == 'serializer' else 2:] + \
                [p.arg for p in a.kwonlyargs]:
            if p not in ('cls', 'obj', 'json_obj'):
                names.setdefault(p, []).append(q)
    return names


def lookup(e, name, params):
    """Value of option `name` in a call event (by position or keyword)."""
    if name in params:
        i = params.index(name)
        if i < len(e.args) and not any(a[0] == '*' for a in e.args[:i + 1]):
            return ('sure', e.args[i])
    return get(e.kw, name)


def params_of(ctx, e):
    if e.callee and e.callee[0] == 'func':
        a = ctx.prog.functions[e.callee[1]].node.args
        return [p.arg for p in a.posonlyargs + a.args]
    return []


def entry_opt(name):
    return ('opt', ('sym', 'OPTS'), name)


def fact(e, cond):
    return e.facts.get(cond)


def known_falsy(e, t):
    if fact(e, ('truth', t)) is False or fact(e, ('isnone', t)) is True:
        return True
    return any(v and c[0] in ('is', 'eq') and c[1] == t and c[2][0] == 'c'
               and not c[2][2] for c, v in e.facts.items())


def known_value(e, t):
    for c, v in e.facts.items():
        if v and c[0] in ('is', 'eq') and c[1] == t and c[2][0] == 'c':
            return c[2]
    if fact(e, ('isnone', t)) is True:
        return NONE
    return None


def is_identity(it, t):
    """A closure/lambda that returns its only argument."""
    if t[0] == 'clo':
        node = it.closures[t[1]].node
    elif t[0] == 'func':
        node = it.prog.functions[t[1]].node
    else:
        return False
    a = node.args.posonlyargs + node.args.args
    if len(a) < 1:
        return False
    if isinstance(node, ast.Lambda):
        ret = node.body
    else:
        body = [s for s in node.body if not (
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Return):
            return False
        ret = body[0].value
    return isinstance(ret, ast.Name) and ret.id == a[0].arg


def negated(t, opt, lossy=()):
    """opt occurs in t below a negation or comparison only."""
    if t == opt:
        return False
    if t[0] == 'un' and t[1] == 'not' or t[0] == 'cmp':
        return True
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in lossy:
        return True
    subs = [x for x in t if isinstance(x, tuple)]
    hit = [x for x in subs if contains(x, opt)]
    return bool(hit) and all(negated(x, opt, lossy) if x and isinstance(x[0], str)
                             else all(negated(y, opt, lossy) for y in x
                                      if isinstance(y, tuple)
                                      and contains(y, opt))
                             for x in hit)


def unfreeze_layers(t):
    return t[2] if t[0] == 'D' else None


def judge(it, e, got, opt):
    """None if the option reaches the call, else what happened to it."""
    if got is None:
        return None if known_falsy(e, opt) and opt[2] != 'fork_inst' \
            else 'dropped'
    v = got[1]
    if v == opt:
        return None
    if contains(v, opt):
        if negated(v, opt) or opt[2] not in BOOLEAN and \
                negated(v, opt, ('builtins.bool', 'bool', 'builtins.len')):
            return 'replaced by %s' % show(v)
        return None
    if v[0] in ('opt', 'item') and v[2] in (opt[2], const(opt[2])) and \
            any(x[0] == 'call' and contains(x, opt[1])
                for x in subterms(v[1])):
        return None         # from a mapping that was made from the options
    if v[0] == 'lookup' or v[0] == 'havoc' or v[0] == 'unknownarg':
        return None         # undecided: value not known to the analysis
    if any(s[0] in ('havoc',) for s in subterms(v)):
        return None
    if known_falsy(e, opt):
        if v[0] == 'c' and not v[2]:
            return None
        if v[0] in ('clo', 'func') and is_identity(it, v):
            return None
        if v[0] in ('D', 'L') and not v[-1]:
            return None
        if v[0] == 'cls' and v[1] == (it.holder.qual if it.holder else ''):
            return None     # the default fork for "no fork given"
    kv = known_value(e, opt)
    if kv is not None and v == kv:
        return None
    if v[0] == 'c' and v[2] is True and fact(e, ('truth', opt)) is True \
            and opt[2] in BOOLEAN:
        return None
    return 'replaced by %s' % show(v)


BOOLEAN = ('strict', 'strip_nulls', 'strip_privates', 'strip_properties',
           'strip_class_variables')


def forwarded(ctx, prop, kind, q, it, e, names, exempt):
    """Report every option of `names` that a nested call does not receive."""
    params = params_of(ctx, e)
    for name in names:
        if exempt(name, e):
            continue
        opt = entry_opt(name)
        why = judge(it, e, lookup(e, name, params), opt)
        ctx.count('obligations')
        if why:
            what = 'any other option' if name == GENERIC else \
                'option %s' % name
            ctx.report('forward', '%s/%s@%s' % (
                name, callee_name(ctx, e), e.func),
                '%s given to %s is %s for the nested value %s' % (
                    what, short(q), why,
                    show(e.args[0]) if e.args else '?'), ev=e)


GENERIC = 'x_unknown_option'


def callee_name(ctx, e):
    if e.callee[0] == 'func':
        return short(e.callee[1])
    if is_lizer_result(ctx, e.callee):
        return 'result of ' + short(e.callee[2][1])
    return show(e.callee)
