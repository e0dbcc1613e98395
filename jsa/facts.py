"""What path conditions entail, expanding predicates of the package."""
from .core import *


def cases(ctx, t, want):
    """Fact sets under which the package call `t` is truthy == want
    (None if it cannot be expanded)."""
    if t[0] != 'call' or t[1][0] != 'func' or \
            t[1][1] not in ctx.prog.functions:
        return None
    key = ('cases', t, want)
    memo = ctx.prog.__dict__.setdefault('_cases', {})
    if key in memo:
        return memo[key]
    memo[key] = None
    it = Interp(ctx.prog, Policy(interest={'RAISE'}, max_states=500,
                                 dedup=1000))
    try:
        paths = it.run(t[1], tuple(t[2]), tuple(t[3]))
    except Budget:
        return None
    out = []
    for p in paths:
        if p.ctl != 'N':
            continue
        for st, b in it.split(p.st, p.val):
            if b == want:
                out.append(dict(st.facts))
    memo[key] = out
    return out


def entails(ctx, facts, pred, depth=3):
    """pred holds of the facts, or of every case of a predicate among them."""
    if pred(facts):
        return True
    if depth == 0:
        return False
    for c, v in list(facts.items()):
        if c[0] == 'truth' and c[1][0] == 'call':
            cs = cases(ctx, c[1], v)
            if cs and all(entails(ctx, {**facts, **f}, pred, depth - 1)
                          for f in cs):
                return True
    return False


def subclass_of(ctx, qual, base):
    """The package class qual is base or derives from it."""
    c = ctx.prog.classes.get(qual)
    if c is None:
        return False
    it = Interp(ctx.prog, Policy())
    return it.subclass(('cls', qual), ('cls', base)) is True


def is_package_error(ctx, t):
    return t[0] == 'new' and subclass_of(ctx, t[1], ctx.cls('JsonsError'))
