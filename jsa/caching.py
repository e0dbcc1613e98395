"""Which functions of the package remember their results."""
import ast

from .core import *

LRU = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}


def deco_target(ctx, f, d):
    """What a decorator expression resolves to."""
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return ctx.prog.resolve_name(f.module.name, d.id)
    if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
        r = ctx.prog.resolve_name(f.module.name, d.value.id)
        if r and r[0] == 'mod':
            return ctx.prog.resolve_global(r[1], d.attr)
        if r and r[0] == 'ext':
            return ('ext', r[1] + '.' + d.attr)
    return None


def mentions_lru(ctx, node, module, seen):
    """The definition uses one of the memoising tools of functools, itself
    or in a class or function of the package that it uses."""
    for n in ast.walk(node):
        r = None
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            r = ctx.prog.resolve_name(module, n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            r0 = ctx.prog.resolve_name(module, n.value.id)
            if r0 and r0[0] == 'ext':
                r = ('ext', r0[1] + '.' + n.attr)
        if r is None:
            continue
        if r[0] == 'ext' and r[1] in LRU:
            return True
        if r[0] in ('func', 'class') and r[1].qual not in seen:
            seen.add(r[1].qual)
            if mentions_lru(ctx, r[1].node, r[1].module.name, seen):
                return True
    return False


def own_memo(node):
    """A decorator that keeps results in a dict of its own."""
    names = {t.id for s in node.body if isinstance(s, ast.Assign)
             for t in s.targets if isinstance(t, ast.Name) and
             isinstance(s.value, (ast.Dict, ast.Call))}
    for sub in ast.walk(node):
        if sub is node or not isinstance(sub, ast.FunctionDef):
            continue
        for n in ast.walk(sub):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                    n.value.id in names:
                return True
    return False


def memoising(ctx, f):
    """The decorator through which f is cached, or None."""
    for d in f.node.decorator_list:
        r = deco_target(ctx, f, d)
        if r is None:
            continue
        if r[0] == 'ext':
            if r[1] in LRU:
                return r[1]
        elif r[0] in ('func', 'class'):
            if mentions_lru(ctx, r[1].node, r[1].module.name, {r[1].qual}) \
                    or own_memo(r[1].node):
                return r[1].qual
    return None


def cached(ctx):
    """{qual: decorator} of the cached functions."""
    if '_cached' not in ctx.prog.__dict__:
        out = {}
        for q, f in ctx.prog.functions.items():
            d = memoising(ctx, f)
            if d:
                out[q] = d
        ctx.prog._cached = out
    return ctx.prog._cached
