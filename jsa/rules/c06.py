"""Dumping and loading never modify the given value or options. Every default
(de)serializer and every public entry is executed abstractly; each event that
writes - an item or attribute set or deleted, a mutating method, setattr, an
augmented assignment - must have a target that is not the given value, a part
of it, or (a part of) the value of an option. The state of the fork is changed
by the functions made for it only."""
from ..options import *
from .c01 import state_attrs, copy_source

WRITES = ('mut', 'setitem', 'delitem', 'append', 'setattr')
MUTATING_EXT = {
    'builtins.setattr', 'builtins.delattr', 'operator.setitem',
    'operator.delitem', 'operator.iadd', 'random.shuffle',
    'heapq.heapify', 'heapq.heappush', 'heapq.heappop', 'bisect.insort',
    'builtins.dict.update', 'builtins.dict.pop', 'builtins.dict.popitem',
    'builtins.dict.setdefault', 'builtins.dict.clear',
    'builtins.list.append', 'builtins.list.sort', 'builtins.list.reverse',
    'builtins.list.pop', 'builtins.list.remove', 'builtins.list.extend',
    'builtins.list.insert', 'builtins.list.clear', 'builtins.set.add',
    'builtins.object.__setattr__', 'builtins.next'}


def owner(t, values, passed=None):
    """The given value that t is (a part of), or None."""
    deep = False
    while True:
        if t in values:
            return t
        if t[0] == 'opt':
            return t
        if t[0] in ('attr', 'item', 'elem', 'lookup') or t[0] == 'mcall' or \
                t[0] == 'call' and t[1] in (('ext', 'builtins.getattr'),
                                            ('ext', 'builtins.vars')):
            deep = True
        elif deep and t[0] in ('D', 'L'):
            # a part of a shallow copy is shared with the original
            for l in reversed(t[-1]):
                if l[0] in ('rest', '*') and owner(l[1], values, passed):
                    return owner(l[1], values, passed)
            return None
        elif deep and copy_source(t) is not None:
            t = copy_source(t)
            continue
        if t[0] in ('attr', 'item', 'elem'):
            t = t[1]
        elif t[0] == 'idx':
            return None
        elif t[0] == 'call' and t[1] in (
                ('ext', 'builtins.getattr'), ('ext', 'builtins.vars')) and \
                t[2]:
            t = t[2][0]
        elif t[0] == 'mcall' and t[2] in ('get', 'values', 'items',
                                          '__getitem__', 'setdefault'):
            t = t[1]
        elif t[0] == 'lookup':
            t = t[1]
        elif t[0] == 'bin' and t[1] in ('or', 'and'):
            a = owner(t[2], values, passed)
            return a if a is not None else owner(t[3], values, passed)
        elif t[0] == 'call' and t[1][0] == 'func' and passed:
            # a function that may return (a part of) what it is given
            for i in passed(t[1][1]):
                if i < len(t[2]):
                    a = owner(t[2][i], values, passed)
                    if a is not None:
                        return a
            return None
        else:
            return None


def passer(ctx):
    memo = {}

    def passed(q):
        """The positions of the parameters of which q may return (a part
        of) the very value."""
        if q in memo or q not in ctx.prog.functions:
            return memo.get(q, ())
        memo[q] = ()
        a = ctx.prog.functions[q].node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        r = ctx.analyse(q, len(names), set(), iters=1, fallback=False,
                        dedup=200)
        out = set()
        for p in (r[1] if r else ()):
            if p.ctl != 'N' or p.val is None:
                continue
            o = owner(p.val, {('sym', n) for n in names}, passed)
            if o and o[0] == 'sym' and not immutable(p, p.val):
                out.add(names.index(o[1]))
        memo[q] = tuple(sorted(out))
        return memo[q]
    return passed


def immutable(p, t):
    return any(c[0] == 'isinst' and c[1] == t and v and c[2] in [
        ('ext', 'builtins.' + n) for n in ('str', 'int', 'tuple', 'type')]
        for c, v in p.facts.items())


def check(ctx):
    ctx.rule('no write has the given value, an option, or a part of them as '
             'its target')
    attrs = state_attrs(ctx)
    for kind in ('serializer', 'deserializer'):
        for q in ctx.lizers(kind):
            entry(ctx, q, kind, attrs)
    for name, n in (('dump', 1), ('load', 1), ('dumps', 1), ('dumpb', 1),
                    ('loads', 1), ('loadb', 1), ('transform', 1),
                    ('validate', 1)):
        q = ctx.fn(name)
        B = ctx.api('dump', 'load', 'get_serializer', 'get_deserializer',
                    'get_validator', 'announce_class') - {q}
        run(ctx, q, n, B, attrs)


def entry(ctx, q, kind, attrs):
    B = ctx.api('dump', 'load', 'get_serializer', 'get_deserializer',
                'get_validator', 'announce_class')
    run(ctx, q, 1 if kind == 'serializer' else 2, B, attrs)


def run(ctx, q, n, B, attrs):
    r = ctx.analyse(q, n, B, B | {'MUT'}, bag=True, iters=1,
                    max_states=40000, ext_raise=False)
    if r is not None:
        judge(ctx, q, r[0], list(r[0].all_events(r[1])), attrs)


def judge(ctx, q, it, events, attrs):
    a = ctx.prog.functions[q].node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    values = {('sym', ps[0])} if ps else set()
    passed = passer(ctx)
    for e in events:
        t = None
        if e.kind in WRITES and e.callee:
            t = e.callee
        elif e.kind in ('ext', 'call') and e.callee and \
                e.callee[0] == 'ext' and e.callee[1] in MUTATING_EXT and \
                e.args:
            t = e.args[0]
        elif e.kind == 'aug' and e.extra == '+=' and e.args[0][0] in (
                'tup', 'L'):
            t = e.callee        # in place if it is a list
        if t is None:
            continue
        ctx.count('writes')
        base = t
        o = owner(base, values, passed)
        if o is None:
            continue
        if any(s[0] == 'attr' and s[2] in attrs for s in subterms(base)):
            ctx.count('state_writes')
            continue
        ctx.report('write', '%s@%s' % (show(o)[:60], e.func),
                   '%s modifies %s, which was given to it' % (
                       short(q), short_show(base)), ev=e)
