"""Fork isolation. The state holder is the default fork of dump; its mutable
and scalar class attributes are read from its class body. fork() is executed
abstractly on an unknown fork: on every path the new fork must own a fresh copy
of each container of the given fork (nothing shared, nothing taken from
elsewhere) and its own value of each scalar. Every mutation of fork state in
the package must go through the fork that was given."""
import ast

from ..options import *

STATE_API = ('set_serializer', 'set_deserializer', 'set_validator',
             'announce_class', 'suppress_warnings', 'suppress_warning')


def state_attrs(ctx):
    """{name: 'container' | 'scalar'} of the state holder."""
    out = {}
    for st in ctx.holder.node.body:
        if isinstance(st, ast.Assign):
            names = [t.id for t in st.targets if isinstance(t, ast.Name)]
            v = st.value
        elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                isinstance(st.target, ast.Name):
            names, v = [st.target.id], st.value
        else:
            continue
        kind = None
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)):
            kind = 'container'
        elif isinstance(v, ast.Call):
            kind = 'container'
        elif isinstance(v, ast.Constant):
            kind = 'scalar'
        for n in names:
            if kind and not n.startswith('__'):
                out[n] = kind
    if len(out) < 4:
        raise AnalysisBroken('the state of the default fork was not found')
    return out


def copy_source(t):
    """The term t is a shallow copy of, or None."""
    if t[0] == 'copy':
        return t[1]
    if t[0] == 'mcall' and t[2] in ('copy', '__copy__') and not t[3]:
        return t[1]
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in (
            'copy.copy', 'copy.deepcopy', 'builtins.list', 'builtins.dict',
            'builtins.set', 'copy', 'deepcopy') and len(t[2]) >= 1:
        return t[2][0]
    if t[0] == 'D' and len(t[2]) == 1 and t[2][0][0] == 'rest' and \
            not t[2][0][2]:
        return t[2][0][1]
    if t[0] == 'L' and len(t[3]) == 1 and t[3][0][0] == '*':
        return t[3][0][1]
    return None


def is_state_attr(t, base, name):
    if t == ('attr', base, name):
        return True
    return t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and \
        t[2][:2] == (base, const(name))


def given_fork(base):
    return base == entry_fork or base == ('sym', 'fork_inst')


entry_fork = ('opt', ('sym', 'OPTS'), 'fork_inst')


def check(ctx):
    ctx.rule('fork(): on every path each container attribute of the state '
             'holder is set on the new fork to a fresh copy of the same '
             'attribute of the given fork, each scalar is set')
    attrs = state_attrs(ctx)
    fork = ctx.fn('fork')
    r = ctx.analyse(fork, 0, (), {'MUT'})
    if r is not None:
        it, paths = r
        n = 0
        dynamic = any(e.kind == 'setattr' and e.args and
                      e.args[0][0] != 'c' or e.kind == 'mut' and
                      e.callee and e.callee[0] == 'attr*'
                      for e in it.all_events(paths))
        for p in paths:
            if p.ctl != 'N':
                continue
            v = p.val
            if v[0] == 'ref':
                v = it.freeze(v, p.st)
            if v[0] != 'O':
                ctx.undecide('fork() returns %s' % show(v))
                continue
            n += 1
            check_path(ctx, fork, attrs, p, v, dynamic)
        ctx.count('fork_paths', n)
    mutations(ctx, attrs)
    handed_on(ctx)
    direct(ctx)


def check_path(ctx, fork, attrs, p, v, dynamic):
    own = dict(v[3])
    unknown = dynamic or any(not isinstance(k, str) for k, _ in v[3]) or any(
        e.kind == 'opaque' and any(
            'class' == a[2] for a in e.args if a[0] == 'O')
        for e in p.events)
    absent_given = p.facts.get(('truth', entry_fork)) is False or \
        p.facts.get(('isnone', entry_fork)) is True
    for name, kind in sorted(attrs.items()):
        ctx.count('obligations')
        if name not in own:
            if unknown:
                ctx.undecide('%s of a new fork' % name)
            else:
                ctx.report('own-state', name,
                           'a new fork does not get its own %s: it shares '
                           'that of the fork it was made from' % name,
                           fork, ctx.prog.functions[fork].node.lineno)
            continue
        if kind == 'scalar':
            continue
        val = own[name]
        src = copy_source(val)
        line = next((e.line for e in reversed(p.events)
                     if e.kind == 'setattr' and e.args and
                     e.args[0] == const(name)),
                    ctx.prog.functions[fork].node.lineno)
        if src is None:
            if any(e.kind == 'loop' and e.callee and is_state_attr(
                    e.callee, entry_fork, name) for e in p.events):
                ctx.undecide('%s of a new fork is built in a loop' % name)
            elif is_shared(val, ctx.holder.qual) or val[0] in ('c', 'L', 'D'):
                ctx.report('own-state', name,
                           'the %s of a new fork is %s, not a copy of that '
                           'of the given fork' % (name, show(val)),
                           fork, line)
            else:
                ctx.undecide('%s of a new fork is %s' % (name, show(val)))
            continue
        if is_state_attr(src, entry_fork, name) or (
                absent_given and is_state_attr(
                    src, ('cls', ctx.holder.qual), name)):
            continue
        if any(is_state_attr(s, b, other) for s in [src]
               for other in attrs
               for b in (entry_fork, ('cls', ctx.holder.qual))):
            ctx.report('own-state', name,
                       'the %s of a new fork is copied from %s' % (
                           name, show(src)), fork, line)
        else:
            ctx.undecide('%s of a new fork is a copy of %s' % (
                name, show(src)))


def is_shared(t, holder):
    return t[0] == 'attr' and t[1] in (entry_fork, ('cls', holder)) or \
        t[0] == 'call' and t[1] == ('ext', 'builtins.getattr')


def mutations(ctx, attrs):
    """Mutations of fork state go to the given fork."""
    ctx.rule('every mutation of an attribute of the state holder has the '
             'given fork as its owner')
    n = 0
    owner = ('cls', ctx.holder.qual)
    for name in STATE_API:
        q = ctx.fn(name)
        f = ctx.prog.functions[q].node.args
        npos = 1 if name.startswith('suppress') else 2
        r = ctx.analyse(q, npos, (), {'MUT'}, bag=True, iters=1)
        if r is None:
            continue
        hit = 0
        for e in r[0].all_events(r[1]):
            if e.kind not in ('mut', 'setitem', 'delitem', 'append',
                              'setattr') or not e.callee:
                continue
            for s in subterms(e.callee):
                if s[0] == 'attr' and s[2] in attrs:
                    n += 1
                    hit += 1
                    if s[1] != entry_fork and not (
                            s[1] == owner and e.facts.get(
                                ('truth', entry_fork)) is False or
                            e.facts.get(('isnone', entry_fork)) is True):
                        if s[1] == owner:
                            ctx.report('state-owner', '%s@%s' % (s[2], q),
                                       '%s changes the %s of the default '
                                       'fork instead of the given fork' % (
                                           name, s[2]), ev=e)
                        elif other_class(s[1]):
                            ctx.report('state-owner', '%s@%s' % (s[2], q),
                                       '%s changes the %s of %s, not that of '
                                       'the given fork' % (
                                           name, s[2], show(s[1])), ev=e)
                        else:
                            ctx.undecide('%s: owner %s' % (name, show(s)))
                    break
        if not hit:
            ctx.undecide('no state mutation seen in %s' % name)
    ctx.count('state_mutations', n)


RELATED = ('__mro__', '__bases__', '__base__', '__subclasses__', 'mro')


def other_class(t):
    """t is reached from the given fork through its (sub)classes."""
    return any(s[0] in ('attr', 'mcall') and s[2] in RELATED and
               s[1] == entry_fork for s in subterms(t))


def handed_on(ctx):
    """The functions that change a fork hand it on to one another."""
    ctx.rule('a function that changes a fork calls others that do with the '
             'fork that it was given')
    quals = {n: ctx.fn(n) for n in STATE_API}
    S = set(quals.values())
    for name, q in sorted(quals.items()):
        r = ctx.analyse(q, 1 if name.startswith('suppress') else 2, S - {q},
                        S, bag=True, iters=1)
        if r is None:
            continue
        for e in r[0].all_events(r[1]):
            if e.kind in ('call', 'recursive') and e.callee and \
                    e.callee[0] == 'func' and e.callee[1] in S:
                ctx.count('obligations')
                why = judge(r[0], e, lookup(e, 'fork_inst', params_of(
                    ctx, e)), entry_fork)
                if why:
                    ctx.report('handed-on', '%s@%s' % (
                        short(e.callee[1]), q), 'the fork given to %s is %s '
                        'for the call of %s' % (name, why, short(
                            e.callee[1])), ev=e)


def direct(ctx):
    """No function reaches into the default fork's state by name."""
    ctx.rule('no function body names the state of the default fork')
    h = ctx.holder
    n = 0
    for q, f in ctx.prog.functions.items():
        if f.cls is h:
            continue
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and \
                    isinstance(node.value, ast.Name):
                n += 1
                b = ctx.prog.resolve_name(f.module.name, node.value.id) \
                    if node.value.id not in locals_of(f) else None
                if b and b[0] == 'class' and b[1] is h and \
                        node.attr in state_attrs(ctx):
                    ctx.report('default-state', '%s.%s' % (q, node.attr),
                               '%s uses the state of the default fork '
                               'whatever fork was given' % short(q), q,
                               node.lineno)
    ctx.count('attribute_uses', n)


def locals_of(f):
    from ..interp import local_names
    return local_names(f.node)
