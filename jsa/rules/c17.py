"""Every warning can be suppressed. The attributes of a fork that hold the
suppressions are found from the two public functions that set them. Every
function that reaches the warnings module is executed abstractly: each
emission must lie on a path on which neither suppression of the fork holds,
and each path that stays silent must be due to one of them. Every call of the
warning channel, on the paths of all default (de)serializers, decorators and
of dump and load, must give a constant code."""
import ast

from ..options import *

EMIT = {'warnings.warn', 'warnings.warn_explicit', 'warnings.showwarning',
        'logging.warning', 'logging.warn'}
FORK = ('sym', 'FORK')


def check(ctx):
    ctx.rule('each emission is dominated by the test of both suppressions of '
             'the fork, and each silent path has one of them')
    ctx.rule('each call of the warning channel has a constant code')
    ctx.rule('suppress_warnings stores what it is given; suppress_warning '
             'adds the code to those of the fork')
    general = switch(ctx)
    codes = adding(ctx)
    if not general or not codes:
        return
    it = Interp(ctx.prog, Policy())
    reach = it.reach
    emitters = [q for q in ctx.prog.functions
                if any('ext:' + e in reach.direct[q] for e in EMIT)]
    module_level(ctx)
    ctx.require(emitters, 'no function emits warnings')
    channels = {}
    for q in emitters:
        guarded(ctx, reach, q, general, codes, channels, set())
    ctx.require(channels or ctx.findings, 'no warning channel found')
    sites(ctx, channels)
    others(ctx, reach, general, codes)


def others(ctx, reach, general, codes):
    """Nothing but the public functions (and making a fork, and functions
    that only these call) changes what is suppressed."""
    ok = set(ctx.api('suppress_warnings', 'suppress_warning', 'fork'))
    while True:
        more = {q for q in ctx.prog.functions if q not in ok and
                short(q).startswith('_') and callers(ctx, reach, q) and
                set(callers(ctx, reach, q)) <= ok}
        if not more:
            break
        ok |= more
    for q, f in sorted(ctx.prog.functions.items()):
        if q in ok or not any(isinstance(n, ast.Attribute) and
                              n.attr in (general, codes)
                              for n in ast.walk(f.node)):
            continue
        ctx.count('functions_that_read_the_switches')
        args, kw = symbolic(ctx, q)
        for it, p in run(ctx, q, args, kw, iters=1, max_states=4000,
                         raise_ops=False, dedup=400, interest={'MUT'}):
            for e in p.events:
                if e.kind in ('mut', 'setattr') and e.callee and any(
                        s[0] == 'attr' and s[2] in (general, codes)
                        for s in subterms(e.callee)):
                    ctx.report('written', q, '%s changes what is suppressed, '
                               'which only suppress_warnings and '
                               'suppress_warning may' % short(q), ev=e)


def run(ctx, q, args, kw=(), **pol):
    it = Interp(ctx.prog, Policy(**pol))
    try:
        ps = it.run(('func', q), args, kw)
    except Budget:
        ctx.undecide('%s: state budget exceeded' % q)
        return []
    ctx.count('entries')
    ctx.count('abstract_paths', len(ps))
    ctx.samples.setdefault('functions', set()).update(it.analysed)
    return [(it, p) for p in ps]


def stores(p):
    """(attribute, value or None, event) of the changes to the fork."""
    for e in p.events:
        if e.kind != 'mut' or not e.callee:
            continue
        t = e.callee
        if t[0] == 'attr' and t[1] == FORK:
            yield t[2], (e.args[0] if e.args else None), e


def switch(ctx):
    """Attribute set by suppress_warnings."""
    q = ctx.fn('suppress_warnings')
    line = ctx.prog.functions[q].node.lineno
    attr = None
    for given in (TRUE, FALSE):
        for it, p in run(ctx, q, (given, FORK), interest={'MUT'}):
            if p.ctl != 'N':
                continue
            ctx.count('obligations')
            last = [(a, v, e) for a, v, e in stores(p)
                    if e.extra == 'attr=']
            if not last:
                ctx.report('switch', 'suppress_warnings(%s)/not stored' %
                           show(given), 'suppress_warnings(%s) stores '
                           'nothing on some path' % show(given), q, line)
                continue
            attr, v, e = last[-1]
            if it.static_truth(v, p.st) is not (given == TRUE):
                ctx.report('switch', 'suppress_warnings(%s)' % show(given),
                           'suppress_warnings(%s) stores %s' % (
                               show(given), short_show(v)), ev=e)
    return attr


def holds(t, code):
    """A container term that has the very code as an element."""
    for s in subterms(t):
        if s[0] == 'L' and code in s[3]:
            return True
        if s[0] == 'tup' and code in s[1]:
            return True
        if s[0] == 'mcall' and s[2] in ('add', 'append') and code in s[3]:
            return True
    return False


def adding(ctx):
    """Attribute extended by suppress_warning."""
    q = ctx.fn('suppress_warning')
    line = ctx.prog.functions[q].node.lineno
    code = ('sym', 'CODE')
    attr = None
    for it, p in run(ctx, q, (code, FORK), interest={'MUT'}):
        if p.ctl != 'N':
            continue
        ctx.count('obligations')
        good = None
        for a, v, e in stores(p):
            attr = attr or a
            old = ('attr', FORK, a)
            if e.extra == 'attr=':
                attr = a
                lost = not contains(v, old) or any(
                    s[0] == 'bin' and s[1] in ('-', '&', '^') or
                    s[0] == 'mcall' and s[2] in (
                        'difference', 'intersection',
                        'symmetric_difference') for s in subterms(v))
                good = holds(v, code) and not lost or \
                    'it stores %s' % short_show(v)
            elif e.extra.lstrip('.') in ('add', '|=', 'update') and e.args and (
                    e.args[0] == code or holds(e.args[0], code)):
                good = True
            elif e.extra.lstrip('.') in ('clear', 'discard', 'remove', 'pop',
                                         '-=', '&=', '^='):
                good = 'it takes codes away'
        if good is None and any(
                v and c[0] == 'in' and c[1] == code and
                c[2][0] == 'attr' and c[2][1] == FORK
                for c, v in p.facts.items()):
            continue
        if good is not True:
            ctx.report('add', 'suppress_warning', 'suppress_warning does not '
                       'add the code to the suppressed codes of the fork: '
                       '%s' % (good or 'nothing is stored'), q, line)
    return attr


def params(ctx, q):
    a = ctx.prog.functions[q].node.args
    return [p.arg for p in a.posonlyargs + a.args]


def symbolic(ctx, q):
    """Arguments for a run of q."""
    a = ctx.prog.functions[q].node.args
    args = tuple(('sym', n) for n in params(ctx, q))
    f = ctx.prog.functions[q]
    if q.startswith(ctx.holder.qual + '.') and args and any(
            isinstance(d, ast.Name) and d.id == 'classmethod'
            for d in f.node.decorator_list):
        args = (args[0] + (ctx.holder.qual,),) + args[1:]
    kw = tuple(('k', const(p.arg), ('sym', p.arg)) for p in a.kwonlyargs)
    if a.kwarg:
        kw = (('rest', ('sym', 'REST'), frozenset(
            params(ctx, q) + [p.arg for p in a.kwonlyargs])),) + kw
    return args, kw


def emissions(p):
    return [e for e in p.events if e.kind == 'ext' and e.callee and
            e.callee[0] == 'ext' and e.callee[1] in EMIT]


def guards(facts, general, codes):
    """(fork, code term) for which the facts exclude both suppressions."""
    for c, v in facts.items():
        if c[0] == 'in' and v is False and c[2][0] == 'attr' and \
                c[2][2] == codes:
            f = c[2][1]
            if off(facts, ('attr', f, general)):
                return f, c[1]
    return None


def off(facts, t):
    return facts.get(('truth', t)) is False or \
        facts.get(('is', t, TRUE)) is False or \
        facts.get(('isnone', t)) is True


def suppressed(facts, general, codes):
    for c, v in facts.items():
        if not v:
            continue
        if c[0] == 'in' and c[2][0] == 'attr' and c[2][2] == codes:
            return True
        if c[0] in ('truth', 'is', 'eq') and c[1][0] == 'attr' and \
                c[1][2] == general:
            return True
    return False


def callers(ctx, reach, q):
    f = ctx.prog.functions[q]
    out = []
    for c, d in reach.direct.items():
        if c != q and (q in d or 'attr:' + short(q) in d):
            out.append(c)
    return out


def guarded(ctx, reach, q, general, codes, channels, seen):
    """'ok': all emissions of q are guarded; 'none': none were seen; 'bad'."""
    if q in seen:
        return 'none'
    seen.add(q)
    args, kw = symbolic(ctx, q)
    paths = run(ctx, q, args, kw, interest={'ext:' + e for e in EMIT} |
                {'attr:' + general, 'attr:' + codes},
                iters=1, max_states=4000, raise_ops=False, dedup=400)
    bad = None
    emits = False
    for it, p in paths:
        for e in emissions(p):
            emits = True
            ctx.count('obligations')
            g = guards(e.facts, general, codes)
            if not g:
                bad = e
                continue
            code = g[1]
            if code[0] == 'sym' and code[1] in all_params(ctx, q):
                channels[q] = code[1]
            elif code[0] != 'c':
                ctx.report('code', 'channel@%s' % q, 'the code that is '
                           'tested is %s' % short_show(code), ev=e)
            else:
                channels.setdefault(q, None)
    if bad is None:
        if emits and channels.get(q):
            for it, p in paths:
                if p.ctl == 'N' and not emissions(p) and \
                        not suppressed(p.facts, general, codes):
                    ctx.report('silent', q, 'a warning is swallowed although '
                               'it is not suppressed', q,
                               ctx.prog.functions[q].node.lineno)
        return 'ok' if emits else 'none'
    # the callers may have asked
    up = callers(ctx, reach, q) if short(q).startswith('_') else []
    answers = [guarded(ctx, reach, c, general, codes, channels, seen)
               for c in up]
    if 'bad' in answers:
        return 'bad'
    if 'ok' not in answers:
        ctx.report('unguarded', q, 'a warning is emitted without asking '
                   'whether it is suppressed', ev=bad)
        return 'bad'
    return 'ok'


def all_params(ctx, q):
    a = ctx.prog.functions[q].node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def module_level(ctx):
    """Emissions outside of functions."""
    for m in ctx.prog.modules.values():
        todo = list(m.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and \
                    isinstance(n.func.value, ast.Name):
                r = ctx.prog.resolve_name(m.name, n.func.value.id)
                if r and r[0] == 'ext' and \
                        '%s.%s' % (r[1], n.func.attr) in EMIT:
                    ctx.report('unguarded', m.name, 'a warning is emitted '
                               'when the module is imported', m.name,
                               n.lineno)
            todo.extend(ast.iter_child_nodes(n))


def sites(ctx, channels):
    W = {q for q, c in channels.items() if c}
    seen = {}
    B = ctx.api('dump', 'load', 'get_serializer', 'get_deserializer',
                'validate', 'announce_class')
    for kind in ('serializer', 'deserializer'):
        for q in ctx.lizers(kind):
            r = run_lizer(ctx, q, kind, B | W)
            for e in (r[2] if r else ()):
                site(ctx, e, channels, seen)
    names = {short(q): q for q in W}
    reach = Interp(ctx.prog, Policy()).reach
    for q, f in ctx.prog.functions.items():
        if q in W or not any(w in reach.direct[q] or
                             'attr:' + short(w) in reach.direct[q]
                             for w in W):
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.attr if isinstance(n.func, ast.Attribute) else \
                n.func.id if isinstance(n.func, ast.Name) else None
            if name not in names:
                continue
            ctx.count('warning_sites')
            w = names[name]
            v = code_node(ctx, n, w, channels[w])
            if isinstance(v, ast.Constant) and isinstance(v.value, str):
                continue
            got = [c for (fq, line), c in seen.items() if fq == q]
            if got:
                continue            # judged from the events
            run_site(ctx, q, channels, seen)
            if not [c for (fq, line), c in seen.items() if fq == q]:
                ctx.undecide('the code of the warning at %s:%d' % (
                    ctx.path(q), n.lineno))


def run_site(ctx, q, channels, seen):
    args, kw = symbolic(ctx, q)
    for it, p in run(ctx, q, args, kw, boundary=set(channels), iters=1,
                     interest=set(channels), max_states=4000):
        for e in p.events:
            site(ctx, e, channels, seen)


def code_node(ctx, n, w, name):
    ps = params(ctx, w)
    for k in n.keywords:
        if k.arg == name:
            return k.value
    if name in ps:
        i = ps.index(name) - (1 if isinstance(n.func, ast.Attribute) else 0)
        if 0 <= i < len(n.args) and not any(
                isinstance(a, ast.Starred) for a in n.args[:i + 1]):
            return n.args[i]
    return None


def site(ctx, e, channels, seen):
    if e.kind not in ('call', 'recursive') or not e.callee or \
            e.callee[0] != 'func' or e.callee[1] not in channels or \
            not channels[e.callee[1]]:
        return
    q = e.callee[1]
    g = lookup(e, channels[q], params(ctx, q))
    ctx.count('obligations')
    seen[(e.func, e.line)] = g
    if g is None:
        return
    v = g[1]
    if v[0] == 'c' and isinstance(v[2], str) and v[2]:
        ctx.sample('codes', v[2])
        return
    if v[0] == 'havoc':
        return
    ctx.report('code', '%s:%s' % (e.func, short_show(v, 40)),
               'a warning is emitted under the code %s, which is not '
               'constant' % short_show(v, 80), ev=e)
