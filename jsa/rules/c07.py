"""Failures surface only as the library's errors, with their cause. load,
loads, loadb and dump are executed abstractly; every call of user code, of a
looked-up (de)serializer, of json and of the import machinery may raise
anything. Every exceptional exit must be a library error that is chained to
what was raised, a library error passed on, or an exit that is no ordinary
error and was not touched."""
import ast

from ..options import *
from ..facts import *
from ..objects import first_params
from .c27 import resolvers

ENTRIES = (('load', 2, ('get_deserializer', 'get_validator',
                        'announce_class', 'get_serializer')),
           ('loads', 2, ('load',)), ('loadb', 2, ('loads',)),
           ('dump', 1, ('get_serializer', 'get_deserializer',
                        'announce_class')))
IMPORTS = {'importlib.import_module', 'importlib.__import__',
           'builtins.__import__'}
PARSERS = {'json.loads', 'json.load', 'json.decoder.JSONDecoder'}


def exc_facts(p, t):
    return {c[2]: v for c, v in p.facts.items()
            if c[0] == 'isinst' and c[1] == t}


def not_ordinary(p, t):
    return exc_facts(p, t).get(('ext', 'builtins.Exception')) is False


def package_error(ctx, p, t):
    if is_package_error(ctx, t):
        return True
    base = ctx.cls('JsonsError')
    return any(v and T[0] == 'cls' and subclass_of(ctx, T[1], base)
               for T, v in exc_facts(p, t).items())


def judge_exit(ctx, name, q, p):
    ctx.count('obligations')
    t = p.val
    caught = [e for e in p.events if e.kind == 'caught']
    raises = [e for e in p.events if e.kind == 'raise']
    line = raises[-1].line if raises else ctx.prog.functions[q].node.lineno
    func = raises[-1].func if raises else q
    if t[0] == 'exc':
        if not_ordinary(p, t):
            return
        if package_error(ctx, p, t):
            return
        if user_error(ctx, name, p, t):
            return
        kinds = ', '.join(('' if v else 'not ') + show(T)
                          for T, v in exc_facts(p, t).items())
        ctx.report('escape', '%s/%s' % (name, t[2]),
                   'an %s (%s) leaves %s as it is' % (
                       show(t), kinds or 'any exception', name), func, line)
        return
    if not is_package_error(ctx, t):
        ctx.report('escape', '%s/%s' % (name, short_show(t, 60)),
                   '%s raises %s, which is no error of the library' % (
                       name, short_show(t)), func, line)
        return
    if not caught:
        return
    if not raises:
        return
    cause, how, current = (raises[-1].extra + (None, None))[:3] \
        if raises[-1].extra else (None, None, None)
    excs = {e.callee for e in caught if e.callee}
    live = [x for x in excs if x and x[0] == 'exc' and
            not not_ordinary(p, x)]
    if how == 'from' and cause == NONE:
        ctx.report('chain', '%s/from-none' % name,
                   'the error raised by %s hides its cause' % name, func,
                   line)
    elif how == 'from' and cause is not None and cause[0] != 'exc' and \
            not contains_exc(cause):
        ctx.report('chain', '%s/cause' % name,
                   'the error raised by %s names %s as its cause' % (
                       name, show(cause)), func, line)
    elif how == 'plain' and current is None and live and \
            p.events.index(raises[-1]) > \
            min(p.events.index(e) for e in caught):
        last = caught[-1]
        if wraps(p, last, raises[-1]):
            ctx.report('chain', '%s/lost' % name,
                       'the error raised by %s is not chained to the error '
                       'that was caught' % name, func, line)


def wraps(p, caught, raised):
    """The raised error speaks about the caught one."""
    t = caught.callee
    return t is not None and contains(raised.callee or NONE, t)


def contains_exc(t):
    return any(s[0] == 'exc' for s in subterms(t))


def user_error(ctx, name, p, t):
    """What the statement leaves to the caller: an unknown encoding, but not
    bytes that the encoding does not have."""
    if name != 'loadb' or '.decode' not in str(t[2]):
        return False
    v = exc_facts(p, t)
    return any(x in v and v[x] is False for x in (
        ('ext', 'builtins.UnicodeError'),
        ('ext', 'builtins.UnicodeDecodeError'),
        ('ext', 'builtins.ValueError'))) or any(
            v.get(('ext', 'builtins.' + n)) for n in (
                'LookupError', 'TypeError'))


def sources(ctx, name, q, it, events):
    """Calls that may raise anything must lie inside a handler that sees
    every ordinary error."""
    n = 0
    for e in events:
        risky = e.kind == 'ucall' and is_lizer_result(ctx, e.callee) or \
            e.kind == 'ext' and e.callee[0] == 'ext' and \
            e.callee[1] in IMPORTS | PARSERS
        if not risky:
            continue
        n += 1
        ctx.count('obligations')
        if not e.tries:
            ctx.report('unguarded', '%s/%s' % (name, show(e.callee)),
                       '%s is called by %s outside of any handler: its '
                       'errors reach the caller as they are' % (
                           show(e.callee), name), ev=e)
    return n


def handlers(ctx):
    """No handler in the package keeps exits that are no ordinary errors, and
    no raise hides its cause."""
    n = 0
    for m in ctx.prog.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Raise):
                n += 1
                if isinstance(node.cause, ast.Constant) and \
                        node.cause.value is None:
                    ctx.report('chain', '%s/from None' % m.name,
                               'the cause of an error is hidden', m.name,
                               node.lineno)
            if not isinstance(node, ast.ExceptHandler):
                continue
            n += 1
            if not catches_exits(ctx, m, node.type):
                continue
            last = node.body[-1]
            if not (isinstance(last, ast.Raise) and last.exc is None) or \
                    any(isinstance(x, (ast.Return, ast.Break, ast.Continue))
                        for s in node.body for x in ast.walk(s)):
                ctx.report('exits', '%s/handler' % m.name,
                           'a handler keeps exits that are no ordinary '
                           'errors (KeyboardInterrupt, SystemExit)', m.name,
                           node.lineno)
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                skips(ctx, m, node)
            if isinstance(node, ast.Try):
                for s in node.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Return):
                            ctx.report('exits', '%s/finally' % m.name,
                                       'a return in a finally clause drops '
                                       'the error in flight', m.name,
                                       x.lineno)
    return n


LINKS = ('__cause__', '__context__')


def skips(ctx, m, node):
    """What was caught is left out of the chain, or cut off from what
    caused it, without a look at whether there is such a cause."""
    def link(x):
        return isinstance(x, ast.Attribute) and x.attr in LINKS and \
            isinstance(x.value, ast.Name)
    asked = any(link(y) for x in ast.walk(node)
                if isinstance(x, (ast.If, ast.IfExp)) for y in
                ast.walk(x.test))
    for x in ast.walk(node):
        if isinstance(x, ast.Raise) and link(x.cause) and not asked:
            ctx.report('chain', '%s/skipped' % m.name, 'the error that was '
                       'caught is left out of the chain of causes', m.name,
                       x.lineno)
        if isinstance(x, ast.Assign) and any(link(t) for t in x.targets) and \
                isinstance(x.value, ast.Constant):
            ctx.report('chain', '%s/cut' % m.name, 'the cause of the error '
                       'that was caught is removed', m.name, x.lineno)


def catches_exits(ctx, m, t):
    if t is None:
        return True
    ts = t.elts if isinstance(t, ast.Tuple) else [t]
    for x in ts:
        if isinstance(x, ast.Name):
            r = ctx.prog.resolve_name(m.name, x.id)
            name = r[1] if r and r[0] == 'ext' else x.id
            if str(name).split('.')[-1] in (
                    'BaseException', 'KeyboardInterrupt', 'SystemExit',
                    'GeneratorExit'):
                return True
    return False


def kept(ctx, name, q, p):
    """A normal end after a failure of the work itself."""
    work = {e.n for e in p.events if e.kind == 'ucall'}
    for e in p.events:
        if e.kind == 'caught':
            t = e.callee
            if t and t[0] == 'exc' and t[1] in work:
                ctx.report('swallow', '%s/%s' % (name, t[2]),
                           '%s returns normally although %s was caught' % (
                               name, show(t)), ev=e)


def metadata(ctx, name, q, npos, B):
    """Malformed metadata and names of classes: what is read of the input may
    be missing, and looking up a class by its name may raise anything."""
    res = resolvers(ctx)
    B = B | res | ctx.api('validate')
    r = ctx.analyse(q, npos, B, B, iters=1, fallback=False, frail=[
        ('sym', n) for n in first_params(ctx, q, 1)])
    if r is None:
        return []
    leak = {f for f in res if leaks(ctx, f, res)}
    done = set()
    for p in r[1]:
        for e in p.events:
            if ctx.is_call(e, leak):
                ctx.count('obligations')
                if not e.tries and (e.func, e.line) not in done:
                    done.add((e.func, e.line))
                    ctx.report('unguarded', '%s/%s' % (name, short(
                        e.callee[1])), 'a class is looked up by its name '
                        'outside of any handler: what goes wrong reaches the '
                        'caller as it is', ev=e)
        if p.ctl == 'X':
            judge_exit(ctx, name, q, p)
    return list(r[1])


def leaks(ctx, f, res):
    """Importing what a name says may raise anything, and the function lets
    some of it out."""
    I = {'ext:' + x for x in IMPORTS}
    r = ctx.analyse(f, None, ctx.api('load', 'dump'), I, iters=1, bag=True)
    if r is None:
        return False
    for e in r[0].all_events(r[1]):
        if e.kind == 'ext' and e.callee[0] == 'ext' and \
                e.callee[1] in IMPORTS and not any(
                    covers(t) for y in e.tries if y[0] == 'try'
                    for t in y[2]):
            return True
    return False


def covers(t):
    if t[0] == 'tup':
        return any(covers(x) for x in t[1])
    return t in (('ext', 'builtins.Exception'), ('ext',
                                                 'builtins.BaseException'))


def check(ctx):
    ctx.rule('exceptional exits: library error chained to what was caught, '
             'or a library error passed on, or no ordinary error')
    ctx.rule('calls that may raise anything lie inside a handler')
    ctx.rule('no handler keeps KeyboardInterrupt or SystemExit; no raise '
             'hides its cause')
    for name, npos, bounds in ENTRIES:
        q = ctx.fn(name)
        B = ctx.api(*bounds)
        I = B | {'VCALL'} | {'ext:' + x for x in PARSERS}
        r = ctx.analyse(q, npos, B, I, iters=1, fallback=False,
                        exc_parts=True, frail=[
                            ('sym', n) for n in first_params(ctx, q, 1)])
        if r is None:
            continue
        it, paths = r
        n = sources(ctx, name, q, it, it.all_events(paths))
        r = ctx.analyse(q, npos, B, I | {'ext:' + x for x in IMPORTS},
                        iters=1, bag=True)
        if r is not None:
            sources(ctx, name, q, r[0], r[0].all_events(r[1]))
        if name in ('load', 'dump', 'loads'):
            ctx.require(n, 'no work found in %s' % name)
        for p in paths:
            if p.ctl == 'X':
                judge_exit(ctx, name, q, p)
            else:
                kept(ctx, name, q, p)
        if name == 'load':
            paths = paths + metadata(ctx, name, q, npos, B)
        ctx.count('exceptional_exits',
                  sum(1 for p in paths if p.ctl == 'X'))
    ctx.count('handlers_and_raises', handlers(ctx))
