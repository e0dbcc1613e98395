"""The decorators map every argument and the return value. A client that
decorates functions and calls them is written for every combination of kinds
of parameters and of ways to pass the arguments, and executed abstractly with
the decorators expanded: the values passed, the fork, the option and the
results of the mappers are symbols, the signature is a description that the
decorators inspect. On every path, what reaches the decorated function and
what its caller receives must be the result of the mapper at hand for the
value and the type of that parameter. The ways to misuse the decorators are
symbols as well: no path on which they hold may return."""
from ..objects import *
from ..interp import Interp, Policy
from itertools import combinations
import time

PO, PK, VP, KO, VK = range(5)
REAL = ('load', 'loads', 'loadb', 'dump', 'dumps', 'dumpb')

INSPECT = '''
class _empty:
    pass


class Parameter:
    POSITIONAL_ONLY = 0
    POSITIONAL_OR_KEYWORD = 1
    VAR_POSITIONAL = 2
    KEYWORD_ONLY = 3
    VAR_KEYWORD = 4
    empty = _empty

    def __init__(self, name, kind, *, default=_empty, annotation=_empty):
        self.name = name
        self.kind = kind
        self.default = default
        self.annotation = annotation


class BoundArguments:
    def __init__(self, signature, arguments):
        self.signature = signature
        self.arguments = arguments

    def apply_defaults(self):
        arguments = {}
        for name, param in self.signature.parameters.items():
            if name in self.arguments:
                arguments[name] = self.arguments[name]
            elif param.default is not _empty:
                arguments[name] = param.default
            elif param.kind == 2:
                arguments[name] = ()
            elif param.kind == 4:
                arguments[name] = {}
        self.arguments = arguments

    @property
    def args(self):
        result = []
        for name, param in self.signature.parameters.items():
            if name not in self.arguments:
                break
            if param.kind in (0, 1):
                result.append(self.arguments[name])
            elif param.kind == 2:
                result.extend(self.arguments[name])
                break
            else:
                break
        return tuple(result)

    @property
    def kwargs(self):
        result = {}
        started = False
        for name, param in self.signature.parameters.items():
            if param.kind in (3, 4):
                started = True
            elif name not in self.arguments:
                started = True
                continue
            elif param.kind == 2:
                started = True
                continue
            if not started:
                continue
            if name not in self.arguments:
                continue
            if param.kind == 4:
                result.update(self.arguments[name])
            else:
                result[name] = self.arguments[name]
        return result


class Signature:
    empty = _empty

    def __init__(self, parameters=None, return_annotation=_empty):
        self.parameters = {p.name: p for p in parameters}
        self.return_annotation = return_annotation

    def bind(self, *args, **kwargs):
        arguments = {}
        i = 0
        for name, param in self.parameters.items():
            if param.kind == 2:
                if i < len(args):
                    arguments[name] = args[i:]
                    i = len(args)
            elif param.kind in (0, 1) and i < len(args):
                arguments[name] = args[i]
                i = i + 1
            elif param.kind in (1, 3) and name in kwargs:
                arguments[name] = kwargs[name]
            elif param.kind == 4:
                rest = {}
                for key, value in kwargs.items():
                    other = self.parameters.get(key)
                    if other is None or other.kind in (0, 2, 4):
                        rest[key] = value
                if rest:
                    arguments[name] = rest
        return BoundArguments(self, arguments)

    def bind_partial(self, *args, **kwargs):
        return self.bind(*args, **kwargs)


def signature(obj, **kwargs):
    return obj.jsa_signature


def iscoroutinefunction(obj):
    return obj.jsa_coroutine


def isclass(obj):
    return isinstance(obj, type)
'''

HEAD = '''
import jsons
import jsons.decorators
from inspect import Parameter, Signature


class A:
    pass
%s


class Result:
    pass


def body(tag, *args, **kwargs):
    pass


class Function:
    __name__ = 'func'
    __qualname__ = 'func'

    def __init__(self, tag, coroutine, *signature):
        self.tag = tag
        self.jsa_coroutine = coroutine
        self.jsa_signature = Signature(list(signature[1:]), signature[0])

    def __call__(self, *args, **kwargs):
        return body(self.tag, *args, **kwargs)
'''
MOD = 'jsa_decorated'
DECO = 'jsons.decorators.'
VALUES = ('u', 'v', 'w', 'x', 'y', 'z', 'r', 's')
SYMS = VALUES + ('fork', 'opt')


class Probe:
    """One decorated function and one call of it."""
    deco, mapper = 'loaded', 'load'
    parameters = returnvalue = True
    explicit = ()       # of parameters, returnvalue, mapper
    fork = coro = result = option = True
    twice = None

    def __init__(self, params, args, kw, **more):
        self.params = params        # (name, kind, annotation or None, default)
        self.args = args            # symbols
        self.kw = kw                # {name: symbol}
        self.__dict__.update(more)

    def signature(self, params=None, result=None):
        out = ['Result' if self.result else 'Signature.empty']
        for n, k, a, d in self.params if params is None else params:
            out.append('Parameter(%r, %d%s%s)' % (
                n, k, ', annotation=%s' % a if a else '',
                ", default='default'" if d else ''))
        return ', '.join(out)

    def options(self):
        out = []
        if self.fork:
            out.append('fork_inst=fork')
        if self.option:
            out.append('jsa_option=opt')
        if not self.parameters or 'parameters' in self.explicit:
            out.append('parameters=%s' % self.parameters)
        if not self.returnvalue or 'returnvalue' in self.explicit:
            out.append('returnvalue=%s' % self.returnvalue)
        if self.mapper not in ('load', 'dump') or 'mapper' in self.explicit:
            out.append('%s=jsons.%s' % (
                'loader' if self.deco == 'loaded' else 'dumper', self.mapper))
        return ', '.join(out)

    def call(self):
        return '(%s)' % ', '.join(self.args + [
            '%s=%s' % i for i in self.kw.items()])

    def source(self, i):
        f = "Function('f', %s, %s)" % (self.coro, self.signature())
        g = "Function('g', %s, %s)" % (self.coro, self.signature(
            [(n, k, 'A%d' % j if a is None else None, d) for j, (
                n, k, a, d) in enumerate(self.params)]))
        body = ['d = jsons.decorators.%s(%s)' % (self.deco, self.options()),
                'f = d(%s)' % f]
        if self.twice == 'calls':
            body += ['f' + self.call(), 'return f' + self.call()]
        elif self.twice == 'functions':
            body += ['g = d(%s)' % g, 'g' + self.call(),
                     'return f' + self.call()]
        else:
            body += ['return f' + self.call()]
        wrap = ['d = jsons.decorators.%s(%s)' % (self.deco, self.options()),
                'return d(%s)' % f]
        return ''.join('\n\ndef %s%d(%s):\n%s' % (
            n, i, ', '.join(SYMS), ''.join('    %s\n' % l for l in b))
            for n, b in (('call', body), ('wrap', wrap)))

    def bound(self, args, kw):
        """The values by parameter; None if the call is refused."""
        out, i = {}, 0
        kw = dict(kw)
        kinds = {n: k for n, k, _, _ in self.params}
        for n, k, _, d in self.params:
            if k in (PO, PK) and i < len(args):
                if n in kw and k == PK:
                    return None
                out[n] = args[i]
                i += 1
            elif k in (PK, KO) and n in kw:
                out[n] = kw.pop(n)
            elif k == VP:
                out.update({(n, j): x for j, x in enumerate(args[i:])})
                i = len(args)
            elif k == VK:
                out.update({(n, j): x for j, x in kw.items()
                            if kinds.get(j) not in (PK, KO)})
                kw = {j: x for j, x in kw.items() if kinds.get(j) in (PK, KO)}
            elif not d and k != VK and k != VP:
                return None
        return None if i < len(args) or kw else out

    def describe(self):
        star = {VP: '*', VK: '**'}
        out, seen = [], None
        for n, k, a, d in self.params:
            if seen == PO and k != PO:
                out.append('/')
            if k == KO and seen not in (VP, KO):
                out.append('*')
            out.append(star.get(k, '') + n + (': T' if a else '') + (
                '=d' if d else ''))
            seen = k
        return '%s f(%s) called with %s' % (
            self.mapper, ', '.join(out), self.call())


KINDS = (('a', PO, False), ('b', PO, True), ('c', PK, False), ('d', PK, True),
         ('args', VP, False), ('e', KO, False), ('g', KO, True),
         ('kwargs', VK, False))


def probes():
    out = []
    for n in range(len(KINDS) + 1):
        for ks in combinations(KINDS, n):
            ds = [d for _, k, d in ks if k in (PO, PK)]
            if ds != sorted(ds):
                continue
            for pattern in ('all', 'even') if n < 5 else ('all',):
                ps = [(nm, k, 'A%d' % i if pattern == 'all' or i % 2 else
                       None, d) for i, (nm, k, d) in enumerate(ks)]
                out += ways(ps)
    m = [('self', PK, None, False), ('c', PK, 'A1', False)]
    out += [Probe(m, ['u', 'v'], {}), Probe(m, ['u'], {'c': 'v'}),
            Probe([('cls', PK, None, False)] + m[1:], ['u', 'v'], {}),
            Probe([('self', PO, None, False), ('kwargs', VK, 'A1', False)],
                  ['u'], {'k': 'v', 'l': 'w'})]
    rich = [Probe(p, a, k) for p, a, k in (
        ([('a', PO, 'A0', False), ('c', PK, 'A1', False),
          ('d', PK, None, True), ('args', VP, 'A2', False),
          ('e', KO, 'A3', False), ('kwargs', VK, 'A4', False)],
         ['u', 'v', 'w', 'x', 'y'], {'e': 'z', 'k': 'r'}),
        (m, ['u'], {'c': 'v'}),
        ([('c', PK, 'A0', False), ('g', KO, None, True)], [],
         {'c': 'u', 'g': 'v'}),
        ([], [], {}))]
    for p in rich:
        for deco, mapper in [('loaded', x) for x in REAL[:3]] + [
                ('dumped', x) for x in REAL[3:]]:
            for pa in (True, False):
                for rv in (True, False):
                    for coro in (True, False):
                        out.append(vary(p, deco=deco, mapper=mapper,
                                        parameters=pa, returnvalue=rv,
                                        coro=coro))
        for more in ({'fork': False}, {'option': False}, {'result': False},
                     {'result': False, 'coro': True},
                     {'explicit': ('parameters', 'returnvalue', 'mapper')},
                     {'twice': 'calls'}, {'twice': 'functions'},
                     {'twice': 'calls', 'deco': 'dumped', 'mapper': 'dumpb'},
                     {'twice': 'functions', 'coro': True},
                     {'fork': False, 'deco': 'dumped', 'mapper': 'dump'}):
            out.append(vary(p, **more))
    return out


def vary(p, **more):
    return Probe(p.params, p.args, p.kw, **{'coro': False, **more})


def ways(ps):
    """Ways to pass the arguments."""
    out, seen = [], set()
    names = [n for n, _, _, _ in ps]
    kinds = {k for _, k, _, _ in ps}
    for by_kw in (0, 1, 2):
        for defaults in (True, False):
            for extra in (0, 2):
                vs = iter(VALUES)
                args, kw = [], {}
                positional = True
                for n, k, a, d in ps:
                    if d and not defaults:
                        positional = False
                        continue
                    if k == PO and positional:
                        args.append(next(vs))
                    elif k == PK and positional and not (
                            by_kw == 1 or by_kw == 2 and d):
                        args.append(next(vs))
                    elif k == PK or k == KO:
                        kw[n] = next(vs)
                        if k == PK:
                            positional = False
                    elif k == VP and positional and extra:
                        args += [next(vs, 'r'), next(vs, 's')]
                    elif k == VK and extra:
                        kw['k'] = next(vs, 'r')
                        if names[0] == 'a':
                            # allowed: a is positional only
                            kw['a'] = next(vs, 's')
                key = (tuple(args), tuple(kw.items()))
                if key in seen:
                    continue
                seen.add(key)
                p = Probe(ps, args, kw, coro=False)
                if p.bound(args, kw) is not None:
                    out.append(p)
    return out


def check(ctx):
    ctx.rule('what reaches a decorated function is the mapped argument, for '
             'every kind of parameter and every way to pass it')
    ctx.rule('what its caller receives is the mapped result')
    ctx.rule('what cannot be decorated, and what cannot map, is rejected')
    ps = probes()
    prog = ctx.prog
    for name in ('inspect', 'asyncio'):
        prog.add_module(name, INSPECT if name == 'inspect' else
                        'from inspect import iscoroutinefunction\n',
                        stub=True)
    prog.add_module(MOD, HEAD % ''.join(
        '\n\nclass A%d(A):\n    pass\n' % i for i in range(len(KINDS))) +
        ''.join(p.source(i) for i, p in enumerate(ps)) + misuse())
    B = {ctx.fn(n): n for n in REAL}
    end = time.monotonic() + 300
    order = sorted(range(len(ps)), key=lambda i: (ps[i].twice is None, -i))
    for n, i in enumerate(order):
        if time.monotonic() > end:
            ctx.undecide('%d of %d calls are left out' % (
                len(ps) - n, len(ps)))
            break
        run(ctx, i, ps[i], B)
    ctx.count('signatures_and_calls', len(ps))
    rejections(ctx, B)


def execute(ctx, name, B, syms=SYMS, **pol):
    it = Interp(ctx.prog, Policy(
        inline_all=True, boundary=frozenset(B) | {MOD + '.body'},
        raise_ops=False, max_states=800, **pol))
    try:
        return it, it.run(('func', '%s.%s' % (MOD, name)),
                          tuple(('sym', s) for s in syms), ())
    except Exception as err:
        ctx.undecide('%s: %s' % (name, err))
        return it, None


def run(ctx, i, p, B):
    it, paths = execute(ctx, 'call%d' % i, B)
    if paths is None:
        return
    n = 0
    for q in paths:
        ctx.count('paths')
        calls = [e for e in q.events if e.kind == 'call' and
                 e.callee == ('func', MOD + '.body')]
        if any(infeasible(c, v, p) for c, v in q.facts.items()):
            continue
        n += 1
        one(ctx, p, q, calls, B)
    ctx.require(n, 'no path of a decorated function')
    if i % 7 and not p.coro:
        return
    it, ws = execute(ctx, 'wrap%d' % i, B)
    for w in ws or ():
        if w.ctl == 'N' and w.val[0] == 'clo':
            ctx.count('obligations')
            c = it.closures[w.val[1]]
            if isinstance(c.node, ast.AsyncFunctionDef) and not p.coro:
                ctx.report('async', p.deco, 'a function that is no coroutine '
                           'function is made one', ev=Place(
                               c.qual, c.node.lineno))


def infeasible(c, v, p):
    if c[0] == 'truth' and c[1][0] in ('call', 'evt', 'ext') and any(
            s == ('ext', 'inspect.isawaitable') or s[0] == 'ext' and
            s[1].endswith('.iscoroutine') for s in subterms(c[1])):
        return v != bool(p.coro)
    return False


def near(q, e):
    """The event, or the last one before it in the package."""
    out = None
    for x in q.events:
        if x.func.startswith('jsons.'):
            out = x
        if x is e and out is not None:
            break
    return out or e


def one(ctx, p, q, calls, B):
    at = next((e for e in q.events if e.func.startswith('jsons.')),
              place(ctx, DECO + p.deco))
    what = p.describe()
    key = '%s/%s' % (p.deco, 'coroutine' if p.coro else 'function')
    if q.ctl != 'N':
        ctx.report('raises', key, '%s raises %s' % (
            what, short_show(q.val, 80)), ev=at)
        return
    want = [('f',)] if p.twice is None else [('f',), ('f',)] \
        if p.twice == 'calls' else [('g',), ('f',)]
    tags = [(e.args[0][2],) if e.args and e.args[0][0] == 'c' else None
            for e in calls]
    ctx.count('obligations')
    if tags != want:
        ctx.report('called', key, '%s: the decorated function is called %d '
                   'times' % (what, len(calls)), ev=at)
        return
    e = calls[-1]
    args, kw = list(e.args[1:]), {}
    for l in e.kw:
        if l[0] != 'k' or l[1][0] != 'c':
            ctx.undecide('%s: the arguments are not known' % what)
            return
        kw[l[1][2]] = l[2]
    if any(a[0] == '*' for a in args):
        ctx.undecide('%s: the arguments are not known' % what)
        return
    got = p.bound(args, kw)
    exp = p.bound([('sym', a) for a in p.args],
                  {k: ('sym', v) for k, v in p.kw.items()})
    types = {n: a for n, _, a, _ in p.params}
    extra = set(got or ()) - set(exp)
    if got is not None:
        # the default may be passed explicitly
        extra = {n for n in extra if got[n] != const('default')}
    if got is None or set(exp) - set(got) or extra:
        ctx.report('arguments', key, '%s: other arguments are passed on' %
                   what, ev=near(q, e))
        return
    for n, sym in sorted(exp.items(), key=repr):
        ctx.count('obligations')
        base = n[0] if isinstance(n, tuple) else n
        cls = types[base]
        if not p.parameters or n in ('self', 'cls') and got[n] == sym:
            if got[n] != sym:
                ctx.report('unasked', key, '%s: an argument is mapped '
                           'although that is not asked for' % what, ev=near(q, e))
            continue
        if n in ('self', 'cls'):
            if not any(v is False and any(
                    s == ('ext', 'builtins.hasattr') for s in subterms(c)) or
                    c[0] == 'hasattr' and v is False
                    for c, v in q.facts.items()):
                ctx.report('self', key, '%s: %s is mapped' % (what, n), ev=near(q, e))
            continue
        mapped(ctx, p, q, got[n], sym, cls, key, '%s: the argument of %s' % (
            what, base), B)
    res = e.res
    v = q.val
    ctx.count('obligations')
    if p.returnvalue:
        if p.coro:
            mapped(ctx, p, q, v, ('await', res), 'Result' if p.result
                   else None, key, '%s: the result' % what, B)
        else:
            mapped(ctx, p, q, v, res, 'Result' if p.result else None, key,
                   '%s: the result' % what, B)
    elif v not in (res, ('await', res)):
        ctx.report('unasked', key, '%s: the result is %s' % (
            what, short_show(v, 80)), ev=near(q, e))


def mapped(ctx, p, q, t, value, cls, key, what, B):
    """t is the value mapped with the type."""
    m = [e for e in q.events if e.kind == 'call' and e.res == t and
         e.callee[0] == 'func' and e.callee[1] in B]
    at = near(q, None)
    if not m:
        ctx.report('unmapped', key, '%s is not mapped' % what, ev=at)
        return
    e = m[0]
    if B[e.callee[1]] != p.mapper:
        ctx.report('mapper', key, '%s is mapped by %s' % (
            what, B[e.callee[1]]), ev=e)
        return
    if not e.args or e.args[0] != value:
        ctx.report('value', key, '%s is made of %s' % (what, short_show(
            e.args[0] if e.args else NONE, 80)), ev=e)
        return
    ps = params_of(ctx, e)
    a = dict(zip(ps[1:], e.args[1:]))
    for l in e.kw:
        if l[0] != 'k' or l[1][0] != 'c':
            ctx.undecide('%s: the options are not known' % what)
            return
        a[l[1][2]] = l[2]
    t = a.pop('cls', NONE)
    want = ('cls', '%s.%s' % (MOD, cls)) if cls else NONE
    if t != want:
        if t[0] not in ('c', 'cls', 'ext', 'sym') and not contains(t, value):
            ctx.undecide('%s is mapped with the type %s' % (
                what, short_show(t)))
            return
        ctx.report('type', key, '%s is mapped with the type %s instead of '
                   '%s' % (what, short_show(t, 60), short_show(want, 60)),
                   ev=e)
        return
    f = a.pop('fork_inst', None)
    if p.fork and f != ('sym', 'fork') or not p.fork and f is not None and \
            not (f[0] == 'cls' and f[1].endswith('.JsonSerializable')):
        ctx.report('fork', key, '%s is mapped with the fork %s' % (
            what, short_show(f, 60) if f else 'that is the default'), ev=e)
        return
    o = a.pop('jsa_option', None)
    if o != (('sym', 'opt') if p.option else None):
        ctx.report('options', key, '%s is mapped without the options given' %
                   what, ev=e)
        return
    if a:
        ctx.report('options', key, '%s is mapped with %s, which was not '
                   'given' % (what, ', '.join(map(str, sorted(a)))), ev=e)


# -- misuse --------------------------------------------------------------------

def misuse():
    out = ''
    for d, o in (('loaded', 'loader'), ('dumped', 'dumper')):
        out += '\n\ndef decorate_%s(x, fork):\n    return jsons.decorators.%s(' \
            'fork_inst=fork)(x)\n' % (d, d)
        out += '\n\ndef mapper_%s(x):\n    return jsons.decorators.%s(%s=x)\n' % (d, d, o)
    return out


def rejections(ctx, B):
    for d, allowed in (('loaded', REAL[:3]), ('dumped', REAL[3:])):
        at = place(ctx, DECO + d)
        x = ('sym', 'x')
        it, ps = execute(ctx, 'decorate_' + d, B, ('x', 'fork'),
                         exc_objects=False)
        for p in ps or ():
            ctx.count('paths')
            for ty in ('staticmethod', 'classmethod', 'type'):
                ctx.count('obligations')
                v = isinst(p, x, 'builtins.' + ty)
                if p.ctl == 'N' and v is not False:
                    ctx.report('reject', '%s/%s' % (d, ty), 'a %s can be '
                               'decorated' % ty, ev=at)
            rejected(ctx, d, p, at)
        it, ps = execute(ctx, 'mapper_' + d, B, ('x',))
        ok = tuple(('func', ctx.fn(n)) for n in allowed)
        for p in ps or ():
            ctx.count('paths')
            ctx.count('obligations')
            is_in = [v for c, v in p.facts.items() if c[0] == 'in' and
                     c[1] == x and set(elements(c[2])) <= set(ok)]
            is_eq = [v for c, v in p.facts.items() if c[0] in ('eq', 'is') and
                     x in c[1:] and any(k in c[1:] for k in ok)]
            known = True in is_in or True in is_eq
            if p.ctl == 'N' and not known:
                ctx.report('mapper', '%s/any' % d, 'anything is accepted as '
                           'the function that maps', ev=at)
            if p.ctl == 'X' and known:
                ctx.report('mapper', '%s/none' % d, 'a function that maps '
                           'is refused', ev=at)
            rejected(ctx, d, p, at)


def elements(t):
    return t[1] if t[0] == 'tup' else t[3] if t[0] == 'L' else (t,)


def isinst(p, x, ty):
    out = None
    for c, v in p.facts.items():
        if c[0] == 'isinst' and c[1] == x:
            ts = elements(c[2])
            if ('ext', ty) in ts and (v is False or len(ts) == 1):
                return v
    return out


def rejected(ctx, d, p, at):
    if p.ctl == 'X':
        ctx.count('obligations')
        if 'InvalidDecorationError' not in show(p.val):
            ctx.report('error', d, 'a wrong use ends in %s' % short_show(
                p.val, 80), ev=at)
