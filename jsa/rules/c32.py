"""A type that is given by its name is found again, and it is that very type.
The function that looks up a type by a string is executed abstractly for
constant names of letters that stand for any identifier: without a module,
with a module, and generic with parts that are generic themselves. On every
path the type that is returned must be read under that very name: from the
builtins, from the imported module of that name, or from the classes that were
announced in the given fork; that of a generic name must be the type of its
origin, applied to the types of exactly its parts. A name is unknown only if
all of these places were tried, and no other error may come out of it.
Announcing a class must store it under its announced name, or under the full
name that its metadata is written with."""
from ..objects import *
from ..interp import Interp, Policy, Budget
from .c27 import resolvers
from .c29 import helpers

A, B, C, D, E, F = 'Ayx Bez Cuk Dom Ewu Fip'.split()
PLAIN = (A, A + '.' + B, A + '.' + B + '.' + C)
GENERIC = (('%s[%s]' % (A, B), A, (B,)),
           ('%s[%s, %s.%s]' % (A, B, C, D), A, (B, C + '.' + D)),
           ('%s[%s,%s]' % (A, B, C), A, (B, C)),
           ('%s.%s[%s, %s, %s]' % (A, B, C, D, E), A + '.' + B, (C, D, E)),
           ('%s[%s[%s]]' % (A, B, C), A, ('%s[%s]' % (B, C),)),
           ('%s[%s[%s, %s], %s]' % (A, B, C, D, E), A,
            ('%s[%s, %s]' % (B, C, D), E)),
           ('%s[%s, %s[%s, %s[%s]]]' % (A, B, C, D, E, F), A,
            (B, '%s[%s, %s[%s]]' % (C, D, E, F))),
           ('%s[%s[%s], %s[%s, %s[%s]]]' % (A, B, A, C, D, E, F), A,
            ('%s[%s]' % (B, A), '%s[%s, %s[%s]]' % (C, D, E, F))))
FORK = ('sym', '-fork')
SOURCE = ('sym', '-source')
IMPORTS = ('importlib.import_module', 'builtins.__import__')
CAUGHT = ('ImportError', 'ValueError')


def check(ctx):
    ctx.rule('the type that is found for a name is the builtin, the member '
             'of the imported module or the announced class of that name')
    ctx.rule('a generic name gives its origin applied to each of its parts')
    ctx.rule('a name is unknown only after all places were tried, and the '
             'error carries the source and the name')
    ctx.rule('an announced class is stored under its announced name in the '
             'given fork')
    n = 0
    for q in entries(ctx):
        if roles(ctx, q) is None:
            ctx.undecide('%s: parameters are not understood' % short(q))
            continue
        n += 1
        seen = set()
        for name in PLAIN:
            seen |= plain(ctx, q, name)
        for what in ('builtins', 'module', 'announced'):
            if what not in seen and n and None not in seen:
                ctx.report('never', short(q), 'a type is never looked up '
                           'among the %s types' % what, q,
                           ctx.prog.functions[q].node.lineno)
        if 'none' not in plain(ctx, q, 'NoneType', True) and \
                None not in seen:
            ctx.report('never', short(q), 'the None type is never found by '
                       'its name', q, ctx.prog.functions[q].node.lineno)
        for name, origin, parts in GENERIC:
            generic(ctx, q, name, origin, parts)
    ctx.require(n, 'no function that looks up a class by a name found')
    announce(ctx)


def entries(ctx):
    """The functions by which others look up a class by its name."""
    rs = resolvers(ctx)
    reach = Interp(ctx.prog, Policy()).reach
    imp = {q for q in rs if any('ext:' + i in x or i in x for i in IMPORTS
                                for x in [reach.closed(q) | reach.direct[q]])}
    out = {q for q in imp if any(q in reach.direct[f] for f in
                                 ctx.prog.functions if f not in rs)}
    return sorted(out)


def roles(ctx, q):
    """Arguments by parameter, for the name to be put in."""
    f = ctx.prog.functions[q].node.args
    names = [a.arg for a in f.posonlyargs + f.args + f.kwonlyargs]
    fork = [n for n in names if 'fork' in n.lower()]
    rest = [n for n in names if n not in fork]
    if len(fork) != 1 or not 1 <= len(rest) <= 2:
        return None
    return [(n, FORK if n in fork else SOURCE if n == rest[-1] and
             len(rest) > 1 else None) for n in names]


def run(ctx, q, name):
    fs = helpers(ctx, q, ()) | {q}
    it = Interp(ctx.prog, Policy(
        interest={'VCALL', 'RAISE'} | {'ext:' + i for i in IMPORTS} | fs,
        boundary=set(), force=tuple(sorted(fs)), fold=True, iters=60,
        max_states=6000))
    kw = tuple(('k', const(n), const(name) if v is None else v)
               for n, v in roles(ctx, q))
    try:
        ps = it.run(('func', q), (), kw)
    except Budget:
        ctx.undecide('%s(%r): state budget exceeded' % (short(q), name))
        return None
    ctx.count('entries')
    ctx.count('names')
    ctx.count('abstract_paths', len(ps))
    ctx.samples.setdefault('functions', set()).update(it.analysed)
    return it, ps


def line(ctx, q):
    return Place(q, ctx.prog.functions[q].node.lineno)


class Place:
    def __init__(self, func, line):
        self.func, self.line = func, line


# -- where a type was read -----------------------------------------------------

def text(t):
    return t[2] if t[0] == 'c' and t[1] == 'str' else None


def read(t):
    """(what it was read from, the key)"""
    if t[0] in ('item', 'lookup', 'get'):
        return t[1], t[2]
    if t[0] == 'attr':
        return t[1], const(t[2])
    if t[0] == 'call' and t[1] in (
            ('ext', 'builtins.getattr'), ('ext', 'builtins.hasattr')) and \
            len(t[2]) > 1:
        return t[2][0], t[2][1]
    if t[0] == 'mcall' and t[2] in ('get', '__getitem__') and t[3]:
        return t[1], t[3][0]
    return None, None


def place_of(t):
    """The kind of place t is and the name of the module."""
    if t in (('ext', 'builtins'), ('mod', 'builtins')) or \
            t == ('attr', ('ext', 'builtins'), '__dict__') or \
            t[0] == 'call' and t[1] == ('ext', 'builtins.vars') and \
            t[2] == (('ext', 'builtins'),):
        return 'builtins', None
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in IMPORTS and t[2]:
        return 'module', text(t[2][0])
    if t[0] == 'evt' and len(t) > 2 and t[2][0] == 'ext' and \
            t[2][1] in IMPORTS:
        return 'module', '?'
    if t[0] == 'item' and t[1] == ('ext', 'sys.modules'):
        return 'module', text(t[2])
    if t[0] == 'call' and t[1] == ('ext', 'sys.modules.get') and t[2]:
        return 'module', text(t[2][0])
    if t == ('attr', FORK, '_announced_classes') or t[0] == 'call' and \
            t[1] == ('ext', 'builtins.getattr') and \
            t[2][:2] == (FORK, const('_announced_classes')):
        return 'announced', None
    if t[0] == 'attr' and t[2] == '_announced_classes':
        return 'other fork', None
    return None, None


def denotes(p, t, name):
    """(kind, what is wrong or None) of the type t for the name."""
    if t[0] == 'ite' or t[0] == 'bin' and t[1] in ('or', 'and'):
        rs = [denotes(p, x, name) for x in t[1:] if isinstance(x, tuple)]
        return next((r for r in rs if r[1]), rs[-1])
    if t == ('ext', 'builtins.NoneType'):
        return 'none', None if name == 'NoneType' else \
            'the None type is found for the name %s'
    if t[0] == 'ext' and t[1] == 'builtins.' + name:
        return 'builtins', None
    src, key = read(t)
    if src is None:
        return None, None
    kind, mod = place_of(src)
    if kind is None:
        return None, None
    k = text(key)
    if k is None:
        return None, None
    if kind == 'other fork':
        return kind, 'the classes announced in another fork are searched'
    if kind != 'module':
        return kind, None if k == name else \
            'the name %s is looked up among the %s types' % (tell(k), kind)
    if mod == '?':
        return kind, None
    want = name.rpartition('.')
    if (mod, k) != (want[0], want[2]):
        return kind, '%s is looked up in the module %s' % (
            tell(k), tell(mod or ''))
    return kind, None


def tell(s):
    return repr(s)


# -- names without parts ---------------------------------------------------------

def plain(ctx, q, name, only=False):
    r = run(ctx, q, name)
    if r is None:
        return {None}
    it, ps = r
    seen = set()
    if only:
        return {denotes(p, p.val, name)[0] for p in ps if p.ctl == 'N'}
    for p in ps:
        ctx.count('obligations')
        ev = p.events[-1] if p.events else line(ctx, q)
        if p.ctl == 'N':
            kind, bad = denotes(p, p.val, name)
            if bad:
                ctx.report('other', short(q), 'for the name %s, %s' % (
                    tell(name), bad), ev=ev)
            elif kind is None:
                if p.val == NONE or p.val[0] in ('c', 'ext', 'cls', 'func'):
                    ctx.report('other', short(q), 'for the name %s, %s is '
                               'returned' % (tell(name),
                                             short_show(p.val)), ev=ev)
                else:
                    ctx.undecide('%s returns %s' % (short(q),
                                                    short_show(p.val)))
                    seen.add(None)
            else:
                seen.add(kind)
                found(ctx, q, p, name, kind, ev)
                if kind == 'module' and p.val[0] == 'attr' or kind == \
                        'module' and p.val[0] == 'call' and \
                        len(p.val[2]) < 3:
                    member(ctx, q, ps, name, ev)
        elif p.ctl == 'X':
            failure(ctx, q, it, p, name, ev)
    return seen


def member(ctx, q, ps, name, ev):
    """A module without the member does not end the search."""
    ctx.count('obligations')
    errs = set()
    for p in ps:
        for c in p.facts:
            if c[0] == 'isinst' and c[1][0] == 'exc':
                errs |= handled(p.facts, c[1], True)
    for f in helpers(ctx, q, ()) | {q}:
        errs |= {n.id for n in ast.walk(ctx.prog.functions[f].node)
                 if isinstance(n, ast.Name)}
    if not errs & supers('AttributeError'):
        ctx.report('escapes', short(q), 'a module without the member %s is '
                   'not told from other errors, its AttributeError escapes' %
                   tell(name.rpartition('.')[2]), ev=ev)


def found(ctx, q, p, name, kind, ev):
    """What is returned was found and is not the default of a lookup."""
    v = p.val
    default = v[0] == 'get' or v[0] == 'mcall' and v[2] == 'get' or \
        v[0] == 'call' and v[1] == ('ext', 'builtins.getattr') and \
        len(v[2]) > 2
    if not default:
        return
    if p.facts.get(('truth', v)) or p.facts.get(('isnone', v)) is False:
        return
    src, key = read(v)
    if any(c[0] == 'in' and x and c[1] == key for c, x in p.facts.items()):
        return
    if any(c[0] in ('isinst', 'truth') and x and contains(c[1], v)
           for c, x in p.facts.items()):
        return
    if any(c[0] in ('is', 'eq') and not x and v in c[1:]
           for c, x in p.facts.items()):
        return
    ctx.report('default', short(q), 'for the name %s, the default of a '
               'lookup among the %s types is returned' % (tell(name), kind),
               ev=ev)


def tried(p, name):
    """The places in which the name is known not to be."""
    out = set()
    for c, v in p.facts.items():
        if c[0] in ('truth', 'isnone', 'is', 'eq', 'isinst'):
            for t in c[1:]:
                if isinstance(t, tuple) and t:
                    for s in subterms(t):
                        out.add(denotes(p, s, name)[0])
        elif c[0] == 'in':
            k = place_of(c[2])[0]
            if k is not None:
                out.add(k)
        elif c[0] == 'hasattr' and not v:
            out.add(place_of(c[1])[0])
    for e in p.events:
        if (e.kind in ('ext', 'call') or e.callee) and e.callee and \
                e.callee[0] == 'ext' and e.callee[1] in IMPORTS:
            out.add('module')
        if e.kind == 'caught' and e.callee[0] == 'exc' and len(
                e.callee) > 2 and str(e.callee[2])[:7] == 'getattr':
            out.add('builtins')
    return out


def failure(ctx, q, it, p, name, ev):
    v = p.val
    if is_unknown(v):
        missing = {'builtins', 'announced', 'module'} - tried(p, name)
        if '.' not in name:
            missing.discard('module')
        if missing:
            ctx.report('untried', short(q), 'the name %s is unknown although '
                       'it was not looked up among the %s types' % (
                           tell(name), ' and '.join(sorted(missing))), ev=ev)
        args = v[2] if len(v) > 2 and isinstance(v[2], tuple) else ()
        flat = [a for a in args] + [
            l[2] for x in v[3:] if isinstance(x, tuple) for l in x
            if isinstance(l, tuple) and l and l[0] == 'k']
        if const(name) not in flat or SOURCE not in flat:
            ctx.report('error', short(q), 'the error for an unknown class '
                       'does not carry its source and its name', ev=ev)
        return
    if v[0] == 'exc':
        if len(v) > 2 and isinstance(v[2], str) and (
                v[2] in IMPORTS or v[2] == 'getattr'):
            known = handled(p.facts, v)
            for n in CAUGHT if v[2] in IMPORTS else ('AttributeError',):
                if not known & supers(n):
                    ctx.report('escapes', short(q), 'a %s of the lookup '
                               'escapes' % n, ev=ev)
                    return
            return
    ctx.report('escapes', short(q), '%s comes out of the lookup of a name' %
               short_show(v), ev=ev)


def handled(facts, exc, only=False):
    """Names of the types of errors that exc is asked for."""
    out = set()
    for c, x in facts.items():
        if c[0] == 'isinst' and (not x or only) and c[1] == exc:
            for t in c[2][1] if c[2][0] == 'tup' else (c[2],):
                if t[0] == 'ext':
                    out.add(t[1].split('.')[-1])
    return out


def is_unknown(t):
    return t[0] == 'new' and t[1].split('.')[-1] == 'UnknownClassError'


def supers(n):
    import builtins
    return {c.__name__ for c in getattr(builtins, n).__mro__} - {'object'}


# -- generic names ------------------------------------------------------------------

def generic(ctx, q, name, origin, parts):
    r = run(ctx, q, name)
    if r is None:
        return
    it, ps = r
    ok = 0
    for p in ps:
        ctx.count('obligations')
        ev = p.events[-1] if p.events else line(ctx, q)
        if p.ctl == 'X':
            v = p.val
            if is_unknown(v):
                continue
            if v[0] == 'exc':
                continue                # of the lookup of a part
            ctx.report('escapes', short(q), '%s comes out of the lookup of '
                       'the name %s' % (short_show(v), tell(name)), ev=ev)
            continue
        if p.ctl != 'N':
            continue
        kind, bad = denotes(p, p.val, name)
        if kind == 'builtins' or kind == 'announced':
            continue                # no builtin has such a name
        w = typed(ctx, q, it, p, p.val, name, origin, parts)
        if w == '?':
            ctx.undecide('%s(%s) returns %s' % (short(q), tell(name),
                                                short_show(p.val)))
        elif w:
            ctx.report('parts', short(q), 'for the name %s, %s' % (
                tell(name), w), ev=ev)
        else:
            ok += 1
    if not ok:
        ctx.report('never', short(q), 'the generic name %s is never '
                   'resolved' % tell(name), ev=line(ctx, q))


def typed(ctx, q, it, p, v, name, origin, parts):
    """What is wrong with v for a generic name; '?' if that is unknown."""
    if v[0] == 'item':
        o, a = v[1], v[2]
    elif v[0] == 'mcall' and v[2] in ('__class_getitem__', '__getitem__') \
            and v[3]:
        o, a = v[1], v[3][0]
    elif names_of(ctx, q, it, p, v) == name or denotes(p, v, name)[0]:
        return 'its parts are not looked up'
    elif names_of(ctx, q, it, p, v) == origin:
        return 'its origin without its parts is returned'
    else:
        return '?'
    if a[0] == 'L' and a[1] == 'tuple':
        got = list(a[3])
    elif a[0] == 'tup':
        got = list(a[1])
    elif a[0] == 'evt':
        got = [a]
    elif a[0] == 'L':
        return 'it is applied to a list of its parts'
    else:
        return '?'
    w = one(ctx, q, it, p, o, origin, 'its origin')
    if w:
        return w
    if len(got) != len(parts):
        if any(x[0] == '*' for x in got):
            return '?'
        return '%d of %d parts are found' % (len(got), len(parts))
    for x, n in zip(got, parts):
        w = one(ctx, q, it, p, x, n, 'the part %s' % tell(n))
        if w:
            return w
    return None


def one(ctx, q, it, p, t, name, what):
    k, bad = denotes(p, t, name)
    if bad:
        return '%s: %s' % (what, bad)
    if k:
        return None
    if t[0] in ('item', 'mcall'):
        for n, o, ps in GENERIC:
            pass
        return '?'
    got = names_of(ctx, q, it, p, t)
    if got is None:
        return '?'
    if got == 'fork':
        return '%s is looked up in another fork' % what
    if got.strip() != name or got != name and got != got.strip() and \
            not strips(ctx, q):
        return '%s is looked up as %s' % (what, tell(got))
    return None


def strips(ctx, q):
    """The lookup itself ignores spaces around a name."""
    r = run(ctx, q, ' ' + B + ' ')
    if r is None:
        return True
    return all(denotes(p, p.val, B)[1] is None for p in r[1]
               if p.ctl == 'N')


def names_of(ctx, q, it, p, t):
    """The text that t, a result of a lookup, was looked up with."""
    e = next((e for e in p.events if e.res == t), None)
    if e is None or not e.callee or e.callee[0] != 'func':
        return None
    args = list(e.args) + [l[2] for l in e.kw if l[0] == 'k']
    if FORK not in args:
        return 'fork'
    s = [text(a) for a in args if text(a) is not None]
    return s[0] if len(s) == 1 else None


# -- announcing ---------------------------------------------------------------------

def announce(ctx):
    q = ctx.fn('announce_class')
    names = first_params(ctx, q, 3)
    cls, custom = ('sym', names[0]), ('sym', names[1])
    r = ctx.analyse(q, 3, (), {'MUT', 'UCALL', 'RAISE'}, raise_ops=False)
    if r is None:
        return
    fork = ('sym', names[2])
    full, qualified = 0, False
    for p in r[1]:
        if p.ctl != 'N':
            continue
        ctx.count('obligations')
        given = p.facts.get(('truth', custom))
        if given is None and p.facts.get(('isnone', custom)) is not None:
            given = not p.facts[('isnone', custom)]
        ok = None
        for col, key in stores(p, cls):
            if not any(s[0] == 'attr' and s[2] == '_announced_classes'
                       for s in subterms(col)):
                continue
            if not contains(col, fork):
                ok = 'is stored in another fork'
                continue
            ok = named(ctx, p, key, cls, custom, given) or ''
            if not ok:
                break
        ev = p.events[-1] if p.events else line(ctx, q)
        if ok is None:
            ctx.report('announce', short(q), 'the announced class is not '
                       'stored', ev=ev)
        elif ok:
            ctx.report('announce', short(q), 'the announced class %s' % ok,
                       ev=ev)
        else:
            full += 1
            if not given:
                qualified = qualified or any(
                    of_module(ctx, k) for c, k in stores(p, cls))
    if full and not qualified:
        ctx.report('announce', short(q), 'the announced class is never '
                   'stored under the name with its module', ev=line(ctx, q))
    ctx.require(full, 'no path of announce_class stores the class')


def stores(p, val):
    """(container, key) of every store of val."""
    for e in p.events:
        a = list(e.args)
        if e.kind == 'setitem' and a[1:2] == [val]:
            yield e.callee, a[0]
        elif e.kind == 'mut' and e.callee[0] == 'item' and a[:1] == [val]:
            yield e.callee[1], e.callee[2]
        elif e.kind == 'mut' and e.extra == '__setitem__' and \
                a[1:2] == [val]:
            yield e.callee, a[0]
        elif e.kind == 'mut':
            for t in a:
                for l in t[2] if t[0] == 'D' else ():
                    if l[0] == 'k' and l[2] == val:
                        yield e.callee, l[1]


def named(ctx, p, k, cls, custom, given):
    if k == custom:
        return None if given is not False else \
            'is stored under no name'
    if k[0] in ('bin', 'ite') and contains(k, custom):
        return None
    if given and not contains(k, custom):
        return 'is not stored under its custom name'
    return None


def of_module(ctx, t):
    """The term is made of the module of a class."""
    for s in subterms(t):
        if s == const('__module__') or s[0] == 'attr' and \
                s[2] == '__module__':
            return True
        if s[0] == 'func' and s[1] in ctx.prog.functions and any(
                isinstance(n, ast.Constant) and n.value == '__module__' or
                isinstance(n, ast.Attribute) and n.attr == '__module__'
                for n in ast.walk(ctx.prog.functions[s[1]].node)):
            return True
    return False
