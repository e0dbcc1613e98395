"""Strip filters and key transformers apply to every key, and only they. The
serializers of objects, dicts and named tuples are executed abstractly with
all options unknown; the functions that are handed the strip options are
expanded. On every path, for every name the loop visits: it is left out only
if the facts of the path say that a strip option asked for it (or that it is a
method, a dunder, or a member every object of the library has), and it is kept
only if the facts refute each of the strip options. For every part that was
dumped: it is in the result unless it is None and strip_nulls is given, and
its key is what the key transformer returned for the name exactly when there
is a key transformer (integers, being hashes, excepted)."""
from ..objects import *
from ..caching import cached

KT = entry_opt('key_transformer')
STRIP = entry_opt('strip_nulls')
PRIV = entry_opt('strip_privates')
PROPS = entry_opt('strip_properties')
VARS = entry_opt('strip_class_variables')
ATTR = entry_opt('strip_attr')
FILTERS = (PRIV, PROPS, VARS, ATTR)
KEYS = const('-keys')
LAYOUT = (('builtins.dict', 'collections.abc.Mapping'),
          ('builtins.tuple',), ('builtins.object',))


def check(ctx):
    ctx.rule('a name is left out exactly when a strip option asks for it')
    ctx.rule('a dumped part is left out exactly when it is None and nulls '
             'are stripped')
    ctx.rule('every key of the result has been transformed, once, if there '
             'is a key transformer')
    seen = set()
    for names in LAYOUT:
        q = next((fn[1] for k, fn, classes, prio, e in ctx.registry()
                  if k == 'serializer' and {c[1] for c in classes
                                            if c[0] == 'ext'} & set(names)),
                 None)
        if q is None or q in seen:
            continue
        seen.add(q)
        if names == ('builtins.object',):
            r = expanded(ctx, q)
        else:
            r = parts_run(ctx, q, 'serializer', 2)
        if r is None:
            continue
        obj = ('sym', first_params(ctx, q, 1)[0])
        bases = set()
        if names == ('builtins.object',):
            bases = universes(ctx, r[1], obj)
            ctx.require(bases, 'the loop over the attributes of an object '
                        'was not found')
            for b, name in bases:
                if b == ('attr', obj, '__dict__') or b == (
                        'call', ('ext', 'builtins.vars'), (obj,), ()) or \
                        b == ('attr', obj, '__slots__'):
                    ctx.report('names', short(q), '%s only looks at %s, '
                               'which lacks the attributes of its classes' %
                               (short(q), short_show(b)), ev=place(ctx, q))
        n = 0
        for p in r[1]:
            if p.ctl != 'N':
                continue
            ctx.count('paths')
            for b in bases:
                filtered(ctx, q, p, obj, b)
            n += entries(ctx, q, p, obj)
        ctx.require(n, 'no entries of %s found' % q)
    ctx.require(len(seen) > 2, 'no serializers of objects and dicts found')


def expanded(ctx, q):
    """A run in which all functions that are given strip options are
    expanded."""
    B = part_boundary(ctx) | task_helpers(ctx)
    c = set(cached(ctx)) - B
    force = set()
    r = None
    for _ in range(6):
        r = ctx.analyse(q, 1, B, B | {'UCALL'}, iters=1, fallback=False,
                        dedup=400, ext_raise=False, raise_ops=False,
                        force=tuple(sorted(force)), max_states=250000,
                        opaque=tuple(sorted(c - force)),
                        without=('fork_inst',))
        if r is None:
            return None
        more = set()
        for p in r[1]:
            for e in p.events:
                f = e.callee
                if e.kind == 'opaque' and f and f[0] == 'func' and any(
                        direct(a) for a in call_args(e)):
                    more.add(f[1])
        for s in {s for p in r[1] for x in terms_of(p)
                  for s in subterms(x)
                  if s[0] == 'call' and s[1][0] == 'func'}:
            if any(direct(a) for a in s[2]) or any(
                    l[0] == 'k' and direct(l[2]) for l in s[3]):
                more.add(s[1][1])
        more = {f for f in more if f in ctx.prog.functions} - force
        if not more:
            break
        force |= more
    return r


def call_args(e):
    return list(e.args) + [l[2] for l in e.kw if l[0] == 'k']


def terms_of(p):
    yield p.val
    for c, v in p.facts.items():
        for x in c[1:]:
            if isinstance(x, tuple):
                yield x
    for e in p.events:
        if e.callee:
            yield e.callee


def direct(a):
    """A strip option, or a tuple or normal form of some."""
    if a in FILTERS:
        return True
    if a[0] == 'tup':
        return any(direct(x) for x in a[1])
    if a[0] == 'L':
        return any(direct(x if x[0] != '*' else x[1]) for x in a[3])
    if a[0] == 'D':
        return any(l[0] == 'k' and direct(l[2]) for l in a[2])
    if a[0] == 'call' and a[1][0] == 'func':
        return any(direct(x) for x in a[2])
    return False


# -- which names are dumped ---------------------------------------------------

def read_name(t, obj):
    """N if t is the attribute of obj named N."""
    if t[0] == 'call' and t[1] == ('ext', 'builtins.getattr') and \
            len(t[2]) > 1 and t[2][0] == obj:
        return t[2][1]
    if t[0] == 'mcall' and t[2] in ('__getattribute__', '__getattr__') and \
            t[1] == obj and t[3]:
        return t[3][0]
    return None


def collection(n):
    """(collection, index) of the loop that the name was taken from."""
    if n[0] in ('item', 'elem') and n[0] == 'item' and n[1][0] == 'elem':
        n = n[1]
    if n[0] == 'elem':
        return n[1], n[2]
    return None, None


def over(e, b):
    """The loop runs over the collection."""
    c = e.callee
    if c and c[0] == 'mcall' and c[2] in ('items', 'keys', 'copy') and \
            not c[3]:
        c = c[1]
    elif c and c[0] == 'view' and len(c) > 2:
        c = c[2]
    return c == b


def universes(ctx, paths, obj):
    out = set()
    for p in paths:
        for e in part_attempts(ctx, 'serializer', p):
            n = read_name(e.args[0], obj) if e.args else None
            if n is not None:
                b, i = collection(n)
                if b is not None:
                    out.add((b, n))
    return out


def filtered(ctx, q, p, obj, base):
    b, n = base
    if not any(e.kind == 'loop' and over(e, b) and e.args[0][2] > 0
               for e in p.events):
        return
    f = Facts(ctx, p, n)
    ctx.count('names')
    done = [e for e in part_attempts(ctx, 'serializer', p)
            if e.args and read_name(e.args[0], obj) == n]
    if not done:
        why = f.excluded()
        if why is None:
            return
        ev = next((e for e in p.events if e.kind == 'loop' and
                   over(e, b)), None)
        if why == '?':
            ctx.undecide('it is not known why a name is left out by %s' %
                         short(q))
        else:
            ctx.report('lost', '%s/%s' % (short(q), why), '%s leaves out an '
                       'attribute %s' % (short(q), why), ev=ev)
        return
    for o in FILTERS:
        ctx.count('obligations')
        w = f.refuted(o)
        if w is None or w is True:
            continue
        if w == '?':
            ctx.undecide('it is not known whether %s is applied' % o[2])
        else:
            ctx.report('kept', '%s/%s' % (short(q), o[2]), '%s dumps an '
                       'attribute although %s %s' % (short(q), o[2], w),
                       ev=done[0])


class Facts:
    def __init__(self, ctx, p, n):
        self.ctx, self.p, self.n, self.f = ctx, p, n, p.facts

    def given(self, o):
        v = self.f.get(('truth', o))
        if v is None:
            v = self.f.get(('isnone', o))
            v = None if v is None else not v
        if v is None:
            for c, w in self.f.items():
                if c[0] in ('is', 'eq') and {c[1], c[2]} == {o, TRUE}:
                    return w
                if c[0] in ('is', 'eq') and {c[1], c[2]} == {o, FALSE}:
                    return not w
        return v

    def about(self):
        """Facts that mention the name."""
        for c, v in self.f.items():
            if any(contains(x, self.n) for x in c[1:]
                   if isinstance(x, tuple)):
                yield c, v

    def prefix(self, text):
        """True, False or None: whether the name starts with the text."""
        for c, v in self.about():
            x = c[1]
            if c[0] == 'truth' and x[0] == 'mcall' and x[1] == self.n and \
                    x[2] == 'startswith' and x[3]:
                a = x[3][0]
                ts = [a] if a[0] == 'c' else list(a[1]) \
                    if a[0] == 'tup' else []
                for t in ts:
                    if t[0] != 'c' or not isinstance(t[2], str):
                        continue
                    if v and len(ts) == 1 and t[2].startswith(text):
                        return True
                    if not v and text.startswith(t[2]):
                        return False
            if c[0] in ('eq', 'is'):
                for a, b in ((c[1], c[2]), (c[2], c[1])):
                    if b[0] == 'c' and isinstance(b[2], str) and \
                            head(a, self.n) and len(b[2]) == head(
                                a, self.n):
                        if v and b[2].startswith(text):
                            return True
                        if not v and b[2] == text:
                            return False
        return None

    def among(self, kind):
        """Whether the name is a property ('p') or class variable ('v')."""
        for c, v in self.about():
            if c[0] == 'in' and c[1] == self.n:
                k = listed(self.ctx, c[2])
                if k == kind:
                    return v
                if k in ('p', 'v') and v:
                    return False        # of the other kind
            if c[0] == 'isinst' and c[2] == ('ext', 'builtins.property') \
                    and contains(c[1], self.n):
                if kind == 'p':
                    return v
                if v:
                    return False
        return None

    def unknown(self):
        """The name is given to something that is not understood."""
        for c, v in self.about():
            for x in c[1:]:
                if isinstance(x, tuple) and any(
                        s[0] == 'call' and s[1][0] == 'func' and any(
                            contains(a, self.n) for a in s[2])
                        for s in subterms(x)):
                    return True
            if c[0] == 'in' and c[1] == self.n and listed(
                    self.ctx, c[2]) == '?':
                return True
        return False

    def refuted(self, o):
        """True if the option does not ask to leave the name out."""
        if self.given(o) is False:
            return True
        if o == ATTR:
            return self.unlisted()
        v = {PRIV: lambda: self.prefix('_'), PROPS: lambda: self.among('p'),
             VARS: lambda: self.among('v')}[o]()
        if v is False:
            return True
        if self.unrecognised(o):
            return '?'
        if v is None:
            return 'may ask for it'
        return 'asks for it'

    def unrecognised(self, o):
        """Facts about the option in a form that is not understood."""
        for c, v in self.f.items():
            if any(contains(x, o) for x in c[1:] if isinstance(x, tuple)) \
                    and c not in (('truth', o), ('isnone', o)):
                return True
        return o in (PROPS, VARS) and any(
            c[0] == 'in' and c[1] == self.n and listed(
                self.ctx, c[2]) == '?' for c, v in self.about())

    def is_text(self):
        """strip_attr is a text, i.e. the only name."""
        for c, v in self.f.items():
            if any(contains(x, ATTR) for x in c[1:]
                   if isinstance(x, tuple)) and any(
                    contains(x, ('ext', 'builtins.str')) for x in c[1:]
                    if isinstance(x, tuple)):
                return v
        return None

    def unlisted(self):
        for c, v in self.about():
            if v and c[0] == 'in' and c[1] == self.n and any(
                    m in (ATTR, ('*', ATTR)) for m in members(c[2])):
                return 'asks for it'
        for c, v in self.about():
            if v or c[0] not in ('in', 'eq'):
                continue
            if c[0] == 'eq':
                if ATTR in c[1:] and self.is_text():
                    return True
                continue
            if c[1] != self.n:
                continue
            got = members(c[2])
            if ATTR in got and self.is_text():
                return True             # the only name
            if ('*', ATTR) in got:
                if self.is_text() is False:
                    return True
                return 'may be a single name, which is read letter by letter'
        for c, v in self.about():
            if any(contains(x, ATTR) for x in c[1:]
                   if isinstance(x, tuple)):
                return '?'
        return 'may ask for it'

    def excluded(self):
        """None if the name is rightly left out, else the reason."""
        n = self.n
        if self.prefix('__') or self.given(PRIV) and self.prefix('_') or \
                self.given(PROPS) and self.among('p') or \
                self.given(VARS) and self.among('v'):
            return None
        last = 'without a reason'
        for c, v in self.about():
            if not v:
                continue
            x = c[1]
            if c[0] == 'in' and c[1] == n:
                if any(m in (ATTR, ('*', ATTR)) for m in members(c[2])):
                    return None
                if all(m[0] == 'c' and known_name(m[2])
                       for m in members(c[2])):
                    return None
                if any(s[0] == 'call' and s[1] == ('ext', 'builtins.dir')
                       and s[2][0][0] == 'cls' for s in subterms(c[2])):
                    return None         # what every such object has
                last = 'because it is in %s' % short_show(c[2], 60)
            if c[0] in ('eq', 'is'):
                for a, b in ((c[1], c[2]), (c[2], c[1])):
                    if a == n and (b in (ATTR, ('*', ATTR)) or b[0] == 'c'
                                   and known_name(b[2])):
                        return None
                    if a == n and b[0] == '*' and b[1] == ATTR:
                        return None
                    if a == n:
                        last = 'because it is %s' % short_show(b, 60)
            if c[0] == 'truth' and x[0] == 'call':
                if x[1] in (('ext', 'inspect.ismethod'),
                            ('ext', 'inspect.isfunction')):
                    return None
                if x[1][0] == 'func' and any(contains(a, n)
                                             for a in x[2]):
                    return None if inner(self.ctx, x[1][1]) else '?'
                last = 'because of %s' % short_show(x, 60)
            elif c[0] == 'truth' and x[0] == 'mcall':
                last = 'because of %s' % short_show(x, 60)
            if c[0] == 'isinst' and contains(c[2], (
                    'ext', 'types.FunctionType')):
                return None
        return last


def known_name(v):
    return v == 'json' or isinstance(v, str) and v.startswith('_abc_')


def head(t, n):
    """The number of leading characters of n that t is."""
    if t == ('item', n, const(0)):
        return 1
    if t[0] in ('slice', 'item') and t[1] == n:
        s = t[2] if t[0] == 'item' else t
        lo, hi = (s[1], s[2]) if t[0] == 'item' and s[0] == 'slice' else \
            (t[2], t[3]) if t[0] == 'slice' and len(t) > 3 else (None, None)
        if lo in (NONE, const(0)) and hi is not None and hi[0] == 'c' and \
                isinstance(hi[2], int):
            return hi[2]
    return 0


def members(t):
    """Items of a collection; ('*', x): all items of x."""
    if t == ATTR:
        return [('*', ATTR)]
    if t[0] == 'tup':
        return [m for x in t[1] for m in spread(x)]
    if t[0] == 'L':
        return [m for x in t[3] for m in spread(x)]
    if t[0] == 'bin' and t[1] in ('+', '|', 'or'):
        return members(t[2]) + members(t[3])
    if t[0] == 'call' and t[1][0] == 'ext' and t[2] and t[1][1] in (
            'builtins.tuple', 'builtins.list', 'builtins.set',
            'builtins.frozenset'):
        return members(t[2][0])
    if t[0] == 'mcall' and t[2] in ('union',):
        return members(t[1]) + [m for a in t[3] for m in members(a)]
    return [('?', t)]


def spread(x):
    if x[0] == '*':
        return [('*', x[1])] if x[1] == ATTR else members(x[1])
    return [x]


def inner(ctx, f):
    """The function tells whether a name is that of an inner class."""
    it = ctx.prog.__dict__.get('_c15_reach')
    if it is None:
        it = ctx.prog._c15_reach = Interp(ctx.prog, Policy())
    return 'ext:inspect.getsource' in it.reach.closed(f)


def listed(ctx, t):
    """What a collection of names holds: 'p' properties, 'v' other members
    of the class; '?' if that is not known, None if it is something else."""
    if t[0] != 'item' or t[2][0] != 'c' or t[1][0] != 'call' or \
            t[1][1][0] != 'func':
        if t[0] == 'call' and t[1][0] == 'func' or t[0] == 'attr' and \
                t[1][0] == 'call' and t[1][1][0] == 'func' or \
                t[0] == 'elem' or t[0] == 'get':
            return '?'
        return None
    memo = ctx.__dict__.setdefault('_listed', {})
    key = t[1][1][1], t[2][2]
    if key not in memo:
        memo[key] = classify(ctx, *key)
    return memo[key]


def classify(ctx, f, i):
    a = ctx.prog.functions[f].node.args
    n = len(a.posonlyargs + a.args)
    r = ctx.analyse(f, n, (), iters=1, fallback=False, ext_raise=False,
                    raise_ops=False, dedup=400, quiet=True,
                    max_states=20000)
    if r is None or not isinstance(i, int):
        return '?'
    found = set()
    for p in r[1]:
        if p.ctl != 'N' or p.val[0] != 'tup' or i >= len(p.val[1]):
            continue
        l = p.val[1][i]
        if l[0] != 'L':
            return '?'
        if not l[3]:
            continue
        ctx.count('obligations')
        vs = {v for c, v in p.facts.items() if c[0] == 'isinst' and
              c[2] == ('ext', 'builtins.property')}
        if len(vs) != 1:
            return '?'
        found |= vs
    if len(found) != 1:
        if found:
            ctx.report('class', short(f), '%s mixes properties with other '
                       'class variables' % short(f), ev=place(ctx, f))
        return '?'
    return 'p' if True in found else 'v'


# -- entries ----------------------------------------------------------------------

def result_of(t):
    """The dict that is returned, possibly through a helper of the package
    that adds to it."""
    if t[0] == 'D':
        return t
    if t[0] == 'call' and t[1][0] == 'func':
        return next((a for a in t[2] if a[0] == 'D'), None)
    return None


def is_hash(k):
    return any(s[0] == 'call' and s[1] == ('ext', 'builtins.hash') or
               s[0] == 'mcall' and s[2] == '__hash__' or s[0] == 'havoc'
               for s in subterms(k))


def key_attempt(p, e, obj):
    """The attempt dumps a key of a dict."""
    a = e.args[0]
    if a[0] == 'elem' and any(
            x.kind == 'loop' and x.callee and x.callee[0] == 'call' and
            x.callee[1] == ('ext', 'builtins.zip') and a[1] in x.callee[2]
            and any(b[0] == 'attr' and b[2] == '_fields'
                    for b in x.callee[2]) for x in p.events):
        return False                    # a field of a named tuple
    return a[0] == 'elem' and (a[1] == obj or a[1][0] == 'mcall' and
                               a[1][2] == 'keys')


def given(facts, o):
    v = facts.get(('truth', o))
    if v is None:
        v = facts.get(('isnone', o))
        v = None if v is None else not v
    return v


def entries(ctx, q, p, obj):
    d = result_of(p.val)
    if d is None:
        return 0
    if any(l[0] != 'k' for l in d[2]):
        return 0                        # see C14 and C29
    ev = p.events[-1] if p.events else place(ctx, q)
    atts = part_attempts(ctx, 'serializer', p)
    for c, v in p.facts.items():
        if c[0] == 'isinst' and c[1][0] in ('call', 'bin', 'havoc') and \
                is_hash(c[1]) and v != (c[2] == ('ext', 'builtins.int')):
            return 0                    # a hash is a number: not feasible
    got = [(l[1], l[2]) for l in d[2] if l[1] != KEYS]
    n = 0
    for e in atts:
        if not e.args or caught_of(p, e) is not None or \
                e.args[0] == obj:
            continue
        if key_attempt(p, e, obj):
            continue
        ctx.count('obligations')
        n += 1
        none = p.facts.get(('isnone', e.res))
        if none is None and any(
                c[0] == 'isinst' and c[1] == e.res and v
                for c, v in p.facts.items()):
            none = False
        strip = given(p.facts, STRIP)
        ks = [k for k, v in got if v == e.res]
        if not ks:
            if not (none and strip):
                what = 'a value that is not None' if none is False else \
                    'a null' if none else 'a value'
                ctx.report('dropped', short(q), '%s drops %s%s' % (
                    short(q), what, '' if strip else
                    ' although strip_nulls is not given'), ev=e)
            continue
        if strip is not False and none is not False:
            ctx.report('null', short(q), '%s keeps a value that may be None '
                       'although strip_nulls %s' % (
                           short(q), 'is given' if strip else
                           'may be given'), ev=e)
        for k in ks:
            key(ctx, q, p, e, k)
    return n


def transformed(p, k):
    """The argument if k is a result of the key transformer."""
    if k[0] == 'evt':
        e = next((e for e in p.events if e.res == k), None)
        if e is not None and e.callee == KT:
            return e.args[0] if e.args else NONE
    return None


def key(ctx, q, p, e, k):
    ctx.count('keys')
    a = transformed(p, k)
    if a is not None:
        if transformed(p, a) is not None:
            ctx.report('twice', short(q), '%s transforms a key twice' %
                       short(q), ev=e)
        elif is_hash(a) and a[0] in ('call', 'bin', 'mcall'):
            ctx.report('hash', short(q), '%s gives the hash of a key to the '
                       'key transformer' % short(q), ev=e)
        return
    if is_hash(k) or p.facts.get(('isinst', k, ('ext', 'builtins.int'))) or \
            p.facts.get(('isinst', k, ('ext', 'builtins.str'))) is False:
        return
    if k[0] not in ('elem', 'item', 'evt', 'mcall', 'c', 'call'):
        ctx.undecide('%s writes the key %s' % (short(q), short_show(k)))
        return
    if given(p.facts, KT) is not False:
        ctx.report('key', short(q), '%s writes a key that has not been '
                   'transformed although there %s a key transformer' % (
                       short(q), 'is' if given(p.facts, KT) else 'may be'),
                   ev=e)
