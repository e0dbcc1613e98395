"""The default serializers return JSON-typed values. Every default serializer
is executed abstractly, path by path; the term it returns is typed: constants,
results of conversions to text or numbers, the results of dumping parts, and
lists and dicts of these are JSON; the value itself, its elements, attributes
and entries as they are, tuples, sets, bytes, iterators, views, types and other
objects are not, unless the facts of the path say that the value is of a JSON
type. A key of a dict is a text, a hash, a result of the key transformer, or a
key that the path has tested, and the test may admit JSON key types only."""
from ..objects import *

SCALARS = {'builtins.' + n for n in ('str', 'int', 'float', 'bool',
                                     'NoneType')}
TEXT = {'str', 'repr', 'format', 'ascii', 'chr', 'hex', 'bin', 'oct'}
NUM = {'int', 'float', 'bool', 'len', 'hash', 'ord', 'id', 'isinstance',
       'issubclass', 'callable', 'any', 'all', 'hasattr'}
JSON_FN = {'builtins.' + n for n in TEXT | NUM} | {
    'math.floor', 'math.ceil', 'json.dumps', 'calendar.timegm'}
# What other functions make that is no JSON.
MAKES = {'builtins.tuple': 'a tuple', 'builtins.set': 'a set',
         'builtins.frozenset': 'a set', 'builtins.bytes': 'bytes',
         'builtins.bytearray': 'bytes', 'builtins.memoryview': 'bytes',
         'builtins.zip': 'an iterator', 'builtins.map': 'an iterator',
         'builtins.filter': 'an iterator', 'builtins.iter': 'an iterator',
         'builtins.reversed': 'an iterator',
         'builtins.enumerate': 'an iterator', 'builtins.range': 'a range',
         'builtins.object': 'an object', 'builtins.type': 'a type',
         'builtins.complex': 'a complex number',
         'builtins.slice': 'a slice',
         'decimal.Decimal': 'a Decimal', 'uuid.UUID': 'a UUID',
         'fractions.Fraction': 'a Fraction',
         'datetime.datetime': 'a datetime', 'datetime.date': 'a date',
         'datetime.time': 'a time', 'datetime.timedelta': 'a timedelta',
         'datetime.timezone': 'a time zone', 'zoneinfo.ZoneInfo':
         'a time zone', 'typish.get_type': 'a type',
         'typish.get_args': 'a tuple', 'copy.copy': None,
         'copy.deepcopy': None,
         'itertools.chain': 'an iterator', 'itertools.islice': 'an iterator',
         'collections.deque': 'a deque', 'collections.Counter': None,
         'types.MappingProxyType': 'a view',
         'types.SimpleNamespace': 'an object'}
MAKES.update({'datetime.datetime.' + n: 'a datetime' for n in (
    'now', 'utcnow', 'today', 'fromtimestamp', 'utcfromtimestamp',
    'strptime', 'combine', 'fromisoformat')})
MAKES.update({'pathlib.' + n: 'a path' for n in (
    'Path', 'PurePath', 'PosixPath', 'WindowsPath', 'PurePosixPath',
    'PureWindowsPath')})
# Results of methods that are text or numbers (or None) whatever the value.
JSON_METHODS = {
    'as_posix', 'as_uri', 'strftime', 'isoformat', 'ctime', 'total_seconds',
    'tzname', 'timestamp', 'toordinal', 'weekday', 'isoweekday', 'hex',
    'upper', 'lower', 'title', 'capitalize', 'strip', 'lstrip', 'rstrip',
    'replace_text', 'format', 'join', 'zfill', 'decode', 'count',
    'bit_length', 'startswith', 'endswith', 'is_integer', '__str__',
    '__repr__', '__format__', '__hash__', '__len__', '__int__', '__float__',
    '__bool__', '__fspath__', 'to_eng_string', 'casefold', 'swapcase',
    'removeprefix', 'removesuffix', 'ljust', 'rjust', 'center', 'adjusted'}
BAD_METHODS = {
    'as_tuple': 'a tuple', 'timetuple': 'a tuple', 'utctimetuple': 'a tuple',
    'isocalendar': 'a tuple', 'as_integer_ratio': 'a tuple',
    'utcoffset': 'a timedelta', 'dst': 'a timedelta', 'date': 'a date',
    'time': 'a time', 'timetz': 'a time', 'astimezone': 'a datetime',
    'conjugate': 'a complex number', 'resolve': 'a path',
    'absolute': 'a path', 'expanduser': 'a path', 'with_suffix': 'a path',
    'with_name': 'a path', 'relative_to': 'a path', 'joinpath': 'a path',
    'normalize': 'a Decimal', 'quantize': 'a Decimal',
    'to_integral_value': 'a Decimal', 'to_bytes': 'bytes',
    'encode': 'bytes', '__iter__': 'an iterator', '__reduce__': 'a tuple',
    'stat': 'an object', '_asdict': None, 'intersection': 'a set',
    'union': 'a set', 'difference': 'a set'}
JSON_ATTRS = {'real', 'imag', 'key', 'name', 'value', 'year', 'month', 'day',
              'hour', 'minute', 'second', 'microsecond', 'fold', 'days',
              'seconds', 'microseconds', '_name_', '_value_', 'hex', 'urn',
              'int', 'stem', 'suffix', 'drive', 'root', 'anchor', 'n',
              '__name__', '__qualname__', '__module__', '__doc__', 'version',
              'variant', 'time_low', 'node'}
BAD_ATTRS = {'tzinfo': 'a time zone', '__class__': 'a type',
             'bytes': 'bytes', 'bytes_le': 'bytes', 'fields': 'a tuple',
             'parts': 'a tuple', 'parent': 'a path', 'parents': 'an object',
             'suffixes': None, '_fields': 'a tuple', '__dict__': None,
             'min': 'an object', 'max': 'an object',
             'resolution': 'a timedelta'}
VIEWS = ('items', 'keys', 'values')


def check(ctx):
    ctx.rule('what a default serializer returns is a text, number, boolean, '
             'None, or a list or dict of results of dumps')
    ctx.rule('keys of dicts that are returned are JSON keys')
    n = 0
    for q in ctx.lizers('serializer'):
        n += 1
        serializer(ctx, q)
    ctx.require(n > 8, 'no default serializers found')
    for h in sorted(task_helpers(ctx)):
        task_result(ctx, h)


def classes_of(ctx, q):
    return {c[1] for k, fn, classes, prio, e in ctx.registry()
            if k == 'serializer' and fn[1] == q for c in classes
            if c[0] == 'ext'}


def serializer(ctx, q):
    force = set()
    n = 2
    if q == ctx.lizer_for('serializer', 'builtins.object') and \
            ctx.tier != 'thorough':
        n = 1
    for _ in range(4):
        r = parts_run(ctx, q, 'serializer', n, force=tuple(sorted(force)))
        if r is None:
            return
        more = {s[1][1] for p in r[1] if p.ctl == 'N'
                for s in subterms(p.val)
                if s[0] == 'call' and s[1][0] == 'func' and
                s[1][1] in ctx.prog.functions and top(p.val, s)} - force
        more = {f for f in more if expandable(ctx, f)}
        if not more:
            break
        force |= more
    names = classes_of(ctx, q)
    prim = bool(names & SCALARS)
    enum = any(n.startswith('enum.') for n in names)
    obj = ('sym', first_params(ctx, q, 1)[0])
    seen = set()
    for p in r[1]:
        if p.ctl != 'N':
            continue
        ctx.count('paths')
        t = Typer(ctx, q, p, obj, prim, enum)
        why = t.why(p.val)
        ctx.count('obligations')
        if why == '?':
            if p.val not in seen:
                seen.add(p.val)
                ctx.undecide('%s returns %s' % (short(q),
                                                short_show(p.val)))
        elif why:
            ev = next((e for e in reversed(p.events)
                       if e.func == q), None) or place(ctx, q)
            ctx.report('type', '%s/%s' % (short(q), why), '%s may return %s' %
                       (short(q), why), ev=ev)
        for e in p.events:
            if e.kind == 'mut' and e.extra == 'item=' and e.args and any(
                    s == e.callee[1] for s in subterms(p.val)):
                w = t.why(e.args[0])
                if w and w != '?':
                    ctx.report('item', '%s/%s' % (short(e.func), w),
                               '%s puts %s into the result' % (
                                   short(e.func), w), ev=e)
    fill_ins(ctx, q)


def top(t, s):
    """s is t or an item or value of the collections that t is made of."""
    if t == s:
        return True
    if t[0] == 'L':
        return any(top(x, s) for x in t[3])
    if t[0] == 'tup':
        return any(top(x, s) for x in t[1])
    if t[0] == 'D':
        return any(top(l[2] if l[0] == 'k' else l[1], s) for l in t[2])
    if t[0] == 'bin' and t[1] in ('or', 'and'):
        return top(t[2], s) or top(t[3], s)
    return False


def expandable(ctx, f):
    fn = ctx.prog.functions.get(f)
    return fn is not None and f not in ctx.lizers('serializer') and \
        f not in task_helpers(ctx)


def fill_ins(ctx, q):
    """What the helpers of the serializer put into results directly."""
    it = Interp(ctx.prog, Policy())
    mod = ctx.prog.functions[q].module.name
    B = part_boundary(ctx) | task_helpers(ctx)
    done = ctx.__dict__.setdefault('_filled', set())
    for f in sorted(it.reach.closed(q)):
        fn = ctx.prog.functions.get(f)
        if fn is None or fn.module.name != mod or f == q or f in done:
            continue
        done.add(f)
        a = fn.node.args
        r = ctx.analyse(f, len(a.posonlyargs + a.args), B, B | {'UCALL'},
                        iters=1, fallback=False, ext_raise=False,
                        raise_ops=False, dedup=400, max_states=20000,
                        quiet=True)
        if r is None:
            continue
        for p in r[1]:
            for e in p.events:
                if e.kind != 'mut' or e.extra != 'item=' or not e.args or \
                        not e.callee or root(e.callee)[0] != 'sym':
                    continue
                ctx.count('obligations')
                w = Typer(ctx, f, p, ('sym', ''), False,
                          False).why(e.args[0])
                if w and w != '?':
                    ctx.report('item', '%s/%s' % (short(f), w),
                               '%s puts %s into the result' % (short(f), w),
                               ev=e)


def task_result(ctx, h):
    """Lists that tasks fill are given out as plain lists."""
    f = ctx.prog.functions[h]
    starts = [q for q in ctx.prog.functions
              if h in calls_of(ctx, q) and q in task_helpers(ctx)]
    if starts:
        return                          # a part of another helper
    a = f.node.args
    r = ctx.analyse(h, len(a.posonlyargs + a.args), task_helpers(ctx) - {h},
                    iters=1, fallback=False, ext_raise=False,
                    raise_ops=False, quiet=True)
    if r is None:
        return
    for p in r[1]:
        if p.ctl != 'N' or p.val == NONE:
            continue
        ctx.count('obligations')
        v = p.val
        if v[0] == 'L' and v[1] == 'list' or v[0] == 'call' and \
                v[1] == ('ext', 'builtins.list'):
            continue
        if v[0] == 'evt' or v[0] == 'call':
            # Given out as it was made, which may be by a manager.
            made = v[2] if v[0] == 'evt' else v[1]
            if made[0] == 'func' and proxied(ctx, made[1]):
                ctx.report('proxy', short(h), '%s may return the proxy that '
                           'its tasks have filled' % short(h),
                           ev=place(ctx, h))
            continue
        if v[0] in ('tup',):
            ctx.report('proxy', short(h), '%s returns a tuple' % short(h),
                       ev=place(ctx, h))


def calls_of(ctx, q):
    it = ctx.prog.__dict__.get('_c14_reach')
    if it is None:
        it = ctx.prog._c14_reach = Interp(ctx.prog, Policy())
    return it.reach.closed(q) - {q}


def proxied(ctx, q):
    for n in ast.walk(ctx.prog.functions[q].node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == 'list':
            return True
    return False


class Typer:
    def __init__(self, ctx, q, p, obj, prim, enum):
        self.ctx, self.q, self.p, self.obj = ctx, q, p, obj
        self.prim, self.enum = prim, enum
        self.facts = p.facts

    # -- facts ---------------------------------------------------------------

    def json_fact(self, t):
        """The path knows that t is of a JSON type (no container)."""
        for c, v in self.facts.items():
            if not v:
                continue
            if c[0] == 'isnone' and c[1] == t:
                return True
            if c[0] == 'isinst' and c[1] == t and scalar_types(c[2]):
                return True
            if c[0] == 'truth' and c[1][0] == 'call' and \
                    c[1][1] in (('ext', 'builtins.isinstance'),
                                ('ext', 'builtins.issubclass')) and \
                    len(c[1][2]) == 2 and \
                    self.itself_or_type(c[1][2][0], t) and \
                    scalar_types(c[1][2][1]):
                return True
            if c[0] in ('eq', 'is', 'in') and self.type_of(c[1], t) and \
                    scalar_types(c[2]):
                return True
            if c[0] in ('eq', 'is') and self.type_of(c[2], t) and \
                    scalar_types(c[1]):
                return True
            if c[0] in ('eq', 'is') and (
                    c[1] == t and c[2][0] == 'c' or
                    c[2] == t and c[1][0] == 'c'):
                return True
            if c[0] == 'truth' and c[1][0] == 'call' and \
                    c[1][1][0] == 'func' and \
                    (t in c[1][2] or any(self.type_of(x, t)
                                         for x in c[1][2])):
                w = self.predicate(c[1][1][1], c[1][2].index(t)
                                   if t in c[1][2] else None)
                if w is not None:
                    return w
        return False

    def type_of(self, x, t):
        return x[0] == 'call' and x[1] == ('ext', 'builtins.type') and \
            x[2] == (t,) or x == ('attr', t, '__class__')

    def itself_or_type(self, x, t):
        return x == t or self.type_of(x, t)

    def predicate(self, f, i):
        """True if the function only says yes to values of JSON types; None
        if that is not known."""
        memo = self.ctx.__dict__.setdefault('_c14_pred', {})
        if (f, i) in memo:
            return memo[f, i]
        memo[f, i] = None
        fn = self.ctx.prog.functions.get(f)
        if fn is None or i is None:
            return None
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        r = self.ctx.analyse(f, len(names), (), iters=1, fallback=False,
                             ext_raise=False, raise_ops=False, dedup=400,
                             inline_all=True, quiet=True)
        if r is None or i >= len(names):
            return None
        t = ('sym', names[i])
        res = True
        for p in r[1]:
            if p.ctl != 'N':
                continue
            if p.val[0] == 'c':
                if not p.val[2]:
                    continue
                facts = p.facts
            else:
                facts = dict(p.facts.items())
                facts[('truth', p.val)] = True
                if p.val[0] in ('isinst', 'in', 'eq', 'is'):
                    facts[p.val] = True
                if p.val[0] == 'cmp' and p.val[1] in ('in', 'is', '=='):
                    facts[('in', p.val[2], p.val[3])] = True
            sub = Typer(self.ctx, f, p, t, False, False)
            sub.facts = facts
            if not sub.json_fact(t):
                res = False if sub.typed(t) else None
                break
        memo[f, i] = res
        return res

    def typed(self, t):
        return any(v and (c[0] == 'isinst' and c[1] == t or
                          c[0] == 'truth' and c[1][0] == 'call' and
                          c[1][1][1:] in (('builtins.isinstance',),
                                          ('builtins.issubclass',)) or
                          c[0] in ('in', 'eq', 'is') and (
                              self.type_of(c[1], t) or
                              self.type_of(c[2], t)))
                   for c, v in self.facts.items())

    # -- types of terms -------------------------------------------------------

    def why(self, t):
        """None if t is JSON, '?' if that is not known, else what it is."""
        k = t[0]
        if k == 'c':
            return None if isinstance(t[2], (str, int, float, bool,
                                             type(None))) and \
                t != ELLIPSIS else 'a constant %s' % t[1]
        if k in ('fmt', 'spec', 'cmp', 'isinst', 'isnone', 'not'):
            return None
        if self.json_fact(t):
            return None
        if k == 'L':
            if t[1] != 'list':
                return 'a %s' % t[1]
            return self.first(self.item(x)
                              for x in t[3])
        if k == 'tup':
            return 'a tuple'
        if k == 'D':
            return self.first(self.layer(l) for l in t[2])
        if t == self.obj:
            return None if self.prim else 'the value itself'
        if k == 'evt':
            return self.event(t)
        if k == 'call':
            return self.call(t)
        if k == 'mcall':
            return self.mcall(t)
        if k == 'attr':
            return self.attr(t)
        if k in ('elem', 'item', 'lookup'):
            if t[1] == self.obj:
                return 'an element of the value as it is'
            if t[1][0] == 'mcall' and t[1][1] == self.obj and \
                    t[1][2] in VIEWS or t[1][0] == 'elem' and \
                    t[1][1][0] == 'mcall' and t[1][1][1] == self.obj:
                return 'an element of the value as it is'
            if t[1][0] in ('evt', 'call', 'mcall') and \
                    self.why(t[1]) is None:
                return None             # a part of JSON
            return '?'
        if k == 'get':
            if t[1] == self.obj:
                return 'an element of the value as it is'
            return '?'
        if k == 'bin':
            a, b = self.why(t[2]), self.why(t[3])
            if t[1] in ('or', 'and'):
                return self.first((a, b))
            return None if a is None and b is None else '?'
        if k == 'un':
            return None if t[1] in ('not', 'Not') else self.why(t[2])
        if k in ('copy',) and t[1] == self.obj:
            return 'a copy of the value'
        if k == 'view':
            return 'a view'
        if k in ('cls', 'func', 'mod', 'clo', 'bm'):
            return 'a type' if k == 'cls' else 'a function'
        if k == 'ext':
            return 'a type' if t[1] in SCALARS or t[1] in MAKES else '?'
        if k in ('new', 'O'):
            return 'an object'
        return '?'

    def first(self, whys):
        res = None
        for w in whys:
            if w and w != '?':
                return w
            res = res or w
        return res

    def item(self, x):
        if x[0] == '*':
            if x[1] == self.obj:
                return 'elements of the value as they are'
            if x[1][0] in ('evt', 'call') and self.why(x[1]) is None:
                return None
            return '?'
        return self.why(x)

    def layer(self, l):
        if l[0] == 'k':
            return self.first((self.key(l[1]), self.why(l[2])))
        if l[1] == self.obj:
            return 'entries of the value as they are'
        if l[1][0] == 'attr' and l[1][1] == self.obj and \
                l[1][2] == '__dict__' or l[1][0] == 'call' and \
                l[1][1] == ('ext', 'builtins.vars'):
            return 'attributes of the value as they are'
        if l[1][0] == 'D':
            return self.why(l[1])
        if l[1][0] == 'havoc':          # what a helper was given to complete
            return self.first(self.why(a) for a in parts_of(l[1]))
        return '?'

    def key(self, k):
        w = self.why_key(k)
        return w if w in (None, '?') else 'a dict with %s as a key' % w

    def why_key(self, k):
        if k[0] == 'c':
            return self.why(k)
        if k[0] in ('fmt', 'spec'):
            return None
        if self.json_fact(k):
            return None
        if names(k):
            return None
        if self.refuted(k):
            return 'what is no JSON key'
        if k[0] == 'evt':
            e = self.made(k)
            if e is None:
                return '?'
            if contains(e.callee, ('c', 'str', 'key_transformer')) or \
                    e.callee[0] == 'opt' and e.callee[2] == \
                    'key_transformer':
                return None
            if e in part_attempts(self.ctx, 'serializer', self.p):
                return 'a dumped key that was not tested'
            return '?'
        if k[0] in ('elem', 'idx', 'item') and k[1] == self.obj or \
                k[0] in ('elem', 'item') and contains(k[1], self.obj) and \
                any(s[0] == 'mcall' and s[1] == self.obj and s[2] in VIEWS
                    for s in subterms(k)):
            return 'a key of the value that was not tested'
        if k[0] == 'tup':
            return 'a tuple'
        w = self.why(k)
        if w is None:
            return None
        if k[0] in ('cls',) or w == 'a type':
            return 'a type'
        return '?'

    def refuted(self, k):
        """The path only knows that a test of the key failed."""
        for c, v in self.facts.items():
            if not v and c[0] == 'truth' and c[1][0] == 'call' and \
                    c[1][1][0] == 'func' and k in c[1][2] and \
                    self.predicate(c[1][1][1], c[1][2].index(k)) and \
                    k[0] in ('elem', 'evt'):
                return True
        return False

    def made(self, t):
        return next((e for e in self.p.events if e.res == t), None)

    def event(self, t):
        e = self.made(t)
        if e is None:
            return '?'
        if e in part_attempts(self.ctx, 'serializer', self.p):
            return None
        if self.ctx.is_call(e, task_helpers(self.ctx)):
            return None
        if self.prim and e.kind == 'ucall' and contains(
                e.callee, entry_opt('cls')):
            return None                 # cast into the type asked for
        if e.kind == 'ucall' and e.callee == ('attr', self.obj, '__class__'):
            return 'an object like the value'
        return '?'

    def call(self, t):
        f = t[1]
        if f[0] == 'ext':
            n = f[1]
            if n in JSON_FN:
                return None
            if n in ('builtins.list', 'builtins.sorted', 'builtins.dict'):
                if not t[2] and not t[3]:
                    return None
                x = t[2][0] if t[2] else None
                if x is None:
                    return '?'
                if x == self.obj or x[0] == 'mcall' and x[1] == self.obj:
                    return 'elements of the value as they are'
                if x[0] == 'evt':
                    return self.why(x)
                if x[0] == 'L':
                    return self.first(self.item(y) for y in x[3])
                return '?'
            if n in ('builtins.round', 'builtins.abs', 'builtins.pow',
                     'builtins.max', 'builtins.min', 'builtins.sum'):
                return None if all(self.why(a) is None
                                   for a in t[2]) else '?'
            if n == 'builtins.getattr':
                if t[2] and t[2][0] == self.obj:
                    if len(t[2]) > 1 and t[2][1][0] == 'c':
                        return self.attr(('attr', self.obj, t[2][1][2]))
                    return 'an attribute of the value as it is'
                return '?'
            if n == 'builtins.vars':
                return 'attributes of the value as they are'
            if n in ('copy.copy', 'copy.deepcopy'):
                return 'a copy of the value' if t[2] == (self.obj,) and \
                    not self.prim else '?'
            if n in MAKES:
                return MAKES[n] or '?'
            return '?'
        if f[0] == 'func':
            return self.of_function(f[1])
        if f == ('attr', self.obj, '__class__') or f[0] == 'call' and \
                f[1] == ('ext', 'builtins.type'):
            return 'an object like the value'
        if self.prim and t[2] == (self.obj,):
            return None                 # cast into the type asked for
        return '?'

    def of_function(self, f):
        """What a function of the package returns whatever it is given."""
        memo = self.ctx.__dict__.setdefault('_c14_fn', {})
        if f in memo:
            return memo[f]
        memo[f] = '?'
        fn = self.ctx.prog.functions.get(f)
        if fn is None:
            return '?'
        a = fn.node.args
        n = len(a.posonlyargs + a.args)
        r = self.ctx.analyse(f, n, part_boundary(self.ctx), iters=1,
                             fallback=False, ext_raise=False,
                             raise_ops=False, dedup=400, inline_all=True,
                             max_states=20000, quiet=True)
        if r is None:
            return '?'
        none = ('sym', '')
        w = self.first(Typer(self.ctx, f, p, none, False, False).why(p.val)
                       for p in r[1] if p.ctl == 'N')
        memo[f] = w
        return w

    def mcall(self, t):
        m = t[2]
        if m in JSON_METHODS:
            return None
        if t[1] == self.obj:
            if m in VIEWS:
                return 'a view of the value'
            if m == 'copy':
                return 'a copy of the value'
            if m == 'replace' and not self.prim:
                return 'an object like the value' if t[4] else '?'
            if m in ('split', 'rsplit'):
                return '?'
        if m in BAD_METHODS:
            return BAD_METHODS[m] or '?'
        if self.prim and t[3] == (self.obj,) and \
                contains(t[1], entry_opt('cls')):
            return None                 # cast into the type asked for
        if m == 'replace' and len(t[3]) > 1:
            return self.why(t[1])
        if m == 'replace' and self.why(t[1]) not in (None, '?'):
            return self.why(t[1])
        return '?'

    def attr(self, t):
        if t[1] != self.obj and root(t[1]) != self.obj:
            return None if t[2] in ('__name__', '__qualname__',
                                    '__module__') else '?'
        if t[2] in JSON_ATTRS:
            if t[2] == 'value' and not self.enum:
                return '?'
            return None
        if t[2] in BAD_ATTRS:
            return BAD_ATTRS[t[2]] or '?'
        return '?'


def parts_of(h):
    for x in h[1:]:
        if isinstance(x, tuple) and x and x[0] in ('call', 'mcall', 'evt'):
            for a in x[2] if x[0] == 'call' else ():
                if a[0] == 'D' and a[2]:
                    yield a


def names(k):
    """k is the name of an attribute or field."""
    if k[0] == 'mcall' and k[2] in JSON_METHODS:
        return True
    if k[0] == 'elem':
        c = k[1]
        if c[0] == 'attr' and c[2] in ('_fields', '__slots__'):
            return True
        if c[0] == 'mcall' and c[2] in ('items', 'keys'):
            c = c[1]
        if c[0] == 'call' and c[1] in (('ext', 'builtins.dir'),
                                       ('ext', 'builtins.vars')):
            return True
        return c[0] == 'call' and c[1][0] == 'func' or c[0] == 'attr' and \
            c[2] == '__dict__'
    if k[0] in ('item', 'elem'):
        return names(k[1])
    return False


def scalar_types(t):
    """t is a JSON scalar type or a tuple or list of them."""
    if t[0] == 'ext':
        return t[1] in SCALARS
    xs = t[1] if t[0] == 'tup' else t[3] if t[0] == 'L' else None
    return bool(xs) and all(scalar_types(x) for x in xs)
