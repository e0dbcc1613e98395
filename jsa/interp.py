"""Path-sensitive value-flow analysis of the package.

An abstract interpreter over the syntax tree.  Abstract values are the terms
of jsa/terms.py (access paths from the entry parameters, never concrete
inputs), branch conditions are kept as syntactic facts so that correlated
branches stay correlated, loops over unknown collections are summarised by
zero, one and two generic iterations, in-package helpers are expanded at their
call sites, and everything a rule cares about is recorded as an event of the
path.  Nothing of the package is imported or executed and no solver is used.
"""
import ast
import builtins
import math
from .model import AnalysisBroken, FuncInfo, ClassInfo, ext_object, \
    ext_subclass
from .terms import *

N, R, X, B, C = 'N', 'R', 'X', 'B', 'C'


class Budget(Exception):
    """Too many paths: the rule reports the entry as undecided."""


class Ev:
    __slots__ = ('n', 'kind', 'func', 'line', 'callee', 'args', 'kw', 'res',
                 'facts', 'tries', 'loops', 'tasks', 'extra', 'stack')

    def __repr__(self):
        return '<%s %s@%s:%s %s %s -> %s>' % (
            self.kind, show(self.callee) if self.callee else self.extra,
            self.func, self.line, [show(a) for a in self.args],
            [show(('D', 0, self.kw))], show(self.res) if self.res else None)


class State:
    __slots__ = ('env', 'heap', 'facts', 'events', 'tries', 'loops', 'tasks',
                 'store', 'notes', 'stack')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.events = ()
        self.tries = ()
        self.loops = ()
        self.tasks = ()
        self.store = {}
        self.notes = ()
        self.stack = ()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.events = self.events
        s.tries = self.tries
        s.loops = self.loops
        s.tasks = self.tasks
        s.store = dict(self.store)
        s.notes = self.notes
        s.stack = self.stack
        return s


class Frame:
    __slots__ = ('fid', 'func', 'module', 'parent', 'locals', 'line', 'qual',
                 'gens')

    def __init__(self, fid, func, module, parent, locals_, qual):
        self.fid = fid
        self.func = func
        self.module = module
        self.parent = parent
        self.locals = locals_
        self.qual = qual
        self.line = 0
        self.gens = None


class Closure:
    def __init__(self, node, frame, qual, module):
        self.node = node
        self.frame = frame
        self.qual = qual
        self.module = module


class Path:
    """One abstract path: facts, events, outcome."""
    def __init__(self, st, ctl, val):
        self.st = st
        self.facts = st.facts
        self.events = st.events
        self.ctl = ctl
        self.val = val


def local_names(node):
    """Names bound in a function body (excluding nested scopes)."""
    out = set()
    glob = set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(p.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for b in body:
        visit(b)
    return out - glob


DICT_MUT = {'update', 'pop', 'popitem', 'setdefault', 'clear', '__setitem__',
            '__delitem__'}
LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', '__setitem__', '__delitem__', 'appendleft',
            'extendleft', 'popleft'}
SET_MUT = {'add', 'discard', 'remove', 'update', 'pop', 'clear',
           'difference_update', 'intersection_update',
           'symmetric_difference_update'}
MUTATORS = DICT_MUT | LIST_MUT | SET_MUT

COPIERS = {'builtins.list', 'builtins.tuple', 'builtins.set',
           'builtins.dict', 'builtins.frozenset', 'builtins.iter',
           'copy.copy', 'copy.deepcopy', 'collections.deque',
           'collections.OrderedDict'}

QUIET = {'builtins.' + n for n in (
    'isinstance', 'issubclass', 'type', 'len', 'hasattr', 'getattr', 'dict',
    'list', 'tuple', 'set', 'frozenset', 'bool', 'enumerate', 'zip', 'range',
    'reversed', 'iter', 'repr', 'callable', 'id', 'any', 'all', 'map',
    'filter', 'staticmethod', 'classmethod', 'property', 'super', 'vars',
    'dir', 'object')} | {'functools.partial', 'copy.copy', 'copy.deepcopy',
                         'typing.cast'}
NORAISE = QUIET - {'builtins.issubclass', 'builtins.getattr', 'builtins.dict',
                   'builtins.list', 'builtins.tuple', 'builtins.set',
                   'builtins.len', 'builtins.vars'} | {
    'typish.get_args', 'typish.get_type', 'typish.get_origin',
    'typish.get_mro', 'inspect.ismethod', 'inspect.isfunction',
    'inspect.isawaitable', 'inspect.iscoroutinefunction', 'warnings.warn'}

STR_FOLD = {'lower', 'upper', 'title', 'strip', 'lstrip', 'rstrip', 'replace',
            'split', 'startswith', 'endswith', 'join', 'capitalize',
            'removeprefix', 'removesuffix', 'partition', 'rpartition',
            'rsplit', 'isupper', 'islower', 'find', 'index', 'count'}


class Policy:
    """What a rule observes.

    boundary(qual)   -> calls to this package function are events
    inline(qual, reach) -> expand the function at its call site
    """
    def __init__(self, boundary=(), interest=None, inline_all=False,
                 opaque=(), raise_ops=True, iters=2, max_states=20000,
                 never_raise=(), depth=14, ext_raise=True, bag=False,
                 force=(), dedup=8, fold=False, exc_objects=False, once=(),
                 simple=True, exc_parts=False,
                 raise_only=(), frail=()):
        self.dedup = dedup
        # frail: what is read of these values may raise outside a try, too
        self.frail = set(frail)
        # raise_only: the only operations that raise without raise_ops
        self.raise_only = set(raise_only)
        # exc_parts: reading what a caught error need not have raises
        self.exc_parts = exc_parts
        # once: collections made of these terms are iterated once only
        self.once = tuple(once)
        # simple: functions that only name an expression are expanded
        self.simple = simple
        # exc_objects: errors are objects made by running their constructors
        self.exc_objects = exc_objects
        # fold: arithmetic and sequence functions of constants are computed
        self.fold = fold
        self.boundary = set(boundary)
        self.interest = set(interest or ())
        self.inline_all = inline_all
        self.opaque = set(opaque)
        self.raise_ops = raise_ops
        self.iters = iters
        self.max_states = max_states
        self.never_raise = set(never_raise)
        self.depth = depth
        self.ext_raise = ext_raise
        # bag: events are collected globally (no order between them) and
        # states that agree on everything but facts merge at joins
        self.bag = bag
        self.force = set(force)


def fresh_locals(node, params):
    """Local names only ever bound to objects created in this function (or
    immutable literals): mutating them is no effect on anyone else."""
    binds = {}

    def add(name, v):
        binds.setdefault(name, []).append(v)
    for n in ast.walk(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and \
                            isinstance(x.ctx, ast.Store):
                        add(x.id, n.value if t is x else None)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            add(n.target.id, n.value)
        elif isinstance(n, ast.NamedExpr):
            add(n.target.id, n.value)
        elif isinstance(n, (ast.For, ast.comprehension, ast.AsyncFor)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    add(x.id, None)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            for x in ast.walk(n.optional_vars):
                if isinstance(x, ast.Name):
                    add(x.id, None)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                add(x, None)
    fresh = set(b for b in binds if b not in params)
    ctors = {'list', 'dict', 'set', 'deque', 'OrderedDict', 'defaultdict',
             'sorted', 'str', 'int', 'len', 'float', 'tuple', 'frozenset'}

    def ok(v):
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.SetComp, ast.DictComp, ast.Constant,
                          ast.JoinedStr, ast.Tuple, ast.Compare)):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id in ctors:
            return True
        if isinstance(v, ast.IfExp):
            return ok(v.body) and ok(v.orelse)
        if isinstance(v, ast.BinOp):
            return ok(v.left) or ok(v.right)
        if isinstance(v, ast.Name):
            return v.id in fresh
        return False
    while True:
        bad = {x for x in fresh if not all(
            v is not None and ok(v) for v in binds[x])}
        if not bad:
            return fresh
        fresh -= bad


class Reach:
    """Syntactic facts per function, closed over the call graph: which package
    functions, external names and marker behaviours it can reach."""

    def __init__(self, prog):
        self.prog = prog
        self.direct = {}
        self._mut = None
        for q, f in prog.functions.items():
            self.direct[q] = self._direct(f)
        self._closed = {}

    def _direct(self, f):
        out = set()
        params = set()
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            params.add(p.arg)
        loc = local_names(f.node)
        fresh = fresh_locals(f.node, params)
        imported = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for al in n.names:
                    if al.name.split('.')[0] != self.prog.package:
                        imported[al.asname or al.name.split('.')[0]] = \
                            al.name if al.asname else al.name.split('.')[0]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and \
                    isinstance(n.value, ast.Name) and n.value.id in imported:
                out.add('ext:%s.%s' % (imported[n.value.id], n.attr))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in loc:
                    continue
                r = self.prog.resolve_name(f.module.name, n.id)
                if r and r[0] == 'func':
                    out.add(r[1].qual)
                elif r and r[0] == 'class':
                    out.add('cls:' + r[1].qual)
                elif r and r[0] == 'ext':
                    out.add('ext:' + r[1])
            elif isinstance(n, ast.Attribute):
                out.add('attr:' + n.attr)
                if isinstance(n.value, ast.Name):
                    r = self.prog.resolve_name(f.module.name, n.value.id) \
                        if n.value.id not in loc else None
                    if r and r[0] == 'mod':
                        r2 = self.prog.resolve_global(r[1], n.attr)
                        if r2 and r2[0] == 'func':
                            out.add(r2[1].qual)
                    elif r and r[0] == 'class':
                        m = r[1].members.get(n.attr)
                        if isinstance(m, FuncInfo):
                            out.add(m.qual)
                    elif r and r[0] == 'ext':
                        out.add('ext:' + r[1] + '.' + n.attr)
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add('MUT')
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                if not (isinstance(n.value, ast.Name) and
                        n.value.id in fresh):
                    out.add('MUT')
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and \
                        n.func.attr in MUTATORS and not (
                            isinstance(n.func.value, ast.Name) and
                            n.func.value.id in fresh):
                    out.add('MUT')
                fn = n.func
                if isinstance(fn, ast.Name) and fn.id in (
                        'setattr', 'delattr') and fn.id not in loc:
                    out.add('MUT')
                if isinstance(fn, ast.Name) and fn.id in loc:
                    out.add('UCALL')
                elif not isinstance(fn, (ast.Name, ast.Attribute)):
                    out.add('UCALL')
                for arg in n.args:
                    if isinstance(arg, ast.Starred):
                        pass
            elif isinstance(n, ast.Raise):
                out.add('RAISE')
            elif isinstance(n, ast.AugAssign):
                if not (isinstance(n.target, ast.Name) and
                        n.target.id in fresh):
                    out.add('MUT')
            elif isinstance(n, ast.ImportFrom):
                for al in n.names:
                    mod = n.module or ''
                    r = self.prog.resolve_global(mod, al.name) \
                        if mod in self.prog.modules else None
                    if r and r[0] == 'func':
                        out.add(r[1].qual)
                    elif mod not in self.prog.modules:
                        out.add('ext:%s.%s' % (mod, al.name))
        return out

    def mut_params(self, q):
        """Parameters of q whose object q (or a function it hands them to)
        may mutate."""
        if self._mut is None:
            self._mut = {x: set() for x in self.direct}
            changed = True
            while changed:
                changed = False
                for x in self._mut:
                    new = self._mut_pass(x)
                    if new - self._mut[x]:
                        self._mut[x] |= new
                        changed = True
        return self._mut.get(q, set())

    def _mut_pass(self, q):
        f = self.prog.functions[q]
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        alias = {p: p for p in params}

        def rootname(e):
            while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
        nodes = list(ast.walk(f.node))
        for _ in range(3):
            for n in nodes:
                if isinstance(n, (ast.For, ast.comprehension)):
                    r = rootname(n.iter)
                    if r in alias:
                        for x in ast.walk(n.target):
                            if isinstance(x, ast.Name):
                                alias.setdefault(x.id, alias[r])
                if isinstance(n, (ast.Assign, ast.NamedExpr, ast.AnnAssign)):
                    v = n.value
                    vs = [v.body, v.orelse] if isinstance(v, ast.IfExp) else (
                        v.values if isinstance(v, ast.BoolOp) else [v])
                    for v in vs:
                        r = rootname(v)
                        if r in alias:
                            ts = n.targets if isinstance(n, ast.Assign) \
                                else [n.target]
                            for t in ts:
                                if isinstance(t, ast.Name):
                                    alias.setdefault(t.id, alias[r])
        out = set()
        for n in nodes:
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                r = rootname(n)
                if r in alias:
                    out.add(alias[r])
            elif isinstance(n, ast.AugAssign):
                r = rootname(n.target)
                if r in alias:
                    out.add(alias[r])
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and \
                        n.func.attr in MUTATORS:
                    r = rootname(n.func.value)
                    if r in alias:
                        out.add(alias[r])
                callee = None
                if isinstance(n.func, ast.Name):
                    rr = self.prog.resolve_name(f.module.name, n.func.id)
                    if rr and rr[0] == 'func':
                        callee = rr[1]
                    for z, g in self.prog.functions.items():
                        if g.parent is f and g.name == n.func.id:
                            callee = g
                if callee is not None:
                    ca = callee.node.args
                    pos = [p.arg for p in ca.posonlyargs + ca.args]
                    m = self._mut.get(callee.qual, ())
                    for i, arg in enumerate(n.args):
                        r = rootname(arg)
                        if r in alias and i < len(pos) and pos[i] in m:
                            out.add(alias[r])
                    for k in n.keywords:
                        r = rootname(k.value)
                        if k.arg and r in alias and k.arg in m:
                            out.add(alias[r])
        return out

    def _private(self, name):
        """The only method of the package with that private name."""
        if name.startswith('__'):
            return None
        ms = [m.qual for c in self.prog.classes.values()
              for n, m in c.members.items()
              if n == name and isinstance(m, FuncInfo)]
        return ms[0] if len(ms) == 1 else None

    def closed(self, q):
        if q in self._closed:
            return self._closed[q]
        seen = set()
        out = set()
        work = [q]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            d = self.direct.get(x, ())
            for y in d:
                out.add(y)
                if y in self.direct and y not in seen:
                    work.append(y)
                elif y.startswith('attr:_'):
                    m = self._private(y[5:])
                    if m is not None:
                        out.add(m)
                        if m not in seen:
                            work.append(m)
            # nested functions
            pre = x + '.<locals>.'
            for z in self.direct:
                if z.startswith(pre) and z not in seen:
                    work.append(z)
        self._closed[q] = out
        return out


FOLDED = {'min': min, 'max': max, 'int': int, 'abs': abs, 'round': round,
          'float': float, 'divmod': divmod, 'sum': sum,
          'math.ceil': math.ceil, 'math.floor': math.floor}


def spec_term(v, conv, spec):
    text = ('!' + conv if conv else '') + (spec or '')
    if v[0] == 'c' and not conv:
        try:
            return const(format(v[2], spec or ''))
        except (ValueError, TypeError):
            pass
    return ('spec', v, text)


def spec_of(v, conversion, spec):
    if spec is None:
        text = ''
    elif all(isinstance(x, ast.Constant) for x in spec.values):
        text = ''.join(x.value for x in spec.values)
    else:
        return ('spec', v, ast.dump(spec))
    return spec_term(v, chr(conversion) if conversion in (97, 114) else None,
                     text)


class Interp:
    def __init__(self, prog, policy):
        self.prog = prog
        self.pol = policy
        self.reach = prog.__dict__.setdefault('_reach', None)
        if self.reach is None:
            self.reach = prog._reach = Reach(prog)
        self._ids = {}
        self.cur = None
        self.bag = {}
        self.closures = {}
        self.nstates = 0
        self.depth = 0
        self.notes = set()
        self.analysed = set()
        self.ncalls = 0
        self._modcache = {}
        self.holder = None
        try:
            d = prog.public_func('dump').node.args
            for p, dv in zip(d.kwonlyargs, d.kw_defaults):
                if p.arg == 'fork_inst' and isinstance(dv, ast.Name):
                    r = prog.resolve_name(
                        prog.public_func('dump').module.name, dv.id)
                    if r and r[0] == 'class':
                        self.holder = r[1]
        except AnalysisBroken:
            pass

    # -- utilities ----------------------------------------------------------

    def iid(self, *key):
        """Deterministic id: the same program point reached the same way gets
        the same id on every path, so that terms stay comparable."""
        i = self._ids.get(key)
        if i is None:
            i = self._ids[key] = len(self._ids) + 1
        return i

    def pid(self, st, kind):
        return self.iid(kind, self.cur, st.stack,
                        tuple((l[0], l[2]) for l in st.loops))

    def note(self, msg):
        self.notes.add(msg)

    def fork(self, st):
        self.nstates += 1
        if self.nstates > self.pol.max_states:
            raise Budget('more than %d abstract states'
                         % self.pol.max_states)
        return st.copy()

    def alloc(self, st, obj):
        base = ('h', self.cur, st.stack,
                tuple((l[0], l[2]) for l in st.loops))
        k = 0
        i = self.iid(*base, k)
        while i in st.heap:
            k += 1
            i = self.iid(*base, k)
        st.heap[i] = obj
        return ('ref', i)

    def new_list(self, st, items=(), kind='list'):
        return self.alloc(st, ('L', kind, tuple(items)))

    def new_dict(self, st, layers=()):
        return self.alloc(st, ('D', tuple(layers)))

    def freeze(self, t, st, depth=0):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'c':
            return t
        if t and t[0] == 'ref':
            if depth > 8:
                return t
            h = st.heap.get(t[1])
            if h is None:
                return t
            if h[0] == 'L':
                return ('L', h[1], t[1],
                        tuple(self.freeze(x, st, depth + 1) for x in h[2]))
            if h[0] == 'D':
                return ('D', t[1], self.freeze_layers(h[1], st, depth))
            if h[0] == 'O':
                return ('O', t[1], h[1],
                        tuple((k, self.freeze(v, st, depth + 1))
                              for k, v in h[2]))
            return t
        if not any(isinstance(x, tuple) for x in t):
            return t
        if t[0] == 'odict' and t[1][0] == 'ref':
            return self.freeze(self.odict_snap(t, st), st, depth)
        return tuple(self.freeze(x, st, depth) if isinstance(x, tuple) else x
                     for x in t)

    def freeze_layers(self, layers, st, depth=0):
        return tuple(
            (l[0], self.freeze(l[1], st, depth + 1),
             self.freeze(l[2], st, depth + 1)) if l[0] == 'k'
            else (l[0], self.freeze(l[1], st, depth + 1)) + tuple(l[2:])
            for l in layers)

    def event(self, st, fr, kind, callee=None, args=(), kw=(), res=None,
              extra=None, line=None):
        e = Ev()
        e.kind = kind
        e.func = fr.qual
        e.line = line if line is not None else fr.line
        e.callee = self.freeze(callee, st) if callee is not None else None
        e.args = tuple(self.freeze(a, st) for a in args)
        e.kw = self.freeze_layers(kw, st)
        e.res = res
        e.facts = dict(st.facts)
        e.tries = st.tries
        e.loops = st.loops
        e.tasks = st.tasks
        e.stack = st.stack
        e.extra = extra
        key = ('e', kind, fr.qual, e.line, self.cur, e.callee, e.args, e.kw,
               e.stack, tuple((l[0], l[2]) for l in e.loops), e.extra)
        if self.pol.bag:
            e.n = self.iid(*key)
            fkey = frozenset(e.facts.items())
            alts = self.bag.setdefault(e.n, {})
            if fkey in alts:
                e = alts[fkey]
            elif len(alts) < 200:
                alts[fkey] = e
            else:
                k0, e0 = next(iter(alts.items()))
                e0.facts = {c: v for c, v in e0.facts.items()
                            if e.facts.get(c) == v and c in e.facts}
                e = e0
        else:
            e.n = self.iid(*key, len(st.events))
            st.events = st.events + (e,)
        return e

    def all_events(self, paths=None):
        """Every event observed, once per distinct set of facts."""
        if self.pol.bag:
            for alts in self.bag.values():
                yield from alts.values()
        else:
            seen = set()
            for p in paths:
                for e in p.events:
                    if id(e) not in seen:
                        seen.add(id(e))
                        yield e

    def gc(self, st, extra):
        """The heap objects something refers to (for comparing states)."""
        live = set()
        work = [v for v in st.env.values()] + list(st.store.values()) + \
            [k for k in st.store] + list(extra)
        while work:
            t = work.pop()
            if not isinstance(t, tuple):
                continue
            if len(t) == 2 and t[0] == 'ref':
                if t[1] not in live and t[1] in st.heap:
                    live.add(t[1])
                    work.append(st.heap[t[1]])
                continue
            if t and t[0] == 'c' and len(t) == 3:
                continue
            work.extend(x for x in t if isinstance(x, tuple))
        return frozenset((k, v) for k, v in st.heap.items() if k in live)

    def merge(self, outs):
        """Bag mode: merge outcomes that agree on everything but facts."""
        if len(outs) < 2 or not self.pol.bag:
            return outs
        seen = {}
        order = []
        for s, c, v in outs:
            try:
                key = (c, v, s.tries, s.loops, s.tasks, s.stack,
                       frozenset(s.env.items()), frozenset(s.store.items()),
                       self.gc(s, (v,) if isinstance(v, tuple) else ()))
            except TypeError:
                return outs
            if key in seen:
                o = seen[key][0]
                o.facts = {k: x for k, x in o.facts.items()
                           if s.facts.get(k) == x and k in s.facts}
            else:
                seen[key] = (s, c, v)
                order.append(key)
        return [seen[k] for k in order]

    # -- conditions and facts -----------------------------------------------

    def norm(self, t, st):
        """Normalise a boolean term to (cond, polarity) or a bool."""
        pol = True
        while t[0] == 'un' and t[1] == 'not':
            t = t[2]
            pol = not pol
        b = self.static_truth(t, st)
        if b is not None:
            return b == pol
        k = t[0]
        if k == 'call' and t[1] == ('ext', 'builtins.bool') and \
                len(t[2]) == 1:
            r = self.norm(t[2][0], st)
            return (r == pol) if isinstance(r, bool) else \
                (r[0], r[1] == pol)
        if k == 'call' and t[1] == ('ext', 'builtins.isinstance'):
            return ('isinst', self.freeze(t[2][0], st),
                    self._types(t[2][1], st)), pol
        if k == 'call' and t[1] == ('ext', 'builtins.len'):
            return ('truth', self.freeze(t[2][0], st)), pol
        if k == 'cmp':
            op, a, b = t[1], t[2], t[3]
            if op in ('is not', '!=', 'not in'):
                pol = not pol
                op = {'is not': 'is', '!=': '==', 'not in': 'in'}[op]
            if op in ('is', '=='):
                if a == NONE:
                    a, b = b, a
                if b == NONE:
                    return ('isnone', self.freeze(a, st)), pol
                # len(x) == 0
                la = self._len_of(a)
                if la is not None and b == const(0):
                    return ('truth', self.freeze(la, st)), not pol
                if a[0] == 'c' and b[0] != 'c':
                    a, b = b, a
                a, b = self.freeze(a, st), self.freeze(b, st)
                if a[0] != 'c' and b[0] != 'c' and repr(b) < repr(a):
                    a, b = b, a
                # type(x) is T -> kept as eq of typeof
                if op == 'is' and b[0] == 'c' and b[1] == 'bool':
                    return ('is', a, b), pol
                return ('eq', a, b), pol
            if op == 'in':
                return ('in', self.freeze(a, st), self.freeze(b, st)), pol
            if op in ('<', '>', '<=', '>='):
                if op == '>':
                    op, a, b = '<', b, a
                elif op == '>=':
                    op, pol = '<', not pol
                elif op == '<=':
                    op, a, b, pol = '<', b, a, not pol
                # len(x) > 0  <=> 0 < len(x) ; len(x) < 1
                lb = self._len_of(b)
                if a == const(0) and lb is not None:
                    return ('truth', self.freeze(lb, st)), pol
                la = self._len_of(a)
                if la is not None and b == const(1):
                    return ('truth', self.freeze(la, st)), not pol
                return ('lt', self.freeze(a, st), self.freeze(b, st)), pol
        return ('truth', self.freeze(t, st)), pol

    def _len_of(self, t):
        if t[0] == 'call' and t[1] == ('ext', 'builtins.len'):
            return t[2][0]
        return None

    def _types(self, t, st):
        t = self.freeze(t, st)
        if t[0] == 'tup':
            items = []
            for x in t[1]:
                y = self._types(x, st)
                items.extend(y[1] if y[0] == 'tup' else (y,))
            items = tuple(dict.fromkeys(items))
            return items[0] if len(items) == 1 else ('tup', items)
        if t[0] == 'bin' and t[1] == '|':
            return self._types(('tup', (t[2], t[3])), st)
        return t

    def type_of(self, t, st):
        """('cls'|'ext', name) of the exact type of a term, if known."""
        k = t[0]
        if k == 'c':
            return ('ext', 'builtins.' + t[1])
        if k == 'ref':
            h = st.heap.get(t[1])
            if h and h[0] == 'L':
                return ('ext', 'builtins.' + h[1])
            if h and h[0] == 'D':
                return ('ext', 'builtins.dict')
            if h and h[0] == 'O' and isinstance(h[1], tuple):
                return h[1]
        if k == 'L':
            return ('ext', 'builtins.' + t[1])
        if k == 'D':
            return ('ext', 'builtins.dict')
        if k == 'tup':
            return ('ext', 'builtins.tuple')
        if k == 'fmt':
            return ('ext', 'builtins.str')
        if k == 'new':
            return ('cls', t[1])
        return None

    def subclass(self, a, b):
        def conv(x):
            if x[0] == 'cls':
                return ('class', self.prog.classes[x[1]])
            return x
        if b == ('ext', 'builtins.object'):
            return True
        if b[0] == 'ext' and b[1].startswith('typing.'):
            alias = {'typing.Sequence': 'collections.abc.Sequence',
                     'typing.MutableSequence':
                     'collections.abc.MutableSequence',
                     'typing.Mapping': 'collections.abc.Mapping',
                     'typing.Iterable': 'collections.abc.Iterable',
                     'typing.Callable': 'collections.abc.Callable'}
            b = ('ext', alias.get(b[1], b[1]))
        if a[0] not in ('cls', 'ext') or b[0] not in ('cls', 'ext'):
            return None
        return self.prog.is_subclass(conv(a), conv(b))

    def static_truth(self, t, st):
        """Truth value of a term known without facts, or None."""
        k = t[0]
        if k == 'c':
            return True if t[1] == 'ellipsis' else bool(t[2])
        if k in ('func', 'cls', 'ext', 'mod', 'clo', 'bm', 'new', 'partial',
                 'exc'):
            return True
        if k == 'tup':
            return len(t[1]) > 0 if not any(
                x[0] == '*' for x in t[1]) else None
        if k == 'ref':
            h = st.heap.get(t[1])
            if h and h[0] == 'L':
                if not h[2]:
                    return False
                if any(x[0] != '*' for x in h[2]):
                    return True
                return None
            if h and h[0] == 'D':
                if not h[1]:
                    return False
                if any(l[0] == 'k' for l in h[1]):
                    return True
                return None
            if h and h[0] == 'O':
                return True
        if k == 'fmt':
            if any(p[0] == 'c' and p[2] for p in t[1]):
                return True
            return None
        if k == 'cmp':
            return self._static_cmp(t[1], t[2], t[3], st)
        if k == 'call' and t[1] == ('ext', 'builtins.type') and \
                len(t[2]) == 1:
            return True
        if k == 'call' and t[1] == ('ext', 'builtins.isinstance') and \
                len(t[2]) == 2:
            return self._static_isinst(t[2][0], t[2][1], st)
        if k == 'call' and t[1] == ('ext', 'builtins.issubclass') and \
                len(t[2]) == 2:
            a, b = t[2]
            if a[0] in ('cls', 'ext') and b[0] in ('cls', 'ext'):
                return self.subclass(a, b)
        if k == 'call' and t[1] == ('ext', 'builtins.callable') and t[2]:
            if t[2][0][0] in ('func', 'clo', 'bm', 'cls', 'partial'):
                return True
        if k == 'call' and t[1] == ('ext', 'builtins.len') and t[2]:
            return self.static_truth(t[2][0], st)
        if k == 'un' and t[1] == 'not':
            b = self.static_truth(t[2], st)
            return None if b is None else not b
        return None

    def _static_isinst(self, x, T, st):
        T = self._types(T, st)
        ty = self.type_of(x, st)
        if ty is None and x[0] in ('cls',) and T == ('ext', 'builtins.type'):
            return True
        if ty is None and x[0] == 'ext':
            o = ext_object(x[1])
            if o is not None and T[0] == 'ext':
                to = ext_object(T[1])
                if isinstance(to, type):
                    return isinstance(o, to)
            return None
        if ty is None and x[0] in ('func', 'clo', 'bm', 'cls') and \
                T[0] == 'ext' and T[1] in ('builtins.str', 'builtins.tuple',
                                           'builtins.staticmethod',
                                           'builtins.classmethod',
                                           'typing.Sequence',
                                           'collections.abc.Sequence',
                                           'builtins.list'):
            return False
        if ty is None:
            return None
        ts = T[1] if T[0] == 'tup' else (T,)
        unknown = False
        for one in ts:
            r = self.subclass(ty, one)
            if r:
                return True
            if r is None:
                unknown = True
        return None if unknown else False

    def _static_cmp(self, op, a, b, st):
        if op in ('is', '==', 'is not', '!='):
            neg = op in ('is not', '!=')
            r = None
            if a == b and a[0] in ('c', 'func', 'cls', 'ext', 'mod', 'sym',
                                   'opt', 'ref', 'elem', 'attr', 'evt'):
                r = True
            elif a[0] == 'c' and b[0] == 'c':
                if op in ('is', 'is not') and a[1] != b[1]:
                    r = False
                else:
                    r = a[2] == b[2] and (a[1] != 'ellipsis'
                                          or b[1] == 'ellipsis')
            elif a[0] in ('func', 'cls', 'ext', 'mod', 'ref', 'new', 'clo') \
                    and b[0] in ('func', 'cls', 'ext', 'mod', 'c'):
                if a[0] == 'ref' and b[0] == 'c':
                    r = False
                elif b[0] == 'c' or (a != b and 'ext' not in (a[0], b[0])):
                    r = False
                elif a[0] == 'ext' and b[0] == 'ext':
                    oa, ob = ext_object(a[1]), ext_object(b[1])
                    r = (oa is ob) if oa is not None and ob is not None \
                        else None
                else:
                    r = False
            elif b[0] in ('func', 'cls', 'ext', 'mod', 'ref', 'new') and \
                    a[0] == 'c':
                r = False
            elif NONE in (a, b):
                o = b if a == NONE else a
                if o[0] in ('tup', 'fmt', 'func', 'cls', 'ext', 'ref', 'clo',
                            'new', 'bm', 'idx', 'L', 'D'):
                    r = False
            if r is None and a[0] == 'tup' and b[0] == 'tup' and \
                    a[1] == b[1]:
                r = True
            return None if r is None else (r != neg)
        if op in ('in', 'not in'):
            items = None
            if b[0] == 'tup':
                items = b[1]
            elif b[0] == 'ref':
                h = st.heap.get(b[1])
                if h and h[0] == 'L':
                    items = h[2]
                elif h and h[0] == 'D':
                    r = self._dict_has(h[1], a)
                    return None if r is None else (r == (op == 'in'))
            elif b[0] == 'c' and b[1] == 'str' and a[0] == 'c' and \
                    a[1] == 'str':
                return (a[2] in b[2]) == (op == 'in')
            if items is not None and not any(x[0] == '*' for x in items):
                unknown = False
                for x in items:
                    r = self._static_cmp('==', a, x, st)
                    if r:
                        return op == 'in'
                    if r is None:
                        unknown = True
                if not unknown:
                    return op != 'in'
            return None
        if op in ('<', '>', '<=', '>=') and a[0] == 'c' and b[0] == 'c':
            try:
                return {'<': a[2] < b[2], '>': a[2] > b[2],
                        '<=': a[2] <= b[2], '>=': a[2] >= b[2]}[op]
            except TypeError:
                return None
        if op in ('<', '>', '<=', '>='):
            # len() of known lists
            return None
        return None

    def _dict_has(self, layers, key):
        for l in reversed(layers):
            if l[0] == 'k':
                if l[1] == key:
                    return True
                if not (l[1][0] == 'c' and key[0] == 'c'):
                    return None
            elif l[0] == 'rest':
                if key[0] == 'c' and key[2] in l[2]:
                    continue
                return None
        return False

    def decide(self, st, cond):
        f = st.facts
        if cond in f:
            return f[cond]
        k = cond[0]
        if k == 'truth':
            x = cond[1]
            if f.get(('isnone', x)) is True:
                return False
            for v in (TRUE, FALSE):
                if f.get(('is', x, v)) is True:
                    return v[2]
            for (c, val) in f.items():
                if val is True and c[0] == 'eq' and c[1] == x and \
                        c[2][0] == 'c':
                    return bool(c[2][2])
        elif k == 'isnone':
            x = cond[1]
            if f.get(('truth', x)) is True:
                return False
            for (c, val) in f.items():
                if val is True and c[0] in ('isinst', 'eq', 'is') and \
                        c[1] == x:
                    if c[0] == 'isinst':
                        if c[2] not in (('ext', 'builtins.NoneType'),
                                        ('ext', 'builtins.object')) and \
                                c[2][0] != 'tup':
                            return False
                    elif c[2][0] in ('c', 'ext', 'cls', 'func'):
                        return False
        elif k == 'eq':
            x, v = cond[1], cond[2]
            if v[0] == 'c':
                if f.get(('isnone', x)) is True:
                    return False
                if not v[2] and f.get(('truth', x)) is True:
                    return False
                if v[2] and f.get(('truth', x)) is False:
                    return False
            for (c, val) in f.items():
                if val is True and c[0] in ('eq', 'is') and c[1] == x and \
                        c[2] != v and c[2][0] == 'c' and v[0] == 'c' and \
                        c[2][2] != v[2]:
                    return False
                if val is True and c[0] == 'eq' and c[1] == x and \
                        c[2] != v and c[2][0] in ('ext', 'cls', 'func') and \
                        v[0] in ('ext', 'cls', 'func'):
                    return False
        elif k == 'is':
            x, v = cond[1], cond[2]
            if f.get(('isnone', x)) is True:
                return False
            tr = f.get(('truth', x))
            if tr is not None and v[1] == 'bool' and tr != v[2]:
                return False
            for (c, val) in f.items():
                if val is True and c[0] in ('is', 'eq') and c[1] == x and \
                        c[2] != v and c[2][0] == 'c' and \
                        c[2][2] != v[2]:
                    return False
        elif k == 'isinst':
            x, T = cond[1], cond[2]
            if f.get(('isnone', x)) is True:
                ts = T[1] if T[0] == 'tup' else (T,)
                if not any(y[0] not in ('ext', 'cls') or y[1] in
                           ('builtins.NoneType', 'builtins.object')
                           for y in ts):
                    return False
            ts = T[1] if T[0] == 'tup' else (T,)
            for (c, val) in f.items():
                if c[0] == 'isinst' and c[1] == x:
                    cs = c[2][1] if c[2][0] == 'tup' else (c[2],)
                    if val is True and all(
                            any(self.subclass(a, b) for b in ts)
                            for a in cs):
                        return True
                    if val is False and all(
                            any(self.subclass(a, b) for b in cs)
                            for a in ts):
                        return False
                    if val is True and len(cs) == 1 and len(ts) == 1 and \
                            self._disjoint(cs[0], ts[0]):
                        return False
                if val is True and c[0] == 'eq' and c[2][0] in \
                        ('ext', 'cls') and c[1] == \
                        ('call', ('ext', 'builtins.type'), (x,), ()):
                    rs = [self.subclass(c[2], b) for b in ts]
                    if any(rs):
                        return True
                    if all(r is False for r in rs):
                        return False
        elif k == 'in':
            x, coll = cond[1], cond[2]
            items = coll[1] if coll[0] == 'tup' else (
                coll[3] if coll[0] == 'L' else None)
            if items is not None:
                if not items:
                    return False
                und = False
                for it in items:
                    c2 = ('isnone', x) if it == NONE else ('eq', x, it)
                    r = self.decide(st, c2)
                    if r is True:
                        return True
                    if r is None:
                        und = True
                if not und:
                    return False
        elif k == 'lt':
            for (c, val) in f.items():
                if c[0] == 'lt' and c[1] == cond[2] and c[2] == cond[1] and \
                        val is True:
                    return False
                # x < c known; decide x < d
                if c[0] == 'lt' and c[1] == cond[1] and c[2][0] == 'c' and \
                        cond[2][0] == 'c':
                    try:
                        if val and c[2][2] <= cond[2][2]:
                            return True
                        if not val and c[2][2] >= cond[2][2]:
                            return False
                    except TypeError:
                        pass
                if c[0] == 'lt' and c[2] == cond[2] and c[1][0] == 'c' and \
                        cond[1][0] == 'c':
                    try:
                        if val and c[1][2] >= cond[1][2]:
                            return True
                        if not val and c[1][2] <= cond[1][2]:
                            return False
                    except TypeError:
                        pass
                if c[0] == 'eq' and val and c[1] == cond[1] and \
                        c[2][0] == 'c' and cond[2][0] == 'c':
                    try:
                        return c[2][2] < cond[2][2]
                    except TypeError:
                        pass
                if c[0] == 'eq' and val and c[1] == cond[2] and \
                        c[2][0] == 'c' and cond[1][0] == 'c':
                    try:
                        return cond[1][2] < c[2][2]
                    except TypeError:
                        pass
        return None

    def _disjoint(self, a, b):
        """No object is an instance of both (solid builtin layouts)."""
        solid = {'builtins.int', 'builtins.str', 'builtins.dict',
                 'builtins.list', 'builtins.tuple', 'builtins.set',
                 'builtins.float', 'builtins.type', 'builtins.bytes'}
        if a[0] == 'ext' and b[0] == 'ext' and a[1] in solid and \
                b[1] in solid:
            return a != b
        return False

    def assume(self, st, cond, val):
        """Add a fact; False if it contradicts what is known."""
        known = self.decide(st, cond)
        if known is not None:
            return known == val
        st.facts[cond] = val
        if cond[0] == 'in' and val is False:
            coll = cond[2]
            items = coll[1] if coll[0] == 'tup' else (
                coll[3] if coll[0] == 'L' else ())
            for it in items:
                c2 = ('isnone', cond[1]) if it == NONE else \
                    ('eq', cond[1], it)
                st.facts.setdefault(c2, False)
        return True

    def split(self, st, t):
        """Branch on the truth of a term: list of (state, bool)."""
        n = self.norm(t, st)
        if isinstance(n, bool):
            return [(st, n)]
        cond, pol = n
        d = self.decide(st, cond)
        if d is not None:
            return [(st, d == pol)]
        st2 = self.fork(st)
        out = []
        if self.assume(st, cond, pol):
            out.append((st, True))
        if self.assume(st2, cond, not pol):
            out.append((st2, False))
        return out

    # -- names --------------------------------------------------------------

    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            if f.locals is None or name in f.locals:
                v = st.env.get((f.fid, name))
                if v is not None:
                    return v
                if f.locals is not None:
                    return ('unbound', name)
            f = f.parent
        return self.global_name(fr.module, name, st)

    def global_name(self, modname, name, st=None):
        r = self.prog.resolve_name(modname, name)
        if r is None:
            return ('unbound', name)
        return self.binding(r, modname, name, st)

    def binding(self, r, modname, name, st):
        if r[0] == 'func':
            return self.func_term(r[1])
        if r[0] == 'class':
            return ('cls', r[1].qual)
        if r[0] == 'mod':
            return ('mod', r[1])
        if r[0] == 'ext':
            if r[1] == 'builtins.None':
                return NONE
            return ('ext', r[1])
        if r[0] == 'expr':
            key = (r[2].name, name)
            if key in self._modcache:
                v = self._modcache[key]
            else:
                self._modcache[key] = ('global', r[2].name + '.' + name)
                fr = Frame(self.iid('m', r[2].name), None, r[2].name, None, None,
                           r[2].name)
                s0 = State()
                old = self.pol.raise_ops
                self.pol.raise_ops = False
                try:
                    res = self.ev(r[1], s0, fr)
                finally:
                    self.pol.raise_ops = old
                v = ('global', r[2].name + '.' + name)
                oks = [(s, x) for s, c, x in res if c == N]
                if len(oks) == 1:
                    x = oks[0][1]
                    fz = self.freeze(x, oks[0][0])
                    if fz[0] in ('c', 'tup', 'fmt', 'ext', 'func', 'cls',
                                 'clo', 'call', 'attr') and not any(
                                     y[0] == 'ref' for y in subterms(fz)):
                        v = fz
                    elif fz[0] == 'L' and fz[1] in ('set', 'frozenset'):
                        v = ('tup', fz[3])
                self._modcache[key] = v
            return v
        return ('global', modname + '.' + name)

    def func_term(self, f):
        return ('func', f.qual)

    # -- function calls -----------------------------------------------------

    def deco_kind(self, f):
        """None | 'cached' | 'staticmethod' | 'classmethod' | 'property' |
        'other' for the decorators of a function."""
        kinds = []
        for d in f.node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            name = n.id if isinstance(n, ast.Name) else (
                n.attr if isinstance(n, ast.Attribute) else '?')
            if name in ('staticmethod', 'classmethod', 'property'):
                kinds.append(name)
            elif name in ('cached', 'lru_cache', 'cache'):
                kinds.append('cached')
            elif name in ('overload', 'wraps', 'abstractmethod'):
                pass
            else:
                kinds.append('other')
        return kinds

    def should_inline(self, qual, st, args=(), kw=(), fr=None):
        if qual in self.pol.opaque:
            return False
        f = self.prog.functions.get(qual)
        if f is None:
            return False
        if st.stack.count(qual) >= 1:
            return False
        if len(st.stack) >= self.pol.depth:
            self.note('call depth limit at %s' % qual)
            return False
        if self.pol.inline_all or qual in self.pol.force:
            return True
        r = self.reach.closed(qual)
        if r & self.pol.interest or self.pol.simple and \
                self.is_simple(qual):
            return True
        # helpers of exception handlers: whether they return matters
        if 'RAISE' in r and fr is not None and (
                st.env.get((-1, '<exc>')) is not None or
                any(a[0] == 'exc' for a in args) or
                self.noreturn(qual)):
            return True
        # VCALL: a function that calls what it is given, and is given the
        # result of an observed call
        return 'VCALL' in self.pol.interest and 'UCALL' in r and (
            any(self.from_boundary(a) for a in args) or
            any(self.from_boundary(x) for l in kw for x in l[1:]
                if isinstance(x, tuple)))

    def is_simple(self, qual):
        """A function that only names a condition or an expression."""
        memo = self.prog.__dict__.setdefault('_simple', {})
        if qual not in memo:
            memo[qual] = self._simple(self.prog.functions[qual].node)
        return memo[qual]

    def _simple(self, node):
        if node.decorator_list or isinstance(node, ast.AsyncFunctionDef):
            return False
        body = [s for s in node.body if not (
            isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and
            isinstance(s.value, ast.Constant))]
        if not body or len(body) > 4 or \
                not isinstance(body[-1], ast.Return) or \
                body[-1].value is None:
            return False
        for s in body[:-1]:
            if not (isinstance(s, (ast.Assign, ast.AnnAssign)) and all(
                    isinstance(t, ast.Name) for t in (
                        s.targets if isinstance(s, ast.Assign)
                        else [s.target]))):
                return False
        return not any(isinstance(n, (
            ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp,
            ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr))
            for s in body for n in ast.walk(s))

    def noreturn(self, qual):
        memo = self.prog.__dict__.setdefault('_noreturn', {})
        if qual not in memo:
            memo[qual] = self._ends_in_raise(
                self.prog.functions[qual].node.body)
        return memo[qual]

    def _ends_in_raise(self, body):
        s = body[-1]
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If):
            return bool(s.orelse) and self._ends_in_raise(s.body) and \
                self._ends_in_raise(s.orelse)
        return False

    def from_boundary(self, t):
        return isinstance(t, tuple) and t and t[0] == 'evt' and \
            t[2][0] == 'func' and t[2][1] in self.pol.boundary

    def call(self, st, fr, f, args, kw, line=None):
        """Call term f. args: terms or ('*', t); kw: layers.
        Returns list of (st, ctl, val)."""
        self.ncalls += 1
        k = f[0]
        if k == 'func':
            q = f[1]
            if q in self.pol.boundary:
                return self.call_event(st, fr, 'call', f, args, kw)
            if self.should_inline(q, st, args, kw, fr):
                fi = self.prog.functions[q]
                if 'other' in self.deco_kind(fi):
                    return self.call_event(st, fr, 'call', f, args, kw)
                return self.inline(st, fr, fi.node, q, fi.module.name, None,
                                   args, kw)
            if q in st.stack:
                return self.call_event(st, fr, 'recursive', f, args, kw)
            return self.opaque_call(st, fr, f, args, kw)
        if k == 'clo':
            c = self.closures[f[1]]
            if len(st.stack) >= self.pol.depth or \
                    st.stack.count(c.qual) > 1:
                self.note('call depth limit at %s' % c.qual)
                return self.call_event(st, fr, 'ucall', f, args, kw)
            return self.inline(st, fr, c.node, c.qual, c.module, c.frame,
                               args, kw)
        if k == 'bm':
            return self.call(st, fr, f[2], (f[1],) + tuple(args), kw)
        if k == 'partial':
            return self.call(st, fr, f[1], tuple(f[2]) + tuple(args),
                             tuple(f[3]) + tuple(kw))
        if k == 'cls':
            return self.instantiate(st, fr, f, args, kw)
        if k == 'ext':
            if self.pol.exc_objects and args and '.' in f[1]:
                base, last = f[1].rsplit('.', 1)
                if last == '__init__' and self.error_ref(st, args[0]):
                    return self.error_init(st, fr, base, args, kw)
                if last == '__new__' and args[0][0] == 'cls' and \
                        self.is_exception_class(args[0][1]):
                    return [(st, N, self.make_error(st, args[0], args[1:]))]
            return self.ext_call(st, fr, f, args, kw)
        if k == 'attr':
            # method call on an opaque object
            return self.method_call(st, fr, f[1], f[2], args, kw)
        if k == 'ref':
            h = st.heap.get(f[1])
            if h and h[0] == 'O' and isinstance(h[1], tuple) and \
                    h[1][0] == 'cls':
                m = self.find_member(h[1][1], '__call__')
                if m:
                    return self.call(st, fr, ('func', m.qual),
                                     (f,) + tuple(args), kw)
        kws = dict((l[1][2], l[2]) for l in kw
                   if l[0] == 'k' and l[1][0] == 'c')
        if 'target' in kws and k not in ('clo', 'func'):
            ref = self.alloc(st, ('O', 'task', tuple(sorted(
                [('target', kws['target']), ('args', kws.get('args', NONE)),
                 ('kwargs', kws.get('kwargs', NONE)), ('state', const('new')),
                 ('factory', f)]))))
            self.event(st, fr, 'task-new', f, args, kw, ref)
            return [(st, N, ref)]
        return self.call_event(st, fr, 'ucall', f, args, kw)

    def call_event(self, st, fr, kind, f, args, kw, raises=True):
        res = ('evt', None, self.freeze(f, st))
        e = self.event(st, fr, kind, f, args, kw)
        res = ('evt', e.n, e.callee)
        e.res = res
        out = [(st, N, res)]
        name = f[1] if f[0] in ('func', 'ext', 'cls') else None
        if raises and st.tries and self.pol.raise_ops and \
                name not in self.pol.never_raise:
            st2 = self.fork(st)
            out.append((st2, X, ('exc', e.n, self._callee_name(f))))
        return out

    def _callee_name(self, f):
        return show(f)

    def is_frail(self, st, o, key=None):
        if not self.pol.frail or not any(
                x in self.pol.frail for x in subterms(o)):
            return False
        return key is None or st.facts.get(('in', key, o)) is not True

    def maybe_raise(self, st, what, frail=False):
        """Extra exceptional outcome of an opaque operation inside a try."""
        if (st.tries or frail) and (self.pol.raise_ops and self.pol.ext_raise or
                         what in self.pol.raise_only):
            st2 = self.fork(st)
            return [(st2, X, ('exc', self.pid(st2, 'x'), what))]
        return []

    def opaque_call(self, st, fr, f, args, kw):
        t = ('call', f, tuple(self.freeze(a, st) for a in args),
             self.freeze_layers(kw, st))
        self.event(st, fr, 'opaque', f, args, kw, t)
        self.havoc(st, f, args, kw, t)
        out = [(st, N, t)]
        if f[1] not in self.pol.never_raise and \
                'RAISE' in self.reach.closed(f[1]):
            out += self.maybe_raise(st, f[1])
        return out

    def havoc(self, st, f, args, kw, t):
        """Objects an unexpanded callee may mutate have unknown contents
        afterwards (they mention the call, so a rule can expand it)."""
        fi = self.prog.functions.get(f[1])
        if fi is None:
            return
        mut = self.reach.mut_params(f[1])
        if not mut:
            return
        pos = [p.arg for p in fi.node.args.posonlyargs + fi.node.args.args]
        cand = [a for i, a in enumerate(args)
                if i < len(pos) and pos[i] in mut]
        cand += [l[2] for l in kw if l[0] == 'k' and l[1][0] == 'c' and
                 l[1][2] in mut]
        for a in cand:
            if a[0] != 'ref':
                continue
            h = st.heap.get(a[1])
            if h and h[0] == 'D':
                st.heap[a[1]] = ('D', (('rest', ('havoc', t), frozenset()),))
            elif h and h[0] == 'L':
                st.heap[a[1]] = ('L', h[1], (('*', ('havoc', t)),))

    def find_member(self, clsqual, name):
        c = self.prog.classes.get(clsqual)
        if c is None:
            return None
        for e in self.prog.mro(c):
            if e and e[0] == 'class' and name in e[1].members:
                return e[1].members[name]
        return None

    def is_exception_class(self, clsqual):
        c = self.prog.classes.get(clsqual)
        return c is not None and any(
            e and e[0] == 'ext' and e[1] in (
                'builtins.Exception', 'builtins.BaseException')
            for e in self.prog.mro(c))

    def instantiate(self, st, fr, f, args, kw):
        q = f[1]
        if self.is_exception_class(q) and self.pol.exc_objects:
            return self.new_error(st, fr, f, args, kw)
        if self.is_exception_class(q):
            t = ('new', q, tuple(self.freeze(a, st) for a in args),
                 self.freeze_layers(kw, st))
            return [(st, N, t)]
        init = self.find_member(q, '__init__')
        c = self.prog.classes[q]
        isenum = any(e and e[0] == 'ext' and e[1].startswith('enum.')
                     for e in self.prog.mro(c))
        if isinstance(init, FuncInfo) and not isenum:
            ref = self.alloc(st, ('O', f, ()))
            out = []
            for s, ctl, v in self.inline(
                    st, fr, init.node, init.qual, init.module.name, None,
                    (ref,) + tuple(args), kw):
                out.append((s, ctl, ref if ctl == N else v))
            return out
        if not args and not kw and not isenum:
            return [(st, N, self.alloc(st, ('O', f, ())))]
        return self.call_event(st, fr, 'instantiate', f, args, kw)

    # -- errors as objects --------------------------------------------------

    def make_error(self, st, f, args):
        """BaseException.__new__: an object that knows its arguments."""
        return self.alloc(st, ('O', f, (('args', ('tup', tuple(args))),)))

    def new_error(self, st, fr, f, args, kw):
        ref = self.make_error(st, f, args)
        init = self.find_member(f[1], '__init__')
        if isinstance(init, FuncInfo):
            return [(s, c, ref if c == N else v) for s, c, v in self.call(
                st, fr, ('func', init.qual), (ref,) + tuple(args), kw)]
        base = self.ext_base(f[1])
        return [(s, c, ref if c == N else v) for s, c, v in
                self.error_init(st, fr, base, (ref,) + tuple(args), kw)]

    def ext_base(self, q):
        for e in self.prog.mro(self.prog.classes[q]):
            if e and e[0] == 'ext':
                return e[1]
        return 'builtins.object'

    def error_init(self, st, fr, name, args, kw):
        """__init__ of an error class that is not of the package."""
        o, rest = args[0], tuple(args[1:])
        h = st.heap[o[1]]
        fields = [x for x in h[2] if x[0] != 'args']
        if name == 'json.decoder.JSONDecodeError':
            name = 'json.JSONDecodeError'
        if name == 'json.JSONDecodeError':
            b = dict(zip(('msg', 'doc', 'pos'), rest))
            b.update((l[1][2], l[2]) for l in kw if l[0] == 'k')
            if set(b) != {'msg', 'doc', 'pos'}:
                return [(st, X, ('call', ('ext', 'builtins.TypeError'),
                                 (), ()))]
            fields = [x for x in fields if x[0] not in b] + sorted(b.items())
            rest = (('call', ('ext', 'json.JSONDecodeError.message'), tuple(
                b[k] for k in ('msg', 'doc', 'pos')), ()),)
        st.heap[o[1]] = ('O', h[1], tuple(fields) + (('args', (
            'tup', rest)),))
        return [(st, N, NONE)]

    def error_ref(self, st, t):
        h = st.heap.get(t[1]) if t[0] == 'ref' else None
        return bool(h and h[0] == 'O' and isinstance(h[1], tuple) and
                    h[1][0] == 'cls' and self.is_exception_class(h[1][1]))

    def odict_snap(self, t, st):
        """The attributes of an object as a dict of their own."""
        h = st.heap[t[1][1]]
        own = [(k, v) for k, v in h[2]
               if not (k == 'args' and self.error_ref(st, t[1]))]
        return self.alloc(st, ('D', tuple(('k', const(k), v)
                                          for k, v in own)))

    def odict_method(self, st, fr, t, name, args, kw):
        if name not in ('update', '__setitem__', 'setdefault', 'pop',
                        'clear'):
            return self.method_call(st, fr, self.odict_snap(t, st), name,
                                    args, kw)
        h = st.heap[t[1][1]]
        if name == '__setitem__' and len(args) == 2 and \
                args[0][0] == 'c':
            return self.setattr_(st, fr, t[1], args[0][2], args[1])
        layers = ()
        if name == 'update':
            for a in args:
                if a[0] == 'odict':
                    a = self.odict_snap(a, st)
                layers += tuple(self.spread(a, st))
            layers += tuple(kw)
        if name == 'update' and all(
                l[0] == 'k' and l[1][0] == 'c' for l in layers):
            fields = dict(h[2])
            fields.update((l[1][2], l[2]) for l in layers)
            st.heap[t[1][1]] = ('O', h[1], tuple(fields.items()))
            return [(st, N, NONE)]
        self.note('attributes of an object change in an unknown way')
        st.heap[t[1][1]] = ('O', h[1], tuple(
            (k, ('havoc', v)) for k, v in h[2]))
        return [(st, N, ('havoc', t))]

    def super_attr(self, st, fr, t, name):
        """Attribute of super(): found after the class in the order of the
        object's class."""
        start, o = t[1], t[2]
        ty = o if o[0] == 'cls' else self.type_of(o, st) or ('cls', start)
        seen = False
        if ty[0] == 'cls':
            for e in self.prog.mro(self.prog.classes[ty[1]]):
                if e and e[0] == 'class' and e[1].qual == start:
                    seen = True
                    continue
                if not seen or not e:
                    continue
                if e[0] == 'class' and name in e[1].members:
                    m = e[1].members[name]
                    if isinstance(m, FuncInfo):
                        if name == '__new__':
                            return [(st, N, ('func', m.qual))]
                        return self._member(
                            st, fr, m, None if o[0] == 'cls' else o, ty)
                if e[0] == 'ext' and e[1] != 'builtins.object':
                    obj = ext_object(e[1])
                    if obj is not None and name not in vars(obj):
                        continue
                    if name == '__new__':
                        return [(st, N, ('ext', e[1] + '.' + name))]
                    return [(st, N, ('bm', o, ('ext', e[1] + '.' + name)))]
        return [(st, N, ('attr', t, name))]

    def inline(self, st, fr, node, qual, module, closure_frame, args, kw,
               entry=False):
        if not entry and len(st.stack) > 60:
            raise Budget('inlining too deep')
        loc = local_names(node)
        term = None
        if closure_frame is None and qual in self.prog.functions:
            term = ('call', ('func', qual), tuple(
                self.freeze(a, st) for a in args), tuple(
                (l[0], l[1], self.freeze(l[2], st)) if l[0] == 'k' else l
                for l in kw))
        nf = Frame(self.pid(st, ('f:' + qual, fr.fid if fr else None)),
                   node, module, closure_frame, loc, qual)
        nf.line = node.lineno
        self.analysed.add(qual)
        ok = self.bind_args(st, fr, nf, node, args, kw)
        if ok is not True:
            return ok
        saved = st.stack
        st.stack = st.stack + (qual,)
        if isinstance(node, ast.Lambda):
            res = self.ev(node.body, st, nf)
            out = []
            for s, c, v in res:
                s.stack = saved
                out.append((s, c, v))
            return out
        isgen = self.is_generator(node)
        if isgen:
            nf.gens = True
            lst = self.new_list(st, (), 'generator')
            st.env[(nf.fid, '<yield>')] = lst
        res = self.block(node.body, st, nf, top=not isgen)
        out = []
        for s, c, v in res:
            s.stack = saved
            if c == X:
                out.append((s, X, v))
            elif isgen:
                out.append((s, N, s.env[(nf.fid, '<yield>')]))
            elif c == R:
                out.append((s, N, v))
            else:
                out.append((s, N, NONE))
        if closure_frame is None and not self._makes_closure(node):
            for s, c, v in out:
                for key in [k for k in s.env if k[0] == nf.fid]:
                    del s.env[key]
        return self.dedup(out, term)

    def _makes_closure(self, node):
        return any(isinstance(n, (ast.Lambda, ast.FunctionDef,
                                  ast.AsyncFunctionDef))
                   for n in ast.walk(node) if n is not node)

    def is_generator(self, node):
        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef)):
                return False
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            return any(visit(c) for c in ast.iter_child_nodes(n))
        return any(visit(b) for b in node.body)

    def dedup(self, outs, term=None):
        """Merge outcomes that differ in facts only (facts are intersected)
        when there are many."""
        if self.pol.bag:
            return self.merge(outs)
        if len(outs) < self.pol.dedup:
            return outs
        seen = {}
        order = []
        merged = set()
        for s, c, v in outs:
            key = (c, v, s.events, s.tries, s.loops, s.tasks,
                   tuple(sorted(s.env.items(), key=lambda kv: (
                       kv[0][0], kv[0][1]))),
                   tuple(sorted(s.store.items(), key=repr)),
                   tuple(sorted(s.heap.items())))
            try:
                hash(key)
            except TypeError:
                return outs
            if key in seen:
                o = seen[key][0]
                o.facts = {k: x for k, x in o.facts.items()
                           if s.facts.get(k) == x and k in s.facts}
                merged.add(key)
            else:
                seen[key] = (s, c, v)
                order.append(key)
        for k in merged if term else ():
            # keep what the merged outcomes have in common: the answer
            s, c, v = seen[k]
            b = self.static_truth(v, s) if c == N else None
            if b is not None:
                s.facts[('truth', term)] = b
        return [seen[k] for k in order]

    def bind_args(self, st, fr, nf, node, args, kw):
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        layers = tuple(kw)
        defaults = dict(zip([p.arg for p in (a.posonlyargs + a.args)
                             ][len(pos) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        bound = {}
        i = 0
        star_rest = None
        while args and i < len(pos):
            x = args[0]
            if x[0] == '*':
                t = x[1]
                items = self.known_items(t, st)
                if items is not None:
                    args[0:1] = list(items)
                    continue
                # unknown star: remaining positionals may come from it
                star_rest = args
                break
            bound[pos[i]] = x
            args.pop(0)
            i += 1
        if star_rest is not None:
            t = star_rest[0][1]
            for j, name in enumerate(pos[i:]):
                if self.layer_has(layers, name) is not True:
                    if name in defaults:
                        bound[name] = ('item?', t, const(j), name)
                    else:
                        bound[name] = ('item', t, const(j))
            if a.vararg:
                bound[a.vararg.arg] = ('slice', t, const(len(pos) - i)) \
                    if len(pos) > i else (
                        t if len(star_rest) == 1 else
                        ('tup', tuple(star_rest)))
        elif a.vararg:
            if len(args) == 1 and args[0][0] == '*':
                bound[a.vararg.arg] = args[0][1]
            else:
                bound[a.vararg.arg] = ('tup', tuple(args))
        elif args:
            rest = []
            for x in args:
                if x[0] == '*':
                    items = self.known_items(x[1], st)
                    if items is None or items:
                        rest.append(x)
                else:
                    rest.append(x)
            if any(x[0] != '*' for x in rest):
                self.event(st, fr, 'bad-call', ('sym', nf.qual), args, kw)
                return [(st, X, ('call', ('ext', 'builtins.TypeError'),
                                 (const('too many positional arguments'),),
                                 ()))]
        names = pos + [p.arg for p in a.kwonlyargs]
        posonly = {p.arg for p in a.posonlyargs}
        consumed = set()
        for name in names:
            if name in posonly:
                continue
            h = self.layer_get(layers, name, st)
            if name in bound:
                if h is not None and h[0] == 'sure':
                    self.event(st, fr, 'bad-call', ('sym', nf.qual), args, kw)
                    return [(st, X, ('call', ('ext', 'builtins.TypeError'),
                                     (const('multiple values for ' + name),),
                                     ()))]
                consumed.add(name)
                continue
            if h is not None:
                bound[name] = h[1]
                consumed.add(name)
                if h[0] == 'maybe' and name in defaults:
                    # value from an option mapping: keep the option term
                    pass
        if a.kwarg:
            bound[a.kwarg.arg] = self.new_dict(
                st, self.layers_without(layers, consumed | (
                    set(names) - posonly)))
        else:
            # explicit keyword that the callee does not accept
            for l in layers:
                if l[0] == 'k' and l[1][0] == 'c' and l[1][2] not in names:
                    self.event(st, fr, 'bad-call', ('sym', nf.qual), args,
                               kw, extra='unexpected keyword %s' % l[1][2])
                    return [(st, X, ('call', ('ext', 'builtins.TypeError'), (
                        const('unexpected keyword ' + str(l[1][2])),), ()))]
        missing = []
        for name in names:
            if name not in bound:
                if name in defaults:
                    # defaults are evaluated in the defining scope
                    df = Frame(-nf.fid, None, nf.module, nf.parent,
                               set(), nf.qual)
                    res = self.ev(defaults[name], st, df)
                    bound[name] = res[0][2]
                else:
                    missing.append(name)
        if missing:
            if any(l[0] == 'rest' for l in layers):
                for name in missing:
                    bound[name] = ('unknownarg', name)
            else:
                self.event(st, fr, 'bad-call', ('sym', nf.qual), args, kw,
                           extra='missing argument ' + ', '.join(missing))
                return [(st, X, ('call', ('ext', 'builtins.TypeError'), (
                    const('missing argument ' + ', '.join(missing)),), ()))]
        for name, v in bound.items():
            st.env[(nf.fid, name)] = v
        return True

    def known_items(self, t, st):
        """Exact items of a sequence term, or None."""
        if t[0] == 'tup':
            return None if any(x[0] == '*' for x in t[1]) else t[1]
        if t[0] == 'ref':
            h = st.heap.get(t[1])
            if h and h[0] == 'L' and not any(x[0] == '*' for x in h[2]):
                return h[2]
        if t[0] == 'L' and not any(x[0] == '*' for x in t[3]):
            return t[3]
        return None

    # -- layered dictionaries ----------------------------------------------

    def layer_has(self, layers, name):
        return self._dict_has(layers, const(name))

    def layer_get(self, layers, name, st=None):
        """('sure', v) | ('maybe', v) | None (absent)"""
        key = const(name) if isinstance(name, str) else name
        for l in reversed(layers):
            if l[0] == 'k':
                if l[1] == key:
                    return ('sure', l[2])
                if l[1][0] != 'c' or key[0] != 'c':
                    return ('maybe', ('lookup', ('D', 0, tuple(layers)),
                                      key))
            elif l[0] == 'rest':
                if key[0] == 'c' and key[2] in l[2]:
                    continue
                if key[0] == 'c':
                    return ('maybe', self.opt(l[1], key[2]))
                return ('maybe', ('item', l[1], key))
        return None

    def opt(self, base, name):
        return ('opt', base, name)

    def layers_without(self, layers, names):
        out = []
        for l in layers:
            if l[0] == 'k':
                if l[1][0] == 'c' and l[1][2] in names:
                    continue
                out.append(l)
            else:
                out.append(('rest', l[1], frozenset(l[2]) | frozenset(names)))
        return tuple(out)

    def spread(self, t, st):
        """Layers of `**t`."""
        if t[0] == 'odict':
            t = self.odict_snap(t, st)
        if t[0] == 'ref':
            h = st.heap.get(t[1])
            if h and h[0] == 'D':
                return h[1]
        if t[0] == 'D':
            return t[2]
        if t == NONE:
            return ()
        return (('rest', t, frozenset()),)

    def add_layer(self, layers, key, val):
        if key[0] == 'c':
            layers = tuple(l for l in layers
                           if not (l[0] == 'k' and l[1] == key))
        else:
            layers = tuple(l for l in layers
                           if not (l[0] == 'k' and l[1] == key))
        return layers + (('k', key, val),)

    def merge_layers(self, a, b):
        """a overridden by b."""
        out = tuple(a)
        for l in b:
            if l[0] == 'k':
                out = self.add_layer(out, l[1], l[2])
            else:
                out = out + (l,)
        return out

    # -- external calls -----------------------------------------------------

    def ext_call(self, st, fr, f, args, kw):
        name = f[1]
        short = name[9:] if name.startswith('builtins.') else name
        fn = getattr(self, 'x_' + short.replace('.', '_'), None)
        if self.pol.fold and short in FOLDED and not kw:
            v = self.folded(st, short, args)
            if v is not None:
                return [(st, N, v)]
        if fn is not None and not any(a[0] == '*' for a in args):
            r = fn(st, fr, args, kw)
            if r is not None:
                return r
        if short in ('warnings.warn',) or name not in QUIET:
            e = self.event(st, fr, 'ext', f, args, kw)
        t = ('call', f, tuple(self.freeze(a, st) for a in args),
             self.freeze_layers(kw, st))
        o = ext_object(name)
        # task factories of the standard library
        if isinstance(o, type) and hasattr(o, 'start') and \
                hasattr(o, 'join'):
            kws = dict((l[1][2], l[2]) for l in kw
                       if l[0] == 'k' and l[1][0] == 'c')
            if 'target' in kws:
                ref = self.alloc(st, ('O', 'task', tuple(sorted(
                    [('target', kws['target']),
                     ('args', kws.get('args', NONE)),
                     ('kwargs', kws.get('kwargs', NONE)),
                     ('state', const('new')), ('factory', f)]))))
                self.event(st, fr, 'task-new', f, args, kw, ref)
                return [(st, N, ref)]
        out = [(st, N, t)]
        if name not in NORAISE:
            out += self.maybe_raise(st, show(f))
        return out

    def folded(self, st, name, args):
        vals = []
        for a in args:
            if a[0] == 'c' and isinstance(a[2], (int, float)):
                vals.append(a[2])
                continue
            items = self.known_items(a, st) if name in ('min', 'max', 'sum') \
                else None
            if items is None or any(x[0] != 'c' for x in items):
                return None
            vals.append([x[2] for x in items])
        try:
            v = FOLDED[name](*vals)
        except Exception:
            return None
        if isinstance(v, tuple):
            return ('tup', tuple(const(x) for x in v))
        return const(v)

    def x_isinstance(self, st, fr, args, kw):
        return [(st, N, ('call', ('ext', 'builtins.isinstance'),
                         tuple(args), ()))]

    def x_divmod(self, st, fr, args, kw):
        if len(args) == 2 and not kw:
            a, b = (self.freeze(x, st) for x in args)
            return [(st, N, ('tup', (('bin', '//', a, b),
                                     ('bin', '%', a, b))))]

    def x_len(self, st, fr, args, kw):
        if len(args) == 1:
            items = self.known_items(args[0], st)
            if items is not None:
                return [(st, N, const(len(items)))]
            if args[0][0] == 'c' and args[0][1] == 'str':
                return [(st, N, const(len(args[0][2])))]
            if args[0][0] == 'ref':
                h = st.heap.get(args[0][1])
                if h and h[0] == 'D' and all(l[0] == 'k' for l in h[1]):
                    return [(st, N, const(len(h[1])))]
            return [(st, N, ('call', ('ext', 'builtins.len'),
                             (self.freeze(self.unwrap(args[0]), st),), ()))]

    def x_type(self, st, fr, args, kw):
        if len(args) == 1 and not kw:
            ty = self.type_of(args[0], st)
            if ty is not None:
                return [(st, N, ty)]
            return [(st, N, ('call', ('ext', 'builtins.type'),
                             (self.freeze(args[0], st),), ()))]
        if len(args) == 3:
            ref = self.alloc(st, ('O', 'class', (
                ('__bases__', args[1]), ('__name__', args[0]))))
            h = args[2]
            if h[0] == 'ref' and st.heap.get(h[1], ('',))[0] == 'D':
                attrs = tuple((l[1][2], l[2]) for l in st.heap[h[1]][1]
                              if l[0] == 'k' and l[1][0] == 'c')
                st.heap[ref[1]] = ('O', 'class',
                                   st.heap[ref[1]][2] + attrs)
                if any(l[0] == 'rest' for l in st.heap[h[1]][1]):
                    self.note('class created with an unknown namespace')
            self.event(st, fr, 'ext', ('ext', 'builtins.type'), args, kw, ref)
            return [(st, N, ref)]

    def x_vars(self, st, fr, args, kw):
        if len(args) == 1 and not kw:
            if args[0][0] == 'ref' and st.heap.get(
                    args[0][1], ('',))[0] == 'O':
                return self.getattr_(st, fr, args[0], '__dict__')

    def x_super(self, st, fr, args, kw):
        if len(args) == 2 and args[0][0] == 'cls':
            return [(st, N, ('super', args[0][1], args[1]))]
        if args:
            return None
        f = fr
        while f is not None and f.parent is not None:
            f = f.parent
        fi = self.prog.functions.get(f.qual) if f is not None else None
        if fi is None or fi.cls is None:
            return None
        a = fi.node.args
        first = (a.posonlyargs + a.args)[:1]
        if not first:
            return None
        o = st.env.get((f.fid, first[0].arg))
        if o is None:
            return None
        return [(st, N, ('super', fi.cls.qual, o))]

    def x_hasattr(self, st, fr, args, kw):
        return [(st, N, ('call', ('ext', 'builtins.hasattr'),
                         tuple(self.freeze(a, st) for a in args), ()))]

    def x_getattr(self, st, fr, args, kw):
        if len(args) >= 2 and args[1][0] == 'c' and \
                isinstance(args[1][2], str):
            name = args[1][2]
            if len(args) == 2 and not (args[0][0] == 'ext' and (
                    not name.isidentifier() or
                    args[0][1] == 'builtins' and
                    not hasattr(builtins, name))):
                return self.getattr_(st, fr, args[0], name)
            o = args[0]
            if o[0] == 'ref':
                h = st.heap.get(o[1])
                if h and h[0] == 'O':
                    for k, v in h[2]:
                        if k == args[1][2]:
                            return [(st, N, v)]
        t = ('call', ('ext', 'builtins.getattr'),
             tuple(self.freeze(a, st) for a in args), ())
        out = [(st, N, t)]
        if len(args) == 2:
            out += self.maybe_raise(st, 'getattr')
        return out

    def x_setattr(self, st, fr, args, kw):
        if len(args) == 3:
            if args[1][0] == 'c' and isinstance(args[1][2], str):
                out = self.setattr_(st, fr, args[0], args[1][2], args[2])
            else:
                self.event(st, fr, 'mut', ('attr*', args[0], args[1]),
                           (args[2],), (), extra='setattr')
                out = [(st, N, NONE)]
            extra = []
            for s, c, v in list(out):
                if c == N:
                    extra += self.maybe_raise(s, 'setattr')
            return [(s, c, NONE if c == N else v) for s, c, v in out] + extra

    def x_dict(self, st, fr, args, kw):
        layers = ()
        if len(args) > 1:
            return None
        if args:
            a = self.unwrap(args[0])
            if a[0] == 'mcall' and a[2] == 'items' and not a[3]:
                a = a[1]
            items = self.known_items(a, st)
            if items is not None and all(
                    x[0] == 'tup' and len(x[1]) == 2 for x in items):
                for x in items:
                    layers = self.add_layer(layers, x[1][0], x[1][1])
            elif items is not None:
                return None
            elif a[0] == 'call' and a[1][0] == 'ext' and a[1][1] in (
                    'builtins.zip', 'builtins.map'):
                return None
            else:
                layers = self.spread(a, st)
        layers = self.merge_layers(layers, kw)
        return [(st, N, self.new_dict(st, layers))]

    def unwrap(self, t):
        return t

    def _seq(self, st, fr, args, kind):
        if len(args) > 1:
            return None
        if not args:
            if kind == 'tuple':
                return [(st, N, ('tup', ()))]
            return [(st, N, self.new_list(st, (), kind))]
        a = args[0]
        if 'READ' in self.pol.interest:
            self.event(st, fr, 'read', a)
        if a[0] == 'ref':
            h = st.heap.get(a[1])
            if h and h[0] == 'D':
                if all(l[0] == 'k' for l in h[1]):
                    items = tuple(l[1] for l in h[1])
                else:
                    items = tuple(
                        l[1] if l[0] == 'k' else
                        ('*', ('keys', self.freeze(l[1], st), l[2]))
                        for l in h[1])
                a = ('tup', items)
            elif h and h[0] == 'L':
                a = ('tup', self._ordered(st, h[1], kind, h[2], a))
        if a[0] == 'L':
            a = ('tup', self._ordered(st, a[1], kind, a[3], a))
        if a[0] == 'tup':
            if kind == 'tuple':
                return [(st, N, ('tup', a[1]))]
            return [(st, N, self.new_list(st, a[1], kind))]
        if a[0] == 'call' and a[1][0] == 'ext' and a[1][1] in (
                'builtins.zip', 'builtins.enumerate', 'builtins.map',
                'builtins.filter', 'builtins.reversed') and \
                kind in ('list', 'tuple'):
            if a[1][1] in ('builtins.map', 'builtins.filter'):
                return None
            k, els = self.elements(a, st)
            if k == 'known':
                els = tuple(els)
                return [(st, N, ('tup', els) if kind == 'tuple'
                         else self.new_list(st, els, kind))]
        if kind == 'tuple':
            return [(st, N, ('tup', (('*', a),)))]
        return [(st, N, self.new_list(st, (('*', a),), kind))]

    def _ordered(self, st, was, kind, items, t):
        """The items, as one unknown run if a set lost their order."""
        if was in ('set', 'frozenset') and kind in ('list', 'tuple') and \
                len(items) > 1:
            return (('*', self.freeze(t, st)),)
        return items

    def x_list(self, st, fr, args, kw):
        r = self._lazy(st, fr, args)
        if r is not None:
            out = []
            for s, c, v in r:
                if c == N:
                    out += self._seq(s, fr, (v,), 'list')
                else:
                    out.append((s, c, v))
            return out
        return self._seq(st, fr, args, 'list')

    def x_tuple(self, st, fr, args, kw):
        r = self._lazy(st, fr, args)
        if r is not None:
            out = []
            for s, c, v in r:
                if c == N:
                    out += self._seq(s, fr, (v,), 'tuple')
                else:
                    out.append((s, c, v))
            return out
        return self._seq(st, fr, args, 'tuple')

    def x_set(self, st, fr, args, kw):
        return self._seq(st, fr, args, 'set')

    def x_frozenset(self, st, fr, args, kw):
        return self._seq(st, fr, args, 'frozenset')

    def x_collections_deque(self, st, fr, args, kw):
        return self._seq(st, fr, args, 'deque')

    def x_iter(self, st, fr, args, kw):
        return [(st, N, args[0])] if len(args) == 1 else None

    def x_typing_cast(self, st, fr, args, kw):
        return [(st, N, args[1])] if len(args) == 2 else None

    def x_copy_copy(self, st, fr, args, kw):
        return self._copy(st, args[0]) if len(args) == 1 else None

    def _copy(self, st, o):
        if o[0] == 'ref' and o[1] in st.heap:
            h = st.heap[o[1]]
            return [(st, N, self.alloc(st, h))]
        return [(st, N, ('copy', self.freeze(o, st)))]

    def x_copy_deepcopy(self, st, fr, args, kw):
        if len(args) >= 1:
            return [(st, N, ('deepcopy', self.freeze(args[0], st)))]

    def _lazy(self, st, fr, args):
        """Evaluate map/filter objects when consumed."""
        if len(args) == 1 and args[0][0] == 'lazy':
            return self.force(st, fr, args[0])
        return None

    def force(self, st, fr, lz):
        """Evaluate ('lazy','map'|'filter', f, iters) to a list."""
        kind, f, its = lz[1], lz[2], lz[3]
        out = []
        lst = self.new_list(st, ())
        st.env[(lst, '<lazy>')] = lst
        it = its[0] if len(its) == 1 else (
            'call', ('ext', 'builtins.zip'), tuple(its), ())

        def body(s, elem):
            args = (elem,) if len(its) == 1 else (
                elem[1] if elem[0] == 'tup' else (('*', elem),))
            res = []
            for s1, c, v in self.call(s, fr, f, tuple(args), ()):
                if c != N:
                    res.append((s1, c, v))
                    continue
                if kind == 'map':
                    h = s1.heap[lst[1]]
                    s1.heap[lst[1]] = ('L', h[1], h[2] + (v,))
                    res.append((s1, N, None))
                else:
                    for s2, b in self.split(s1, v):
                        if b:
                            h = s2.heap[lst[1]]
                            s2.heap[lst[1]] = ('L', h[1], h[2] + (elem,))
                        res.append((s2, N, None))
            return res
        for s, c, v in self.iterate(st, fr, it, body, fr.line):
            s.env.pop((lst, '<lazy>'), None)
            out.append((s, c, lst if c == N else v))
        return out

    def x_next(self, st, fr, args, kw):
        h = st.heap.get(args[0][1]) if args and args[0][0] == 'ref' else None
        if not h or h[0] != 'L' or h[1] != 'generator' or \
                any(x[0] == '*' for x in h[2]):
            return None
        if h[2]:
            st.heap[args[0][1]] = ('L', h[1], h[2][1:])
            return [(st, N, h[2][0])]
        if len(args) > 1:
            return [(st, N, args[1])]
        return [(st, X, ('call', ('ext', 'builtins.StopIteration'), (),
                         ()))]

    def x_zip(self, st, fr, args, kw):
        # collections of known items: keep the identity of the items
        its = [self.known_items(a, st) for a in args]
        if its and not kw and all(i is not None for i in its) and any(
                x[0] == 'ref' for i in its for x in i):
            return [(st, N, self.new_list(st, tuple(
                ('tup', tuple(x)) for x in zip(*its)), 'generator'))]
        return None

    def x_map(self, st, fr, args, kw):
        if len(args) >= 2:
            return [(st, N, ('lazy', 'map', args[0], tuple(args[1:])))]

    def x_filter(self, st, fr, args, kw):
        if len(args) == 2 and args[0] != NONE:
            return [(st, N, ('lazy', 'filter', args[0], tuple(args[1:])))]

    def x_functools_partial(self, st, fr, args, kw):
        if args:
            return [(st, N, ('partial', args[0], tuple(args[1:]),
                             tuple(kw)))]

    def x_str(self, st, fr, args, kw):
        if len(args) == 1:
            a = args[0]
            if a[0] == 'fmt' or (a[0] == 'c' and a[1] == 'str'):
                return [(st, N, a)]
            if a[0] == 'c' and a[1] in ('int', 'NoneType', 'bool'):
                return [(st, N, const(str(a[2])))]
            return [(st, N, ('fmt', (self.freeze(a, st),)))]

    def x_bool(self, st, fr, args, kw):
        if len(args) == 1:
            b = self.static_truth(args[0], st)
            if b is not None:
                return [(st, N, const(b))]
            return [(st, N, ('call', ('ext', 'builtins.bool'),
                             (self.freeze(args[0], st),), ()))]

    def x_any(self, st, fr, args, kw):
        return self._anyall(st, args, True)

    def x_all(self, st, fr, args, kw):
        return self._anyall(st, args, False)

    def _anyall(self, st, args, stop):
        if len(args) != 1:
            return None
        items = self.known_items(args[0], st)
        if items is None:
            return None
        live = [st]
        out = []
        for x in items:
            nxt = []
            for s in live:
                for s2, b in self.split(s, x):
                    if b == stop:
                        out.append((s2, N, const(stop)))
                    else:
                        nxt.append(s2)
            live = nxt
        out += [(s, N, const(not stop)) for s in live]
        return out

    def x_min(self, st, fr, args, kw):
        return [(st, N, ('call', ('ext', 'builtins.min'),
                         tuple(self.freeze(a, st) for a in args),
                         self.freeze_layers(kw, st)))]

    # -- attributes and items ----------------------------------------------

    def typed(self, t):
        """Package class of which term t is a class object or instance:
        ('class', q) / ('inst', q) / None."""
        if t[0] == 'sym' and len(t) > 2:
            return t[2]
        if t[0] in ('opt', 'sym') and self.holder is not None:
            nm = t[2] if t[0] == 'opt' else t[1]
            if nm == 'fork_inst':
                return ('class', self.holder.qual)
        if t[0] == 'cls':
            return ('class', t[1])
        return None

    def getattr_(self, st, fr, o, name):
        k = o[0]
        key = (o, 'attr', name)
        if key in st.store:
            return [(st, N, st.store[key])]
        if k == 'mod':
            v = self.global_name(o[1], name)
            return [(st, N, v)]
        if k == 'ext':
            if name in ('__name__', '__qualname__') and \
                    o[1].startswith('builtins.') and o[1].count('.') == 1:
                return [(st, N, const(o[1][9:]))]
            return [(st, N, ('ext', o[1] + '.' + name))]
        if k == 'super':
            return self.super_attr(st, fr, o, name)
        if k == 'ref':
            h = st.heap.get(o[1])
            if h and h[0] == 'O' and name == '__dict__' and h[1] not in (
                    'task', 'class'):
                return [(st, N, ('odict', o))]
            if h and h[0] == 'O' and name == '__class__' and \
                    isinstance(h[1], tuple):
                return [(st, N, h[1])]
            if h and h[0] == 'O':
                for kk, v in reversed(h[2]):
                    if kk == name:
                        return [(st, N, v)]
                if isinstance(h[1], tuple) and h[1][0] == 'cls':
                    m = self.find_member(h[1][1], name)
                    if isinstance(m, FuncInfo):
                        return self._member(st, fr, m, o, h[1])
                    if m is not None:
                        return [(st, N, ('attr', h[1], name))]
                if h[1] == 'class':
                    # inherited through the first base
                    d = dict(h[2])
                    bases = d.get('__bases__')
                    if bases and bases[0] == 'tup' and bases[1]:
                        return [(st, N, ('inherit', o, bases[1][0], name))]
            return [(st, N, ('attr', o, name))]
        if k == 'cls':
            m = self.find_member(o[1], name)
            if isinstance(m, FuncInfo):
                return self._member(st, fr, m, None, o)
            if m is not None:
                v = self.class_const(o[1], name, m)
                return [(st, N, v)]
            if name == '__name__':
                return [(st, N, const(o[1].rsplit('.', 1)[1]))]
            if self.pol.exc_objects and name == '__new__' and \
                    self.is_exception_class(o[1]):
                return [(st, N, ('ext', self.ext_base(o[1]) + '.__new__'))]
            if self.pol.exc_objects and name == '__init__' and \
                    self.is_exception_class(o[1]):
                return [(st, N, ('ext', self.ext_base(o[1]) + '.__init__'))]
            return [(st, N, ('attr', o, name))]
        if k == 'func' and name == '__name__':
            return [(st, N, const(o[1].rsplit('.', 1)[1]))]
        ty = self.typed(o)
        if ty is not None:
            m = self.find_member(ty[1], name)
            if isinstance(m, FuncInfo):
                return self._member(st, fr, m,
                                    o if ty[0] == 'inst' else None,
                                    o if ty[0] == 'class'
                                    else ('attr', o, '__class__'))
        if k == 'new':
            return [(st, N, ('attr', o, name))]
        if name == '__class__':
            tt = self.type_of(o, st)
            if tt is not None:
                return [(st, N, tt)]
        out = [(st, N, ('attr', self.freeze(o, st), name))]
        if self.pol.exc_parts and k == 'exc' and not name.startswith(
                '__') and name not in ('args', 'with_traceback', 'add_note'):
            out += self.part_missing(st, o, 'attribute ' + name)
        if not (name.startswith('__') and name.endswith('__')) and \
                k not in ('exc',) and not name.startswith('_'):
            if self.pol.ext_raise == 'attr':
                out += self.maybe_raise(st, 'attribute ' + name)
        return out

    def class_const(self, q, name, node):
        c = self.prog.classes[q]
        for e in self.prog.mro(c):
            if e and e[0] == 'class' and name in e[1].members:
                c = e[1]
                break
        isenum = any(e and e[0] == 'ext' and e[1].startswith('enum.')
                     for e in self.prog.mro(c))
        if isenum:
            return ('attr', ('cls', q), name)
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, ast.Name):
            r = self.prog.resolve_name(c.module.name, node.id)
            if r and r[0] == 'class':
                return ('cls', r[1].qual)
        return ('attr', ('cls', c.qual), name)

    def _member(self, st, fr, m, inst, clsterm):
        kinds = self.deco_kind(m)
        if 'staticmethod' in kinds:
            return [(st, N, ('func', m.qual))]
        if 'classmethod' in kinds:
            return [(st, N, ('bm', clsterm, ('func', m.qual)))]
        if 'property' in kinds:
            if inst is None:
                return [(st, N, ('func', m.qual))]
            return self.call(st, fr, ('func', m.qual), (inst,), ())
        if inst is None:
            return [(st, N, ('func', m.qual))]
        return [(st, N, ('bm', inst, ('func', m.qual)))]

    def setattr_(self, st, fr, o, name, val):
        if o[0] == 'ref' and st.heap.get(o[1], ('',))[0] == 'O':
            h = st.heap[o[1]]
            st.heap[o[1]] = ('O', h[1], tuple(
                (k, v) for k, v in h[2] if k != name) + ((name, val),))
            self.event(st, fr, 'setattr', o, (const(name), val))
            return [(st, N, NONE)]
        self.event(st, fr, 'mut', ('attr', o, name), (val,), (),
                   extra='attr=')
        st.store[(o, 'attr', name)] = val
        return [(st, N, NONE)]

    def getitem_(self, st, fr, o, key):
        skey = (self.freeze(o, st) if o[0] != 'ref' else o, 'item', key)
        if skey in st.store:
            v = st.store[skey]
            if v is not None:
                return [(st, N, v)]
        k = o[0]
        if k == 'odict':
            o = self.odict_snap(o, st)
            k = 'ref'
        if k == 'ref':
            h = st.heap.get(o[1])
            if h and h[0] == 'D':
                g = self.layer_get(h[1], key[2] if key[0] == 'c' and
                                   isinstance(key[2], str) else key, st)
                if g is None:
                    return [(st, X, ('call', ('ext', 'builtins.KeyError'),
                                     (key,), ()))]
                out = [(st, N, g[1])]
                if g[0] == 'maybe':
                    out += self.maybe_raise(st, 'key lookup')
                return out
            if h and h[0] == 'L':
                r = self._index(h[2], key)
                if r is not None:
                    return [(st, N, r)]
                if key[0] == 'c' and isinstance(key[2], int) and \
                        not any(x[0] == '*' for x in h[2]):
                    return [(st, X, ('call', ('ext', 'builtins.IndexError'),
                                     (key,), ()))]
                return [(st, N, ('item', self.freeze(o, st), key))] + \
                    self.maybe_raise(st, 'index')
        if k == 'tup':
            r = self._index(o[1], key)
            if r is not None:
                return [(st, N, r)]
        if k == 'c' and key[0] == 'c' and isinstance(o[2], str):
            try:
                return [(st, N, const(o[2][key[2]]))]
            except (IndexError, TypeError):
                pass
        if k in ('ext', 'cls'):
            return [(st, N, ('item', o, self.freeze(key, st)))]
        # idx normalisation: seq[idx(seq, i)] is elem(seq, i)
        fo = self.freeze(o, st)
        if key[0] == 'idx' and key[1] == fo:
            return [(st, N, ('elem', fo, key[2]))]
        if fo[0] == 'L' and key[0] == 'idx' and len(fo[3]) == 1 and \
                fo[3][0][0] == '*' and key[1] == fo[3][0][1]:
            return [(st, N, ('elem', key[1], key[2]))]
        if k == 'call' and o[1] == ('ext', 'builtins.vars') and \
                key[0] == 'c' and isinstance(key[2], str):
            return [(st, N, ('attr', o[2][0], key[2]))]
        out = [(st, N, ('item', fo, self.freeze(key, st)))]
        if self.pol.exc_parts and fo[0] == 'attr' and fo[2] == 'args' and \
                fo[1][0] == 'exc':
            out += self.part_missing(st, fo, 'item of the arguments')
        out += self.maybe_raise(st, 'lookup [%s]' % show(key), key[0] == 'c'
                                and self.is_frail(st, fo, key))
        return out

    def part_missing(self, st, t, what):
        """Reading a part that a caught error need not have, when nothing
        is known about the part or the error."""
        for c, v in st.facts.items():
            if contains(c, t) and (
                    c[0] != 'isinst' or v and c[2] not in (
                        ('ext', 'builtins.Exception'),
                        ('ext', 'builtins.BaseException'))):
                return []
        st2 = self.fork(st)
        return [(st2, X, ('exc', self.pid(st2, 'x'),
                          what + ' of a caught error'))]

    def _index(self, items, key):
        if key[0] == 'c' and isinstance(key[2], int) and \
                not isinstance(key[2], bool):
            i = key[2]
            if i >= 0 and i < len(items) and not any(
                    x[0] == '*' for x in items[:i + 1]):
                return items[i]
            if i < 0 and -i <= len(items) and not any(
                    x[0] == '*' for x in items[i:]):
                return items[i]
            if i == 0 and items and items[0][0] == '*' and len(items) == 1:
                return ('item', items[0][1], key)
        return None

    @staticmethod
    def _plain_index(items, key):
        """A constant index of a list whose elements are all known."""
        return key[0] == 'c' and isinstance(key[2], int) and not any(
            x[0] == '*' for x in items) and \
            -len(items) <= key[2] < len(items)

    def setitem_(self, st, fr, o, key, val):
        if o[0] == 'ref':
            h = st.heap.get(o[1])
            if h and h[0] == 'D':
                st.heap[o[1]] = ('D', self.add_layer(h[1], key, val))
                self.event(st, fr, 'setitem', o, (key, val))
                return [(st, N, NONE)]
            if h and h[0] == 'L':
                self.event(st, fr, 'setitem', o, (key, val))
                if self._plain_index(h[2], key):
                    items = list(h[2])
                    items[key[2]] = val
                    st.heap[o[1]] = ('L', h[1], tuple(items))
                else:
                    st.store[(o, 'item', key)] = val
                return [(st, N, NONE)]
        self.event(st, fr, 'mut', ('item', o, key), (val,), (),
                   extra='item=')
        st.store[(self.freeze(o, st) if o[0] != 'ref' else o, 'item',
                  key)] = val
        return [(st, N, NONE)]

    def delitem_(self, st, fr, o, key):
        if o[0] == 'ref':
            h = st.heap.get(o[1])
            if h and h[0] == 'D':
                self.event(st, fr, 'delitem', o, (key,))
                if key[0] == 'c':
                    st.heap[o[1]] = ('D', self.layers_without(
                        h[1], {key[2]}))
                else:
                    st.heap[o[1]] = ('D', tuple(
                        l for l in h[1] if not (l[0] == 'k' and l[1] == key)))
                return [(st, N, NONE)] + self.maybe_raise(st, 'del')
            if h and h[0] == 'L':
                self.event(st, fr, 'delitem', o, (key,))
                if self._plain_index(h[2], key):
                    items = list(h[2])
                    del items[key[2]]
                    st.heap[o[1]] = ('L', h[1], tuple(items))
                return [(st, N, NONE)]
        self.event(st, fr, 'mut', ('item', o, key), (), (), extra='del')
        return [(st, N, NONE)] + self.maybe_raise(st, 'del')

    def method_call(self, st, fr, o, name, args, kw):
        """o.name(*args, **kw)"""
        k = o[0]
        h = st.heap.get(o[1]) if k == 'ref' else None
        if h is not None:
            r = None
            if h[0] == 'D':
                r = self.dict_method(st, fr, o, h, name, args, kw)
            elif h[0] == 'L':
                r = self.list_method(st, fr, o, h, name, args, kw)
            elif h[0] == 'O' and h[1] == 'task':
                r = self.task_method(st, fr, o, h, name, args, kw)
            if r is not None:
                return r
        if k == 'c' and isinstance(o[2], str):
            if name == 'format':
                r = self.fmt_format(o[2], args, kw, st)
                if r is not None:
                    return [(st, N, r)]
            if name in STR_FOLD and not kw and all(
                    a[0] == 'c' for a in args):
                try:
                    v = getattr(o[2], name)(*[a[2] for a in args])
                    return [(st, N, self.from_py(st, v))]
                except Exception:
                    pass
            if name == 'join' and len(args) == 1:
                items = self.known_items(args[0], st)
                if items is not None and all(x[0] == 'c' for x in items):
                    try:
                        return [(st, N, const(o[2].join(
                            x[2] for x in items)))]
                    except TypeError:
                        pass
        if name == 'get' and k not in ('c', 'ext', 'mod') and args and \
                len(args) <= 2:
            d = args[1] if len(args) > 1 else NONE
            fo = self.freeze(o, st)
            skey = (fo, 'item', args[0])
            if st.store.get(skey) is not None:
                return [(st, N, st.store[skey])]
            self.event(st, fr, 'get', ('attr', o, name), args, kw)
            return [(st, N, ('get', fo, self.freeze(args[0], st),
                             self.freeze(d, st)))]
        if name == 'copy' and not args and not kw:
            return self._copy(st, o)
        if name == '__getitem__' and len(args) == 1:
            return self.getitem_(st, fr, o, args[0])
        if name == '__contains__' and len(args) == 1:
            return [(st, N, ('cmp', 'in', args[0], o))]
        if name in ('items', 'keys', 'values') and not args:
            return [(st, N, ('mcall', self.freeze(o, st), name, (), ()))]
        if name in MUTATORS and k not in ('ext', 'mod', 'c'):
            # mutation of an opaque object
            self.event(st, fr, 'mut', o, args, kw, extra='.' + name)
            if name == '__setitem__' and len(args) == 2:
                st.store[(self.freeze(o, st), 'item', args[0])] = args[1]
            t = ('mcall', self.freeze(o, st), name,
                 tuple(self.freeze(a, st) for a in args),
                 self.freeze_layers(kw, st))
            return [(st, N, t)] + self.maybe_raise(st, name)
        if k in ('ext', 'mod'):
            return self.ext_call(st, fr, ('ext', o[1] + '.' + name), args,
                                 kw)
        t = ('mcall', self.freeze(o, st), name,
             tuple(self.freeze(a, st) for a in args),
             self.freeze_layers(kw, st))
        self.event(st, fr, 'mcall', ('attr', o, name), args, kw, t)
        return [(st, N, t)] + self.maybe_raise(
            st, '.' + name, name == 'decode' and self.is_frail(st, t[1]))

    def from_py(self, st, v):
        if isinstance(v, (list, tuple)):
            items = tuple(self.from_py(st, x) for x in v)
            return ('tup', items) if isinstance(v, tuple) else \
                self.new_list(st, items)
        return const(v)

    def dict_method(self, st, fr, o, h, name, args, kw):
        layers = h[1]
        if any(a[0] == '*' for a in args):
            return None
        if name == 'get' and args:
            d = args[1] if len(args) > 1 else NONE
            g = self.layer_get(layers, args[0], st)
            if g is None:
                return [(st, N, d)]
            if g[0] == 'sure':
                return [(st, N, g[1])]
            if g[1][0] == 'opt':
                return [(st, N, g[1])]
            return [(st, N, ('get', ('D', o[1], self.freeze_layers(
                layers, st)), args[0], d))]
        if name == 'pop' and args:
            g = self.layer_get(layers, args[0], st)
            if args[0][0] == 'c':
                st.heap[o[1]] = ('D', self.layers_without(
                    layers, {args[0][2]}))
            else:
                st.heap[o[1]] = ('D', tuple(
                    l for l in layers
                    if not (l[0] == 'k' and l[1] == args[0])))
            if g is None:
                if len(args) > 1:
                    return [(st, N, args[1])]
                return [(st, X, ('call', ('ext', 'builtins.KeyError'),
                                 (args[0],), ()))]
            return [(st, N, g[1])]
        if name == 'update':
            if args:
                items = self.known_items(args[0], st)
                if items is not None and all(
                        x[0] == 'tup' and len(x[1]) == 2 for x in items):
                    add = tuple(('k', x[1][0], x[1][1]) for x in items)
                else:
                    add = self.spread(args[0], st)
                layers = self.merge_layers(layers, add)
            layers = self.merge_layers(layers, kw)
            st.heap[o[1]] = ('D', layers)
            self.event(st, fr, 'dictupdate', o, args, kw)
            return [(st, N, NONE)]
        if name == 'setdefault' and args:
            d = args[1] if len(args) > 1 else NONE
            g = self.layer_get(layers, args[0], st)
            if g is None:
                st.heap[o[1]] = ('D', self.add_layer(layers, args[0], d))
                return [(st, N, d)]
            return [(st, N, g[1])]
        if name == 'copy':
            return [(st, N, self.new_dict(st, layers))]
        if name == 'clear':
            st.heap[o[1]] = ('D', ())
            return [(st, N, NONE)]
        if name in ('items', 'keys', 'values'):
            return [(st, N, ('view', name, o))]
        if name in ('__setitem__',) and len(args) == 2:
            return self.setitem_(st, fr, o, args[0], args[1])
        if name == '__getitem__' and len(args) == 1:
            return self.getitem_(st, fr, o, args[0])
        return None

    def list_method(self, st, fr, o, h, name, args, kw):
        items = h[2]
        if any(a[0] == '*' for a in args):
            return None
        if name in ('append', 'add') and len(args) == 1:
            st.heap[o[1]] = ('L', h[1], items + (args[0],))
            self.event(st, fr, 'append', o, args)
            return [(st, N, NONE)]
        if name in ('extend', 'update') and len(args) == 1:
            out = []
            r = self._lazy(st, fr, args)
            for s, c, v in (r if r is not None else [(st, N, args[0])]):
                if c != N:
                    out.append((s, c, v))
                    continue
                q = self._seq(s, fr, (v,), 'list')
                add = s.heap[q[0][2][1]][2]
                hh = s.heap[o[1]]
                s.heap[o[1]] = ('L', hh[1], hh[2] + add)
                self.event(s, fr, 'append', o, (v,))
                out.append((s, N, NONE))
            return out
        if name == 'insert' and len(args) == 2:
            if args[0] == const(0):
                st.heap[o[1]] = ('L', h[1], (args[1],) + items)
            else:
                st.heap[o[1]] = ('L', h[1], items + (args[1],))
            self.event(st, fr, 'append', o, args[1:])
            return [(st, N, NONE)]
        if name == 'pop' and items and not any(x[0] == '*' for x in items):
            if not args or args[0] == const(-1):
                st.heap[o[1]] = ('L', h[1], items[:-1])
                return [(st, N, items[-1])]
            if args[0] == const(0):
                st.heap[o[1]] = ('L', h[1], items[1:])
                return [(st, N, items[0])]
        if name == 'popleft' and items and items[0][0] != '*':
            st.heap[o[1]] = ('L', h[1], items[1:])
            return [(st, N, items[0])]
        if name == 'copy':
            return [(st, N, self.new_list(st, items, h[1]))]
        if name == 'clear':
            st.heap[o[1]] = ('L', h[1], ())
            return [(st, N, NONE)]
        if name in ('sort', 'reverse'):
            self.event(st, fr, 'reorder', o, args, kw)
            if name == 'reverse':
                st.heap[o[1]] = ('L', h[1], tuple(reversed(items)))
            return [(st, N, NONE)]
        return None

    def task_method(self, st, fr, o, h, name, args, kw):
        d = dict(h[2])

        def upd(s, **kv):
            hh = dict(s.heap[o[1]][2])
            hh.update(kv)
            s.heap[o[1]] = ('O', 'task', tuple(sorted(hh.items())))
        if name == 'start':
            self.event(st, fr, 'task-start', o)
            upd(st, state=const('started'))
            targs = self.known_items(d['args'], st) if d['args'] != NONE \
                else ()
            if targs is None:
                targs = (('*', d['args']),)
            tkw = self.spread(d['kwargs'], st) if d['kwargs'] != NONE else ()
            st.tasks = st.tasks + (o,)
            saved = st.tries
            st.tries = saved + (('task', o),)
            out = []
            for s, c, v in self.call(st, fr, d['target'], targs, tkw):
                s.tasks = s.tasks[:-1]
                s.tries = saved
                if c == X:
                    self.event(s, fr, 'task-lost', o, (v,))
                    out.append((s, N, NONE))
                else:
                    out.append((s, N, NONE))
            return out
        if name == 'join':
            self.event(st, fr, 'task-join', o, args, kw)
            upd(st, state=const('joined'))
            return [(st, N, NONE)]
        return None

    # -- string formatting --------------------------------------------------

    def mkfmt(self, parts):
        out = []
        for p in parts:
            if p[0] == 'fmt':
                seq = p[1]
            else:
                seq = (p,)
            for q in seq:
                if q[0] == 'c' and q[1] in ('str', 'int'):
                    q = const(str(q[2]))
                if q[0] == 'c' and q[1] == 'str' and out and \
                        out[-1][0] == 'c' and out[-1][1] == 'str':
                    out[-1] = const(out[-1][2] + q[2])
                elif q[0] == 'c' and q[1] == 'str' and q[2] == '':
                    continue
                else:
                    out.append(q)
        if not out:
            return const('')
        if len(out) == 1 and out[0][0] == 'c' and out[0][1] == 'str':
            return out[0]
        return ('fmt', tuple(out))

    def fmt_format(self, s, args, kw, st):
        import string
        if any(a[0] == '*' for a in args):
            return None
        kws = {l[1][2]: l[2] for l in kw if l[0] == 'k' and l[1][0] == 'c'}
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if '{' in (spec or ''):
                    return None
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kws:
                    v = kws[field]
                else:
                    return None
                v = self.freeze(v, st)
                if spec or (conv and conv != 's'):
                    v = spec_term(v, conv if conv != 's' else None, spec)
                parts.append(v)
        except (ValueError, IndexError):
            return None
        return self.mkfmt(parts)

    def fmt_percent(self, s, arg, st):
        import re
        args = arg[1] if arg[0] == 'tup' else (arg,)
        parts = []
        i = 0
        pos = 0
        for m in re.finditer(r'%([-+ #0]*\d*(?:\.\d+)?)(.)', s):
            parts.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group() == '%%':
                parts.append(const('%'))
            elif m.group(2) in 'sdrif':
                if i >= len(args):
                    return None
                v = self.freeze(args[i], st)
                if m.group(2) == 'r':
                    v = spec_term(v, 'r', m.group(1))
                elif m.group(1) or m.group(2) == 'f':
                    v = spec_term(v, None, m.group(1) + m.group(2).replace(
                        'i', 'd').replace('s', ''))
                parts.append(v)
                i += 1
            else:
                return None
        parts.append(const(s[pos:]))
        return self.mkfmt(parts)

    # -- expressions --------------------------------------------------------

    def evs(self, exprs, st, fr):
        """Evaluate a sequence: list of (st, ctl, [vals] | exc)."""
        live = [(st, [])]
        out = []
        for e in exprs:
            nxt = []
            for s, vals in live:
                if isinstance(e, ast.Starred):
                    rs = [(s1, c, ('*', v) if c == N else v)
                          for s1, c, v in self.ev(e.value, s, fr)]
                else:
                    rs = self.ev(e, s, fr)
                for s1, c, v in rs:
                    if c == N:
                        nxt.append((s1, vals + [v]))
                    else:
                        out.append((s1, c, v))
            live = nxt
        return [(s, N, v) for s, v in live] + out

    def ev(self, e, st, fr):
        if hasattr(e, 'lineno'):
            fr.line = e.lineno
            self.cur = (fr.qual, e.lineno, e.col_offset, type(e).__name__)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('unsupported expression %s' % type(e).__name__)
            return [(st, N, ('unknown', type(e).__name__,
                             self.pid(st, 'u')))]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, N, const(e.value))]

    def e_Name(self, e, st, fr):
        return [(st, N, self.lookup(e.id, st, fr))]

    def e_Attribute(self, e, st, fr):
        out = []
        for s, c, o in self.ev(e.value, st, fr):
            if c != N:
                out.append((s, c, o))
                continue
            fr.line = e.lineno
            out += self.getattr_(s, fr, o, e.attr)
        return out

    def e_Subscript(self, e, st, fr):
        out = []
        for s, c, o in self.ev(e.value, st, fr):
            if c != N:
                out.append((s, c, o))
                continue
            if isinstance(e.slice, ast.Slice):
                parts = [e.slice.lower, e.slice.upper, e.slice.step]
                present = [p for p in parts if p is not None]
                for s2, c2, vs in self.evs(present, s, fr):
                    if c2 != N:
                        out.append((s2, c2, vs))
                        continue
                    it = iter(vs)
                    a, b, d = [next(it) if p is not None else NONE
                               for p in parts]
                    out.append((s2, N, self.slice_(s2, o, a, b, d)))
                continue
            for s2, c2, key in self.ev(e.slice, s, fr):
                if c2 != N:
                    out.append((s2, c2, key))
                    continue
                fr.line = e.lineno
                out += self.getitem_(s2, fr, o, key)
        return out

    def slice_(self, st, o, a, b, d):
        items = self.known_items(o, st)
        if items is not None and all(x[0] == 'c' for x in (a, b, d)):
            v = tuple(items)[slice(a[2], b[2], d[2])]
            if o[0] == 'tup':
                return ('tup', v)
            return self.new_list(st, v)
        if o[0] == 'c' and all(x[0] == 'c' for x in (a, b, d)):
            try:
                return const(o[2][slice(a[2], b[2], d[2])])
            except TypeError:
                pass
        if a in (NONE, const(0)) and b == NONE and d in (NONE, const(1)):
            return ('copy', self.freeze(o, st))
        return ('slice', self.freeze(o, st), a if a != NONE else const(0),
                self.freeze(b, st), self.freeze(d, st))

    def e_Tuple(self, e, st, fr):
        out = []
        for s, c, vs in self.evs(e.elts, st, fr):
            out.append((s, c, ('tup', self.flat(vs, s)) if c == N else vs))
        return out

    def flat(self, vs, st):
        items = []
        for v in vs:
            if v[0] == '*':
                k = self.known_items(v[1], st)
                if k is not None:
                    items.extend(k)
                    continue
                if v[1][0] == 'ref' and st.heap[v[1][1]][0] == 'L':
                    items.extend(st.heap[v[1][1]][2])
                    continue
            items.append(v)
        return tuple(items)

    def e_List(self, e, st, fr):
        out = []
        for s, c, vs in self.evs(e.elts, st, fr):
            out.append((s, c, self.new_list(s, self.flat(vs, s))
                        if c == N else vs))
        return out

    def e_Set(self, e, st, fr):
        out = []
        for s, c, vs in self.evs(e.elts, st, fr):
            out.append((s, c, self.new_list(s, self.flat(vs, s), 'set')
                        if c == N else vs))
        return out

    def e_Dict(self, e, st, fr):
        live = [(st, ())]
        out = []
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, layers in live:
                if k is None:
                    for s1, c, t in self.ev(v, s, fr):
                        if c != N:
                            out.append((s1, c, t))
                        else:
                            nxt.append((s1, self.merge_layers(
                                layers, self.spread(t, s1))))
                    continue
                for s1, c, vs in self.evs([k, v], s, fr):
                    if c != N:
                        out.append((s1, c, vs))
                    else:
                        nxt.append((s1, self.add_layer(layers, vs[0],
                                                       vs[1])))
            live = nxt
        return [(s, N, self.new_dict(s, l)) for s, l in live] + out

    def e_JoinedStr(self, e, st, fr):
        exprs = []
        for v in e.values:
            exprs.append(v.value if isinstance(v, ast.FormattedValue) else v)
        out = []
        for s, c, vs in self.evs(exprs, st, fr):
            if c != N:
                out.append((s, c, vs))
                continue
            parts = []
            for node, v in zip(e.values, vs):
                v = self.freeze(v, s)
                if isinstance(node, ast.FormattedValue) and (
                        node.format_spec is not None
                        or node.conversion not in (-1, 115)):
                    v = spec_of(v, node.conversion, node.format_spec)
                parts.append(v)
            out.append((s, N, self.mkfmt(parts)))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        return [(st, N, self.closure(e, fr, '<lambda>'))]

    def closure(self, node, fr, name):
        # one closure per (node, frame) so that terms stay comparable
        key = (id(node), fr.fid)
        for n, c in self.closures.items():
            if c.key == key:
                return ('clo', n)
        n = self.iid('clo', id(node), fr.fid)
        c = Closure(node, fr, fr.qual + '.<locals>.' + name, fr.module)
        c.key = key
        self.closures[n] = c
        return ('clo', n)

    def e_IfExp(self, e, st, fr):
        out = []
        for s, c, b in self.cond(e.test, st, fr):
            if c != N:
                out.append((s, c, b))
            else:
                out += self.ev(e.body if b else e.orelse, s, fr)
        return out

    def cond(self, e, st, fr):
        """Evaluate e for its truth: list of (st, N, bool) or exceptions."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, c, (not b) if c == N else b)
                    for s, c, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            isor = isinstance(e.op, ast.Or)
            live = [st]
            out = []
            for v in e.values:
                nxt = []
                for s in live:
                    for s1, c, b in self.cond(v, s, fr):
                        if c != N:
                            out.append((s1, c, b))
                        elif b == isor:
                            out.append((s1, N, isor))
                        else:
                            nxt.append(s1)
                live = nxt
            return out + [(s, N, not isor) for s in live]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ('any', 'all') and len(e.args) == 1 and \
                isinstance(e.args[0], ast.GeneratorExp) and \
                self.lookup(e.func.id, st, fr) == \
                ('ext', 'builtins.' + e.func.id):
            return self._anyall_gen(e.args[0], st, fr, e.func.id == 'any')
        out = []
        for s, c, v in self.ev(e, st, fr):
            if c != N:
                out.append((s, c, v))
            else:
                out += [(s1, N, b) for s1, b in self.split(s, v)]
        return out

    def _anyall_gen(self, g, st, fr, stop):
        found = '<any>'
        nf = Frame(self.pid(st, 'any'), None, fr.module, fr, {found},
                   fr.qual)
        nf.line = fr.line
        st.env[(nf.fid, found)] = const(not stop)

        def leaf(s, f):
            out = []
            for s1, c, b in self.cond(g.elt, s, f):
                if c != N:
                    out.append((s1, c, b))
                elif b == stop:
                    s1.env[(nf.fid, found)] = const(stop)
                    out.append((s1, B, None))
                else:
                    out.append((s1, N, None))
            return out
        res = self.comp_loops(g.generators, 0, st, nf, leaf, quiet=True)
        return [(s, c if c == X else N,
                 s.env[(nf.fid, found)][2] if c != X else v)
                for s, c, v in res]

    def e_BoolOp(self, e, st, fr):
        isor = isinstance(e.op, ast.Or)
        live = [st]
        out = []
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in live:
                for s1, c, t in self.ev(v, s, fr):
                    if c != N or last:
                        out.append((s1, c, t))
                        continue
                    for s2, b in self.split(s1, t):
                        if b == isor:
                            out.append((s2, N, t))
                        else:
                            nxt.append(s2)
            live = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s, c, v in self.ev(e.operand, st, fr):
            if c != N:
                out.append((s, c, v))
                continue
            if isinstance(e.op, ast.Not):
                b = self.static_truth(v, s)
                if b is not None:
                    out.append((s, N, const(not b)))
                else:
                    out.append((s, N, ('un', 'not', self.freeze(v, s))))
            elif isinstance(e.op, ast.USub):
                if v[0] == 'c' and isinstance(v[2], (int, float)):
                    out.append((s, N, const(-v[2])))
                else:
                    out.append((s, N, ('un', '-', self.freeze(v, s))))
            else:
                out.append((s, N, ('un', type(e.op).__name__,
                                   self.freeze(v, s))))
        return out

    OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Mod': '%',
           'FloorDiv': '//', 'Pow': '**', 'BitOr': '|', 'BitAnd': '&',
           'BitXor': '^', 'LShift': '<<', 'RShift': '>>', 'MatMult': '@'}

    def e_BinOp(self, e, st, fr):
        out = []
        for s, c, vs in self.evs([e.left, e.right], st, fr):
            if c != N:
                out.append((s, c, vs))
            else:
                out.append((s, N, self.binop(
                    self.OPS[type(e.op).__name__], vs[0], vs[1], s)))
        return out

    def binop(self, op, a, b, st):
        if a[0] == 'c' and b[0] == 'c' and a[1] != 'ellipsis':
            try:
                v = {'+': lambda: a[2] + b[2], '-': lambda: a[2] - b[2],
                     '*': lambda: a[2] * b[2], '/': lambda: a[2] / b[2],
                     '%': lambda: a[2] % b[2], '//': lambda: a[2] // b[2],
                     '|': lambda: a[2] | b[2], '&': lambda: a[2] & b[2],
                     '**': lambda: a[2] ** b[2]}[op]()
                if isinstance(v, (str, int, float, bool)):
                    return const(v)
            except Exception:
                pass
        if op == '%' and a[0] == 'c' and a[1] == 'str':
            r = self.fmt_percent(a[2], b, st)
            if r is not None:
                return r
        if op == '+':
            def strish(t):
                return t[0] == 'fmt' or (t[0] == 'c' and t[1] == 'str')
            if strish(a) or strish(b):
                return self.mkfmt([self.freeze(a, st), self.freeze(b, st)])
            la, lb = self._listish(a, st), self._listish(b, st)
            if la is not None and lb is not None:
                if a[0] == 'tup':
                    return ('tup', la + lb)
                return self.new_list(st, la + lb)
            if a[0] == 'tup' and b[0] != 'ref':
                return ('tup', a[1] + (('*', b),))
            if b[0] == 'tup' and a[0] != 'ref':
                return ('tup', (('*', a),) + b[1])
        if op == '*':
            if a[0] == 'tup' and b[0] == 'c' and isinstance(b[2], int) \
                    and b[2] < 20:
                return ('tup', a[1] * b[2])
            if self.pol.fold:
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'ref' and st.heap[x[1]][0] == 'L' and \
                            y[0] == 'c' and isinstance(y[2], int) and \
                            y[2] < 30:
                        return self.new_list(st, st.heap[x[1]][2] * y[2])
        if op == '|':
            if a[0] == 'ref' and st.heap[a[1]][0] == 'D':
                return self.new_dict(st, self.merge_layers(
                    st.heap[a[1]][1], self.spread(b, st)))
            if b[0] == 'ref' and st.heap[b[1]][0] == 'D':
                return self.new_dict(st, self.merge_layers(
                    self.spread(a, st), st.heap[b[1]][1]))
            if b[0] == 'ref' and st.heap[b[1]][0] == 'L' and \
                    st.heap[b[1]][1] == 'set' and a[0] != 'ref':
                return self.new_list(st, (('*', self.freeze(a, st)),)
                                     + st.heap[b[1]][2], 'set')
        return ('bin', op, self.freeze(a, st), self.freeze(b, st))

    def _listish(self, t, st):
        if t[0] == 'tup':
            return t[1]
        if t[0] == 'ref':
            h = st.heap.get(t[1])
            if h and h[0] == 'L':
                return h[2]
        return None

    CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>',
           'GtE': '>=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in',
           'NotIn': 'not in'}

    def e_Compare(self, e, st, fr):
        out = []
        for s, c, vs in self.evs([e.left] + e.comparators, st, fr):
            if c != N:
                out.append((s, c, vs))
                continue
            terms = []
            for i, op in enumerate(e.ops):
                o = self.CMP[type(op).__name__]
                a, b = vs[i], vs[i + 1]
                t = ('cmp', o, a, b)
                if o in ('in', 'not in') and b[0] == 'view' and \
                        b[1] == 'keys':
                    t = ('cmp', o, a, b[2])
                r = self.static_truth(t, s)
                if r is not None:
                    t = const(r)
                terms.append(t)
            if len(terms) == 1:
                out.append((s, N, terms[0]))
            else:
                live = [s]
                for t in terms:
                    nxt = []
                    for s1 in live:
                        for s2, b in self.split(s1, t):
                            if b:
                                nxt.append(s2)
                            else:
                                out.append((s2, N, FALSE))
                    live = nxt
                out += [(s1, N, TRUE) for s1 in live]
        return out

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, c, v in self.ev(e.value, st, fr):
            if c == N:
                f = fr
                while f.locals is not None and e.target.id not in f.locals \
                        and f.parent is not None:
                    f = f.parent
                s.env[(f.fid, e.target.id)] = v
            out.append((s, c, v))
        return out

    def e_Starred(self, e, st, fr):
        return [(s, c, ('*', v) if c == N else v)
                for s, c, v in self.ev(e.value, st, fr)]

    def e_Await(self, e, st, fr):
        out = []
        for s, c, v in self.ev(e.value, st, fr):
            if c == N:
                if v[0] in ('evt', 'sym', 'opt', 'call', 'mcall', 'attr'):
                    t = ('await', v)
                    self.event(s, fr, 'await', v, (), (), t)
                    out.append((s, N, t))
                    out += self.maybe_raise(s, 'await')
                else:
                    out.append((s, N, v))
            else:
                out.append((s, c, v))
        return out

    def e_Yield(self, e, st, fr):
        f = fr
        while f is not None and (f.fid, '<yield>') not in st.env:
            f = f.parent
        out = []
        rs = self.ev(e.value, st, fr) if e.value else [(st, N, NONE)]
        for s, c, v in rs:
            if c == N and f is not None:
                ref = s.env[(f.fid, '<yield>')]
                h = s.heap[ref[1]]
                s.heap[ref[1]] = ('L', h[1], h[2] + (v,))
                out.append((s, N, NONE))
            else:
                out.append((s, c, v))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for s, c, v in self.ev(e.value, st, fr):
            if c == N and (fr.fid, '<yield>') in s.env:
                ref = s.env[(fr.fid, '<yield>')]
                h = s.heap[ref[1]]
                items = self._listish(v, s)
                s.heap[ref[1]] = ('L', h[1], h[2] + (
                    items if items is not None else (('*', v),)))
                out.append((s, N, NONE))
            else:
                out.append((s, c, v))
        return out

    def e_Call(self, e, st, fr):
        out = []
        # super().__init__(...) style calls
        if isinstance(e.func, ast.Attribute):
            heads = []
            for s, c, o in self.ev(e.func.value, st, fr):
                if c != N:
                    out.append((s, c, o))
                else:
                    heads.append((s, o, e.func.attr))
        else:
            heads = []
            for s, c, f in self.ev(e.func, st, fr):
                if c != N:
                    out.append((s, c, f))
                else:
                    heads.append((s, f, None))
        for s, f, meth in heads:
            for s1, c, argv in self.evs(e.args, s, fr):
                if c != N:
                    out.append((s1, c, argv))
                    continue
                live = [(s1, ())]
                for kwn in e.keywords:
                    nxt = []
                    for s2, layers in live:
                        for s3, c3, v in self.ev(kwn.value, s2, fr):
                            if c3 != N:
                                out.append((s3, c3, v))
                            elif kwn.arg is None:
                                nxt.append((s3, self.merge_layers(
                                    layers, self.spread(v, s3))))
                            else:
                                nxt.append((s3, self.add_layer(
                                    layers, const(kwn.arg), v)))
                    live = nxt
                named = frozenset(k.arg for k in e.keywords if k.arg)
                for s2, layers in live:
                    fr.line = e.lineno
                    # a name given both explicitly and in **x is an error
                    layers = tuple(
                        (l[0], l[1], l[2] | named) if l[0] == 'rest' and
                        named else l for l in layers)
                    args = []
                    for a in argv:
                        if a[0] == '*':
                            items = self.known_items(a[1], s2)
                            if items is not None:
                                args.extend(items)
                                continue
                            if a[1][0] == 'tup':
                                args.extend(a[1][1])
                                continue
                            if a[1][0] == 'ref' and \
                                    s2.heap[a[1][1]][0] == 'L':
                                args.extend(s2.heap[a[1][1]][2])
                                continue
                        args.append(a)
                    self.cur = (fr.qual, e.lineno, e.col_offset, 'Call')
                    out += self._dispatch(s2, fr, f, meth, tuple(args),
                                          layers)
        return out

    def _dispatch(self, st, fr, f, meth, args, layers):
        if meth is None:
            return self.call(st, fr, f, args, layers)
        o = f
        # a method: package member, heap object or opaque
        if o[0] == 'ref' and st.heap.get(o[1], ('',))[0] in ('D', 'L'):
            return self.method_call(st, fr, o, meth, args, layers)
        if o[0] == 'ref' and st.heap.get(o[1], ('',))[:2] == ('O', 'task'):
            return self.method_call(st, fr, o, meth, args, layers)
        if o[0] == 'view':
            return self.method_call(st, fr, o, meth, args, layers)
        if o[0] == 'odict':
            return self.odict_method(st, fr, o, meth, args, layers)
        if o[0] == 'c' or o[0] == 'fmt' or o[0] == 'tup':
            return self.method_call(st, fr, o, meth, args, layers)
        out = []
        saved = self.pol.ext_raise
        for s, c, m in self.getattr_(st, fr, o, meth):
            if c != N:
                out.append((s, c, m))
            elif m[0] == 'attr' and m[2] == meth:
                out += self.method_call(s, fr, m[1] if o[0] != 'ref' else o,
                                        meth, args, layers)
            else:
                out += self.call(s, fr, m, args, layers)
        return out

    # comprehensions

    def comp_loops(self, gens, i, st, fr, leaf, quiet=False):
        """Run nested comprehension generators; leaf(st, frame)."""
        if i == len(gens):
            return leaf(st, fr)
        g = gens[i]
        out = []
        for s, c, it in self.ev(g.iter, st, fr):
            if c != N:
                out.append((s, c, it))
                continue

            def body(s1, elem):
                res = []
                for s2, c2, v2 in self.assign(g.target, elem, s1, fr,
                                              define=True):
                    if c2 != N:
                        res.append((s2, c2, v2))
                        continue
                    live = [s2]
                    for cnd in g.ifs:
                        nxt = []
                        for s3 in live:
                            for s4, c4, b in self.cond(cnd, s3, fr):
                                if c4 != N:
                                    res.append((s4, c4, b))
                                elif b:
                                    nxt.append(s4)
                                else:
                                    res.append((s4, N, None))
                        live = nxt
                    for s3 in live:
                        res += self.comp_loops(gens, i + 1, s3, fr, leaf,
                                               quiet)
                return res
            out += self.iterate(s, fr, it, body, getattr(
                g.iter, 'lineno', fr.line), comp=True)
        return out

    def _comp(self, e, st, fr, kind):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        nf = Frame(self.pid(st, 'comp'), None, fr.module, fr, names, fr.qual)
        nf.line = fr.line
        if kind == 'dict':
            r = self.filter_comp(e, st, fr, nf)
            if r is not None:
                return r
            acc = self.new_dict(st, ())
        else:
            acc = self.new_list(st, (), kind)

        def leaf(s, f):
            out = []
            if kind == 'dict':
                for s1, c, vs in self.evs([e.key, e.value], s, f):
                    if c != N:
                        out.append((s1, c, vs))
                        continue
                    h = s1.heap[acc[1]]
                    s1.heap[acc[1]] = ('D', self.add_layer(
                        h[1], vs[0], vs[1]))
                    out.append((s1, N, None))
            else:
                for s1, c, v in self.ev(e.elt, s, f):
                    if c != N:
                        out.append((s1, c, v))
                        continue
                    h = s1.heap[acc[1]]
                    s1.heap[acc[1]] = ('L', h[1], h[2] + (v,))
                    out.append((s1, N, None))
            return out
        st.env[(nf.fid, '<acc>')] = acc
        res = self.comp_loops(e.generators, 0, st, nf, leaf)
        out = []
        keep = any(isinstance(n, ast.Lambda) for n in ast.walk(e))
        for s, c, v in res:
            s.env.pop((nf.fid, '<acc>'), None)
            if not keep:
                for name in names:
                    s.env.pop((nf.fid, name), None)
            out.append((s, X, v) if c == X else (s, N, acc))
        return self.merge(out)

    def e_ListComp(self, e, st, fr):
        return self._comp(e, st, fr, 'list')

    def e_SetComp(self, e, st, fr):
        return self._comp(e, st, fr, 'set')

    def e_DictComp(self, e, st, fr):
        return self._comp(e, st, fr, 'dict')

    def e_GeneratorExp(self, e, st, fr):
        return self._comp(e, st, fr, 'generator')

    def filter_comp(self, e, st, fr, nf):
        """{k: v for k, v in D.items() if <k only>} on a layered dict keeps
        its layers."""
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        probe = self.ev(g.iter, self_copy(st), fr)
        if len(probe) != 1 or probe[0][1] != N:
            return None
        it = probe[0][2]
        if it[0] == 'view' and it[1] in ('items', 'keys'):
            d, how = it[2], it[1]
        elif it[0] == 'ref':
            d, how = it, 'keys'
        else:
            return None
        h = st.heap.get(d[1]) if d[0] == 'ref' else None
        if not h or h[0] != 'D' or not any(l[0] == 'rest' for l in h[1]):
            return None
        if not isinstance(e.key, ast.Name):
            return None
        if how == 'items':
            if not (isinstance(g.target, ast.Tuple)
                    and len(g.target.elts) == 2
                    and all(isinstance(x, ast.Name) for x in g.target.elts)
                    and e.key.id == g.target.elts[0].id
                    and isinstance(e.value, ast.Name)
                    and e.value.id == g.target.elts[1].id):
                return None
            kname, vname = g.target.elts[0].id, g.target.elts[1].id
        else:
            if not (isinstance(g.target, ast.Name)
                    and e.key.id == g.target.id
                    and isinstance(e.value, ast.Subscript)
                    and isinstance(e.value.slice, ast.Name)
                    and e.value.slice.id == g.target.id):
                return None
            kname, vname = g.target.id, None

        def passes(keyterm, val, s):
            s.env[(nf.fid, kname)] = keyterm
            if vname:
                s.env[(nf.fid, vname)] = val
            live = [s]
            for cnd in g.ifs:
                nxt = []
                for s1 in live:
                    nxt += [s2 for s2, c, b in self.cond(cnd, s1, nf)
                            if c == N and b]
                live = nxt
            return live
        layers = []
        for l in h[1]:
            if l[0] == 'k':
                live = passes(l[1], l[2], self_copy(st))
                if not live:
                    continue
                layers.append(l)
            else:
                key = ('anykey', self.pid(st, 'k'))
                s0 = self_copy(st)
                before = set(s0.facts)
                live = passes(key, ('item', l[1], key), s0)
                removed = None
                for s1 in live:
                    rm = set()
                    good = True
                    for cnd, val in s1.facts.items():
                        if cnd in before or not contains(cnd, key):
                            continue
                        if cnd[0] == 'eq' and val is False and \
                                cnd[2][0] == 'c':
                            rm.add(cnd[2][2])
                        elif cnd[0] == 'in' and val is False:
                            pass
                        else:
                            good = False
                    if good:
                        removed = rm if removed is None else removed & rm
                if removed is None:
                    return None
                layers.append(('rest', l[1], frozenset(l[2]) |
                               frozenset(removed)))
        return [(st, N, self.new_dict(st, layers))]

    # -- iteration ----------------------------------------------------------

    def elements(self, it, st):
        """How to iterate: ('known', [terms]) or ('generic', maker)."""
        t = it
        if t[0] == 'view':
            d = t[2]
            h = st.heap[d[1]]
            if all(l[0] == 'k' for l in h[1]):
                if t[1] == 'keys':
                    return 'known', [l[1] for l in h[1]]
                if t[1] == 'values':
                    return 'known', [l[2] for l in h[1]]
                return 'known', [('tup', (l[1], l[2])) for l in h[1]]
            base = self.freeze(d, st)
            single = [l for l in h[1] if l[0] == 'rest']
            if len(h[1]) == 1 and single and not single[0][2]:
                base = single[0][1]
            return 'generic', lambda i: self._view_elem(base, t[1], i)
        if t[0] == 'tup':
            if not any(x[0] == '*' for x in t[1]):
                return 'known', list(t[1])
            return 'mixed', list(t[1])
        if t[0] == 'L':
            if not any(x[0] == '*' for x in t[3]):
                return 'known', list(t[3])
            return 'mixed', list(t[3])
        if t[0] == 'ref':
            h = st.heap.get(t[1])
            if h and h[0] == 'L':
                if not any(x[0] == '*' for x in h[2]):
                    return 'known', list(h[2])
                return 'mixed', list(h[2])
            if h and h[0] == 'D':
                if all(l[0] == 'k' for l in h[1]):
                    return 'known', [l[1] for l in h[1]]
                if len(h[1]) == 1 and not h[1][0][2]:
                    base = h[1][0][1]
                    return 'generic', lambda i: ('elem', base, i)
                base = self.freeze(t, st)
                return 'generic', lambda i: ('elem', base, i)
        if t[0] == 'c' and t[1] == 'str':
            return 'known', [const(ch) for ch in t[2]]
        if t[0] == 'mcall' and t[2] in ('items', 'keys', 'values') and \
                not t[3]:
            return 'generic', lambda i: self._view_elem(t[1], t[2], i)
        if t[0] == 'copy':
            return self.elements(t[1], st)
        if t[0] == 'call' and t[1][0] == 'ext':
            n = t[1][1]
            a = t[2]
            if n == 'builtins.enumerate' and a:
                start = a[1] if len(a) > 1 else const(0)
                for l in t[3]:
                    if l[0] == 'k' and l[1] == const('start'):
                        start = l[2]
                k, els = self.elements(a[0], st)
                if k == 'known' and start[0] == 'c':
                    return 'known', [('tup', (const(start[2] + i), x))
                                     for i, x in enumerate(els)]
                if k == 'generic':
                    base = self.seq_base(a[0], st)
                    if start == const(0):
                        return 'generic', lambda i: (
                            'tup', (('idx', base, i), els(i)))
                    return 'generic', lambda i: (
                        'tup', (('bin', '+', ('idx', base, i), start),
                                els(i)))
                if k == 'mixed' and len(els) == 1:
                    base = els[0][1]
                    return 'generic', lambda i: (
                        'tup', (('idx', base, i), ('elem', base, i)))
            if n == 'builtins.zip' and a and not t[3]:
                subs = [self.elements(self.freeze(x, st)
                                      if x[0] != 'ref' else x, st)
                        for x in a]
                subs = [('generic', (lambda b: lambda i: ('elem', b, i))(
                    els[0][1])) if k == 'mixed' and len(els) == 1
                    else (k, els) for k, els in subs]
                if all(k == 'known' for k, _ in subs):
                    return 'known', [('tup', tuple(x)) for x in
                                     zip(*[e for _, e in subs])]
                if all(k in ('generic', 'known') for k, _ in subs):
                    def mk(i):
                        vals = []
                        for (k, els), x in zip(subs, a):
                            if k == 'generic':
                                vals.append(els(i))
                            elif i < len(els):
                                vals.append(els[i])
                            else:
                                vals.append(('elem', self.freeze(x, st), i))
                        return ('tup', tuple(vals))
                    return 'generic', mk
            if n == 'builtins.range':
                if a and all(x[0] == 'c' and isinstance(x[2], int)
                             for x in a) and not (len(a) > 2 and
                                                  not a[2][2]):
                    return 'known', [const(i) for i in range(
                        *(x[2] for x in a))[:30]]
                if len(a) == 2 and a[0] == const(0):
                    a = (a[1],)
                if len(a) == 1:
                    ln = self._len_of(a[0])
                    if ln is not None:
                        base = self.seq_base(ln, st)
                        return 'generic', lambda i: ('idx', base, i)
                fz = self.freeze(t, st)
                return 'generic', lambda i: ('elem', fz, i)
            if n == 'builtins.reversed' and a:
                k, els = self.elements(a[0], st)
                if k == 'known':
                    return 'known', list(reversed(els))
        if t[0] == 'call' and t[1] == ('ext', 'itertools.chain') and \
                not t[3]:
            return 'mixed', [('*', x) for x in t[2]]
        fz = self.freeze(t, st)
        return 'generic', lambda i: ('elem', fz, i)

    def seq_base(self, t, st):
        if t[0] == 'ref':
            h = st.heap.get(t[1])
            if h and h[0] == 'L' and len(h[2]) == 1 and h[2][0][0] == '*':
                return self.freeze(h[2][0][1], st)
        if t[0] == 'L' and len(t[3]) == 1 and t[3][0][0] == '*':
            return t[3][0][1]
        if t[0] == 'mcall' and t[2] in ('items', 'keys') and not t[3]:
            return t[1]
        if t[0] == 'copy':
            return t[1]
        return self.freeze(t, st)

    def _view_elem(self, base, how, i):
        k = ('elem', base, i)
        if how == 'keys':
            return k
        if how == 'values':
            return ('item', base, k)
        return ('tup', (k, ('item', base, k)))

    def iterate(self, st, fr, it, body, line, comp=False, orelse=None):
        """Run body(st, elem) over the elements of `it`.  Outcomes of body:
        N/C continue, B break, R return, X raise."""
        if it[0] == 'lazy':
            out = []
            for s, c, v in self.force(st, fr, it):
                if c != N:
                    out.append((s, c, v))
                else:
                    out += self.iterate(s, fr, v, body, line, comp, orelse)
            return out
        kind, els = self.elements(it, st)
        lid = self.pid(st, 'loop')
        fz = self.freeze(it, st)
        out = []

        def finish(s, reason, n):
            self.event(s, fr, 'loop', fz, (const(n), const(reason)),
                       extra=(lid, comp), line=line)

        def step(states, elem, i):
            nxt = []
            for s in states:
                s.loops = s.loops + ((lid, fz, i),)
                depth = len(s.loops)
                for s1, c, v in body(s, elem):
                    s1.loops = s1.loops[:depth - 1]
                    if c in (N, C):
                        nxt.append(s1)
                    elif c == B:
                        finish(s1, 'break', i + 1)
                        out.append((s1, N, 'break'))
                    else:
                        finish(s1, 'return' if c == R else 'raise', i + 1)
                        out.append((s1, c, v))
            return [x[0] for x in self.dedup([(s, N, None) for s in nxt])]

        def exhausted(states, n):
            for s in states:
                finish(s, 'exhausted', n)
                out.append((s, N, 'exhausted'))
        if kind == 'known':
            live = [st]
            for i, elem in enumerate(els):
                live = step(live, elem, i)
                if i > 40:
                    self.note('long constant loop cut')
                    break
            exhausted(live, len(els))
        else:
            if kind == 'mixed':
                seq = []
                for x in els:
                    if x[0] == '*':
                        k2, e2 = self.elements(x[1], st)
                        if k2 == 'known':
                            seq += [(y, False) for y in e2]
                        elif k2 == 'generic':
                            seq += [(e2(0), True), (e2(1), True)]
                        else:
                            b = self.freeze(x[1], st)
                            seq += [(('elem', b, 0), True),
                                    (('elem', b, 1), True)]
                    else:
                        seq.append((x, False))
                live = [st]
                n = 0
                for elem, optional in seq:
                    skip = [self.fork(s) for s in live] if optional else []
                    live = step(live, elem, n) + skip
                    n += 1
                exhausted(live, n)
            else:
                # emptiness is a fact about the collection
                live = [st]
                base = self.loop_base(fz)
                zero = self.fork(st)
                nonempty_known = self.decide(st, ('truth', base)) \
                    if base is not None else None
                both = self.zip_bases(fz)
                if any(self.decide(st, ('truth', b)) is False
                       for b in both):
                    nonempty_known = False
                if nonempty_known is not True:
                    if base is not None:
                        zero.facts[('truth', base)] = False
                    exhausted([zero], 0)
                if nonempty_known is not False:
                    if base is not None:
                        st.facts[('truth', base)] = True
                    for b in both:
                        st.facts[('truth', b)] = True
                    iters = 1 if any(contains(fz, t) for t in
                                     self.pol.once) else self.pol.iters
                    for i in range(iters):
                        live = step(live, els(i), i)
                        if i + 1 < iters:
                            exhausted([self.fork(s) for s in live], i + 1)
                        else:
                            exhausted(live, i + 1)
        return out

    def zip_bases(self, fz):
        """Collections that have an element if zip(...) has one."""
        if fz[0] == 'call' and fz[1] == ('ext', 'builtins.enumerate') and \
                fz[2]:
            fz = fz[2][0]
        if fz[0] != 'call' or fz[1] != ('ext', 'builtins.zip'):
            return []
        out = [self.loop_base(a) for a in fz[2] if a[0] != '*']
        return [b for b in out if b is not None and b[0] in (
            'sym', 'opt', 'attr', 'item', 'elem', 'evt')]

    def loop_base(self, fz):
        t = fz
        while True:
            if t[0] == 'mcall' and t[2] in ('items', 'keys', 'values'):
                t = t[1]
            elif t[0] == 'call' and t[1] in (
                    ('ext', 'builtins.enumerate'),
                    ('ext', 'builtins.reversed'),
                    ('ext', 'builtins.sorted')) and t[2]:
                t = t[2][0]
            elif t[0] == 'call' and t[1] == ('ext', 'builtins.range') and \
                    len(t[2]) == 1:
                ln = self._len_of(t[2][0])
                if ln is None:
                    return None
                t = ln
            elif t[0] == 'call' and t[1] == ('ext', 'builtins.zip'):
                return None
            elif t[0] in ('copy',):
                t = t[1]
            else:
                break
        if t[0] in ('sym', 'opt', 'attr', 'item', 'elem', 'evt', 'call',
                    'get', 'mcall'):
            return t
        return None

    # -- statements ---------------------------------------------------------

    def later_names(self, body, i):
        """Names that occur after statement i of a function body."""
        cache = self.prog.__dict__.setdefault('_later', {})
        k = (id(body), i)
        if k not in cache:
            names = set()
            for st in body[i + 1:]:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
                    elif isinstance(n, ast.FunctionDef):
                        names.add(n.name)
            cache[k] = (names, body)
        return cache[k][0]

    def block(self, body, st, fr, top=False):
        live = [st]
        out = []
        top = top and self.pol.bag and not isinstance(fr.func, ast.Lambda) \
            and not self._makes_closure(fr.func)
        for i, stmt in enumerate(body):
            nxt = []
            for s in live:
                for s1, c, v in self.stmt(stmt, s, fr):
                    if c == N:
                        nxt.append(s1)
                    else:
                        out.append((s1, c, v))
            if top and len(nxt) > 1:
                used = self.later_names(body, i)
                for s in nxt:
                    for key in [k for k in s.env if k[0] == fr.fid
                                and k[1] not in used]:
                        del s.env[key]
            if self.pol.bag and len(nxt) > 1:
                nxt = [x[0] for x in self.merge([(s, N, None) for s in nxt])]
            live = nxt
            if not live:
                break
        return self.merge(out) + [(s, N, None) for s in live]

    def stmt(self, n, st, fr):
        fr.line = n.lineno
        self.cur = (fr.qual, n.lineno, n.col_offset, type(n).__name__)
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.note('unsupported statement %s' % type(n).__name__)
            return [(st, N, None)]
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        return [(s, c, None if c == N else v)
                for s, c, v in self.ev(n.value, st, fr)]

    def s_Pass(self, n, st, fr):
        return [(st, N, None)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, R, NONE)]
        return [(s, R if c == N else c, v)
                for s, c, v in self.ev(n.value, st, fr)]

    def s_Assign(self, n, st, fr):
        out = []
        for s, c, v in self.ev(n.value, st, fr):
            if c != N:
                out.append((s, c, v))
                continue
            live = [s]
            for t in n.targets:
                nxt = []
                for s1 in live:
                    for s2, c2, v2 in self.assign(t, v, s1, fr):
                        if c2 == N:
                            nxt.append(s2)
                        else:
                            out.append((s2, c2, v2))
                live = nxt
            out += [(s1, N, None) for s1 in live]
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, N, None)]
        out = []
        for s, c, v in self.ev(n.value, st, fr):
            if c != N:
                out.append((s, c, v))
            else:
                out += self.assign(n.target, v, s, fr)
        return out

    def assign(self, t, v, st, fr, define=False):
        if isinstance(t, ast.Name):
            f = fr
            while not define and f.locals is not None and \
                    t.id not in f.locals and f.parent is not None:
                f = f.parent
            st.env[(f.fid, t.id)] = v
            return [(st, N, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.known_items(v, st)
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            live = [st]
            out = []
            vals = []
            if items is not None and not star and len(items) == len(t.elts):
                vals = list(items)
            elif star:
                i = star[0]
                k = len(t.elts) - i - 1
                if items is not None and len(items) >= len(t.elts) - 1:
                    vals = list(items[:i])
                    vals.append(self.new_list(st, items[i:len(items) - k]))
                    vals += list(items[len(items) - k:])
                else:
                    fz = self.freeze(v, st)
                    for j in range(len(t.elts)):
                        if j < i:
                            vals.append(('item', fz, const(j)))
                        elif j == i:
                            vals.append(('slice', fz, const(i),
                                         const(-k) if k else NONE, NONE))
                        else:
                            vals.append(('item', fz,
                                         const(j - len(t.elts))))
            else:
                fz = self.freeze(v, st)
                vals = [('item', fz, const(j)) for j in range(len(t.elts))]
                out += self.maybe_raise(st, 'unpack')
            for el, val in zip(t.elts, vals):
                nxt = []
                for s in live:
                    for s1, c, x in self.assign(
                            el.value if isinstance(el, ast.Starred) else el,
                            val, s, fr, define):
                        if c == N:
                            nxt.append(s1)
                        else:
                            out.append((s1, c, x))
                live = nxt
            return [(s, N, None) for s in live] + out
        if isinstance(t, ast.Attribute):
            out = []
            for s, c, o in self.ev(t.value, st, fr):
                if c != N:
                    out.append((s, c, o))
                else:
                    fr.line = t.lineno
                    out += [(s1, c1, None if c1 == N else v1) for
                            s1, c1, v1 in self.setattr_(s, fr, o, t.attr, v)]
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for s, c, o in self.ev(t.value, st, fr):
                    if c == N:
                        self.event(s, fr, 'mut', ('item', o, ('slice?',)),
                                   (v,), (), extra='slice=')
                        out.append((s, N, None))
                    else:
                        out.append((s, c, o))
                return out
            for s, c, vs in self.evs([t.value, t.slice], st, fr):
                if c != N:
                    out.append((s, c, vs))
                else:
                    fr.line = t.lineno
                    out += [(s1, c1, None if c1 == N else v1)
                            for s1, c1, v1 in self.setitem_(
                                s, fr, vs[0], vs[1], v)]
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, define)
        return [(st, N, None)]

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(
            {ast.Name: lambda: ast.Name(n.target.id, ast.Load()),
             ast.Attribute: lambda: ast.Attribute(
                 n.target.value, n.target.attr, ast.Load()),
             ast.Subscript: lambda: ast.Subscript(
                 n.target.value, n.target.slice, ast.Load())}[
                     type(n.target)](), n.target)
        op = self.OPS[type(n.op).__name__]
        out = []
        for s, c, vs in self.evs([load, n.value], st, fr):
            if c != N:
                out.append((s, c, vs))
                continue
            a, b = vs
            # in-place on known heap containers
            if a[0] == 'ref' and s.heap.get(a[1], ('',))[0] == 'L' and \
                    op in ('+', '|'):
                items = self._listish(b, s)
                h = s.heap[a[1]]
                s.heap[a[1]] = ('L', h[1], h[2] + (
                    items if items is not None else (('*', b),)))
                self.event(s, fr, 'append', a, (b,))
                r = a
            elif a[0] == 'ref' and s.heap.get(a[1], ('',))[0] == 'D' and \
                    op == '|':
                s.heap[a[1]] = ('D', self.merge_layers(
                    s.heap[a[1]][1], self.spread(b, s)))
                r = a
            else:
                if op in ('|', '&', '-', '^', '+') and \
                        isinstance(n.target, ast.Name) and \
                        a[0] in ('sym', 'opt', 'attr', 'item', 'elem',
                                 'get', 'evt') and (
                            self.type_of(b, s) or ('', ''))[1] in (
                                'builtins.list', 'builtins.set',
                                'builtins.dict'):
                    # possible in-place mutation of a container
                    self.event(s, fr, 'mut', a, (b,), (), extra=op + '=')
                elif op in ('|', '&', '-', '^', '+', '*') and \
                        isinstance(n.target, ast.Name):
                    # in place if the value is a container
                    self.event(s, fr, 'aug', a, (b,), (), extra=op + '=')
                r = self.binop(op, a, b, s)
                if isinstance(n.target, (ast.Attribute, ast.Subscript)):
                    fz = self.freeze(r, s)
                    tt = self.type_of(b, s)
                    if tt in (('ext', 'builtins.set'),
                              ('ext', 'builtins.list'),
                              ('ext', 'builtins.dict')):
                        self.event(s, fr, 'mut', a, (b,), (), extra=op + '=')
            out += self.assign(n.target, r, s, fr)
        return out

    def s_If(self, n, st, fr):
        out = []
        for s, c, b in self.cond(n.test, st, fr):
            if c != N:
                out.append((s, c, b))
            else:
                out += self.block(n.body if b else n.orelse, s, fr)
        return out

    def s_For(self, n, st, fr):
        out = []
        for s, c, it in self.ev(n.iter, st, fr):
            if c != N:
                out.append((s, c, it))
                continue

            def body(s1, elem):
                res = []
                for s2, c2, v2 in self.assign(n.target, elem, s1, fr):
                    if c2 != N:
                        res.append((s2, c2, v2))
                    else:
                        res += self.block(n.body, s2, fr)
                return res
            for s1, c1, v1 in self.iterate(s, fr, it, body, n.lineno):
                if c1 == N and v1 == 'exhausted' and n.orelse:
                    out += self.block(n.orelse, s1, fr)
                elif c1 == N:
                    out.append((s1, N, None))
                else:
                    out.append((s1, c1, v1))
        return out

    s_AsyncFor = s_For

    def s_While(self, n, st, fr):
        out = []
        live = [st]
        lid = self.pid(st, 'while')
        for i in range(self.pol.iters + 1):
            nxt = []
            for s in live:
                for s1, c, b in self.cond(n.test, s, fr):
                    if c != N:
                        out.append((s1, c, b))
                    elif not b:
                        self.event(s1, fr, 'loop', ('while', lid),
                                   (const(i), const('exhausted')),
                                   extra=(lid, False), line=n.lineno)
                        if n.orelse:
                            out += self.block(n.orelse, s1, fr)
                        else:
                            out.append((s1, N, None))
                    elif i < self.pol.iters or self._const_true(n.test):
                        if i >= self.pol.iters:
                            continue
                        s1.loops = s1.loops + ((lid, ('while', lid), i),)
                        d = len(s1.loops)
                        for s2, c2, v2 in self.block(n.body, s1, fr):
                            s2.loops = s2.loops[:d - 1]
                            if c2 in (N, C):
                                nxt.append(s2)
                            elif c2 == B:
                                self.event(
                                    s2, fr, 'loop', ('while', lid),
                                    (const(i + 1), const('break')),
                                    extra=(lid, False), line=n.lineno)
                                out.append((s2, N, None))
                            else:
                                out.append((s2, c2, v2))
            live = nxt
        return out

    def _const_true(self, e):
        return isinstance(e, ast.Constant) and bool(e.value)

    def s_Break(self, n, st, fr):
        return [(st, B, None)]

    def s_Continue(self, n, st, fr):
        return [(st, C, None)]

    def s_FunctionDef(self, n, st, fr):
        clo = self.closure(n, fr, n.name)
        v = clo
        # decorators of nested functions
        for d in reversed(n.decorator_list):
            nm = d.id if isinstance(d, ast.Name) else None
            if nm in ('classmethod', 'staticmethod', 'property'):
                v = ('deco', nm, v)
            else:
                r = self.ev(d, st, fr)
                if len(r) == 1 and r[0][1] == N:
                    f = r[0][2]
                    if f[0] == 'call' and f[1] == ('ext', 'functools.wraps'):
                        continue
                    v = ('deco', show(f), v)
        st.env[(fr.fid, n.name)] = v
        return [(st, N, None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        self.note('nested class %s' % n.name)
        st.env[(fr.fid, n.name)] = ('localcls', n.name)
        return [(st, N, None)]

    def s_Import(self, n, st, fr):
        for a in n.names:
            nm = (a.asname or a.name.split('.')[0])
            target = a.name if a.asname else a.name.split('.')[0]
            st.env[(fr.fid, nm)] = ('mod', target) \
                if target in self.prog.modules else ('ext', target)
        return [(st, N, None)]

    def s_ImportFrom(self, n, st, fr):
        base = n.module or ''
        if n.level:
            m = self.prog.modules[fr.module]
            parts = fr.module.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        for a in n.names:
            if a.name == '*':
                continue
            r = self.prog.resolve_global(base, a.name)
            v = self.binding(r, base, a.name, st) if r else \
                ('ext', base + '.' + a.name)
            st.env[(fr.fid, a.asname or a.name)] = v
        return [(st, N, None)]

    def s_Global(self, n, st, fr):
        return [(st, N, None)]

    s_Nonlocal = s_Global

    def s_Delete(self, n, st, fr):
        live = [st]
        out = []
        for t in n.targets:
            nxt = []
            for s in live:
                if isinstance(t, ast.Subscript) and not isinstance(
                        t.slice, ast.Slice):
                    for s1, c, vs in self.evs([t.value, t.slice], s, fr):
                        if c != N:
                            out.append((s1, c, vs))
                            continue
                        fr.line = t.lineno
                        for s2, c2, v2 in self.delitem_(s1, fr, vs[0],
                                                        vs[1]):
                            if c2 == N:
                                nxt.append(s2)
                            else:
                                out.append((s2, c2, v2))
                elif isinstance(t, ast.Attribute):
                    for s1, c, o in self.ev(t.value, s, fr):
                        if c != N:
                            out.append((s1, c, o))
                            continue
                        self.event(s1, fr, 'mut', ('attr', o, t.attr), (),
                                   (), extra='del')
                        nxt.append(s1)
                elif isinstance(t, ast.Name):
                    s.env.pop((fr.fid, t.id), None)
                    nxt.append(s)
                else:
                    nxt.append(s)
            live = nxt
        return out + [(s, N, None) for s in live]

    def s_Assert(self, n, st, fr):
        out = []
        for s, c, b in self.cond(n.test, st, fr):
            if c != N:
                out.append((s, c, b))
            elif b:
                out.append((s, N, None))
            else:
                out.append((s, X, ('call', ('ext', 'builtins.AssertionError'),
                                   (), ())))
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            cur = st.env.get((-1, '<exc>'))
            f = fr
            while cur is None and f is not None:
                cur = st.env.get((-1, '<exc>'))
                f = f.parent
            cur = cur or ('exc', 0, 'reraise')
            self.event(st, fr, 'raise', cur, (), (), extra=(None, 'reraise'))
            return [(st, X, cur)]
        out = []
        exprs = [n.exc] + ([n.cause] if n.cause else [])
        for s, c, vs in self.evs(exprs, st, fr):
            if c != N:
                out.append((s, c, vs))
                continue
            exc = vs[0]
            if exc[0] in ('cls', 'ext'):
                rs = self.call(s, fr, exc, (), ())
                exc = rs[0][2]
            exc = self.freeze(exc, s)
            cause = vs[1] if len(vs) > 1 else None
            fr.line = n.lineno
            self.event(s, fr, 'raise', exc, (), (),
                       extra=(self.freeze(cause, s) if cause else None,
                              'from' if n.cause else 'plain',
                              self._current_exc(s, fr)))
            out.append((s, X, exc))
        return out

    def _current_exc(self, st, fr):
        f = fr
        while f is not None:
            v = st.env.get((-1, '<exc>'))
            if v is not None:
                return v
            f = f.parent
        return None

    def exc_class(self, v):
        if v[0] == 'new':
            return ('cls', v[1])
        if v[0] == 'call' and v[1][0] == 'ext':
            return v[1]
        return None

    def handler_types(self, h, st, fr):
        if h.type is None:
            return ('ext', 'builtins.BaseException')
        r = self.ev(h.type, st, fr)
        return self._types(r[0][2], st)

    def s_Try(self, n, st, fr):
        types = tuple(self.handler_types(h, st, fr) for h in n.handlers)
        tid = self.pid(st, 'try')
        saved = st.tries
        if n.handlers:
            st.tries = saved + (('try', tid, types, n.lineno),)
        elif n.finalbody and not saved:
            st.tries = saved + (('finally', tid, (), n.lineno),)
        res = []
        for s, c, v in self.block(n.body, st, fr):
            s.tries = saved
            if c == N:
                if n.orelse:
                    res += self.block(n.orelse, s, fr)
                else:
                    res.append((s, c, v))
            elif c == X and n.handlers:
                res += self.handle(n.handlers, types, s, v, fr)
            else:
                res.append((s, c, v))
        if not n.finalbody:
            return res
        out = []
        for s, c, v in res:
            for s1, c1, v1 in self.block(n.finalbody, s, fr):
                if c1 == N:
                    out.append((s1, c, v))
                else:
                    out.append((s1, c1, v1))
        return out

    s_TryStar = s_Try

    def handle(self, handlers, types, st, exc, fr):
        out = []
        live = [st]
        for h, T in zip(handlers, types):
            nxt = []
            for s in live:
                ec = self.exc_class(exc)
                if ec is not None:
                    r = None
                    ts = T[1] if T[0] == 'tup' else (T,)
                    rs = [self.subclass(ec, t) for t in ts]
                    if any(rs):
                        r = True
                    elif all(x is False for x in rs):
                        r = False
                    branches = [(s, r)] if r is not None else [
                        (s, True), (self.fork(s), False)]
                elif exc[0] == 'exc' and str(exc[2]).startswith(
                        'lookup [') and T[0] == 'cls':
                    branches = [(s, False)]     # not an error of the package
                else:
                    branches = self.split(s, (
                        'call', ('ext', 'builtins.isinstance'),
                        (exc, T), ()))
                for s1, b in branches:
                    if not b:
                        nxt.append(s1)
                        continue
                    old = s1.env.get((-1, '<exc>'))
                    s1.env[(-1, '<exc>')] = exc
                    if h.name:
                        s1.env[(fr.fid, h.name)] = exc
                    self.event(s1, fr, 'caught', exc, (T,), (),
                               line=h.lineno)
                    for s2, c2, v2 in self.block(h.body, s1, fr):
                        if old is None:
                            s2.env.pop((-1, '<exc>'), None)
                        else:
                            s2.env[(-1, '<exc>')] = old
                        out.append((s2, c2, v2))
            live = nxt
        return out + [(s, X, exc) for s in live]

    def s_With(self, n, st, fr):
        # contextlib.suppress(X) is try/except X: pass
        if len(n.items) == 1 and isinstance(n.items[0].context_expr,
                                            ast.Call):
            call = n.items[0].context_expr
            r = self.ev(call.func, self_copy(st), fr)
            if len(r) == 1 and r[0][2] == ('ext', 'contextlib.suppress'):
                T = call.args[0] if len(call.args) == 1 else ast.Tuple(
                    call.args, ast.Load())
                h = ast.ExceptHandler(T, None, [ast.copy_location(
                    ast.Pass(), n)])
                ast.copy_location(h, n)
                ast.fix_missing_locations(h)
                t = ast.Try(n.body, [h], [], [])
                ast.copy_location(t, n)
                return self.s_Try(t, st, fr)
        out = []
        live = [st]
        for item in n.items:
            nxt = []
            for s in live:
                for s1, c, v in self.ev(item.context_expr, s, fr):
                    if c != N:
                        out.append((s1, c, v))
                        continue
                    if item.optional_vars is not None:
                        for s2, c2, v2 in self.assign(
                                item.optional_vars,
                                ('enter', self.freeze(v, s1)), s1, fr):
                            nxt.append(s2)
                    else:
                        nxt.append(s1)
            live = nxt
        for s in live:
            out += self.block(n.body, s, fr)
        return out

    s_AsyncWith = s_With

    def s_Match(self, n, st, fr):
        self.note('match statement approximated')
        out = []
        for s, c, v in self.ev(n.subject, st, fr):
            if c != N:
                out.append((s, c, v))
                continue
            live = [s]
            for case in n.cases:
                nxt = []
                for s1 in live:
                    t = self.pattern(case.pattern, v, s1, fr)
                    if t is None:
                        s2 = self.fork(s1)
                        out += self.block(case.body, s2, fr)
                        nxt.append(s1)
                        continue
                    for s2, b in self.split(s1, t):
                        if b:
                            out += self.block(case.body, s2, fr)
                        else:
                            nxt.append(s2)
                live = nxt
            out += [(s1, N, None) for s1 in live]
        return out

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            r = self.ev(p.value, st, fr)
            return ('cmp', '==', v, r[0][2])
        if isinstance(p, ast.MatchSingleton):
            return ('cmp', 'is', v, const(p.value))
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                st.env[(fr.fid, p.name)] = v
            return TRUE
        return None

    # -- entries ------------------------------------------------------------

    def run(self, fterm, args, kw, st=None):
        """Analyse a call of fterm from unknown code; list of Path."""
        st = st or State()
        fr = Frame(self.iid('entry'), None, self.prog.package, None, set(),
                   '<entry>')
        self.nstates = 0
        if fterm[0] == 'func':
            fi = self.prog.functions[fterm[1]]
            res = self.inline(st, fr, fi.node, fi.qual, fi.module.name, None,
                              args, kw, entry=True)
        else:
            res = self.call(st, fr, fterm, args, kw)
        return [Path(s, c, self.freeze(v, s) if isinstance(v, tuple) else v)
                for s, c, v in res]

    def run_entry(self, qual, positional=None, opts='OPTS', extra_kw=(),
                  only=None, without=()):
        """Call function `qual` with symbolic parameters: the leading
        positional parameters become symbols of their own name, every other
        parameter comes from the unknown option mapping."""
        fi = self.prog.functions[qual]
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        npos = positional if positional is not None else len(names)
        args = tuple(('sym', n) for n in names[:npos])
        if isinstance(only, dict):
            args = tuple(only.get(n, ('sym', n)) for n in names[:npos])
        kw = (('rest', ('sym', opts), frozenset(without)),) + tuple(extra_kw)
        return self.run(('func', qual), args, kw)

    def run_module(self, modname):
        """Evaluate the module-level statements of a module."""
        m = self.prog.modules[modname]
        st = State()
        fr = Frame(self.iid('m', modname), None, modname, None, None, modname)
        res = self.block(m.body, st, fr)
        return [Path(s, c, v) for s, c, v in res]


def self_copy(st):
    return st.copy()
