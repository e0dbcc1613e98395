"""Shared machinery of the rules: anchors, cached analyses, findings."""
import ast
import json
import os
import time

from .interp import Interp, Policy, Budget
from .model import AnalysisBroken, Program
from .terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JSA_REPO', '/repo')

API = ('dump', 'dumps', 'dumpb', 'load', 'loads', 'loadb', 'transform',
       'set_serializer', 'set_deserializer', 'get_serializer',
       'get_deserializer', 'set_validator', 'get_validator', 'validate',
       'announce_class', 'suppress_warnings', 'suppress_warning', 'fork')


class Finding:
    def __init__(self, rule, construct, where, msg):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.msg = msg

    @property
    def key(self):
        return '%s:%s' % (self.rule, self.construct)


class Ctx:
    def __init__(self, prop, tier='quick', prog=None):
        self.prop = prop
        self.tier = tier
        self.prog = prog or Program(REPO)
        self.findings = {}
        self.counts = {}
        self.notes = []
        self.undecided = []
        self.samples = {}
        self._runs = self.prog.__dict__.setdefault('_runs', {})
        self.rules = []

    # -- anchors ------------------------------------------------------------

    def fn(self, name):
        return self.prog.public_func(name).qual

    def cls(self, name):
        return self.prog.public_class(name).qual

    def api(self, *names):
        return {self.fn(n) for n in names}

    @property
    def holder(self):
        """The state holder: the default fork of dump."""
        it = Interp(self.prog, Policy())
        if it.holder is None:
            raise AnalysisBroken('the default fork of dump was not found')
        return it.holder

    def path(self, qual):
        f = self.prog.functions.get(qual)
        if f:
            return os.path.relpath(f.module.path, self.prog.repo)
        while qual:
            if qual in self.prog.modules:
                return os.path.relpath(self.prog.modules[qual].path,
                                       self.prog.repo)
            if '.' not in qual:
                break
            qual = qual.rsplit('.', 1)[0]
        return qual

    # -- registrations -------------------------------------------------------

    def registry(self):
        """Default registrations in order:
        [(kind, function term, [class terms], high_prio, line)]."""
        if '_registry' in self.prog.__dict__:
            return self.prog._registry
        ser, de = self.fn('set_serializer'), self.fn('set_deserializer')
        it = Interp(self.prog, Policy(boundary={ser, de}, interest={ser, de},
                                      never_raise={ser, de}))
        out = []
        paths = [p for p in it.run_module(self.prog.package) if p.ctl == 'N']
        if not paths:
            raise AnalysisBroken('the package cannot be initialised')
        path = max(paths, key=lambda p: len(p.events))
        for e in path.events:
            if e.kind != 'call' or e.callee[0] != 'func' or \
                    e.callee[1] not in (ser, de):
                continue
            fn = self.arg(e, 0, 'func')
            cls = self.arg(e, 1, 'cls')
            prio = self.arg(e, 2, 'high_prio')
            classes = list(cls[1]) if cls and cls[0] == 'tup' else \
                list(cls[3]) if cls and cls[0] == 'L' else [cls]
            out.append(('serializer' if e.callee[1] == ser else
                        'deserializer', fn, classes,
                        prio != FALSE, e))
        if len(out) < 20:
            raise AnalysisBroken('only %d default registrations found'
                                 % len(out))
        self.prog._registry = out
        return out

    def lizers(self, kind):
        """Default (de)serializer functions, in registration order."""
        out = []
        for k, fn, classes, prio, e in self.registry():
            if k == kind and fn and fn[0] == 'func' and fn[1] not in out:
                out.append(fn[1])
        return out

    def lizer_for(self, kind, dotted):
        for k, fn, classes, prio, e in reversed(self.registry()):
            if k == kind and ('ext', dotted) in classes:
                return fn[1]
        raise AnalysisBroken('no default %s for %s' % (kind, dotted))

    # -- running --------------------------------------------------------------

    def analyse(self, qual, positional=None, boundary=(), interest=None,
                bag=False, only=None, extra_kw=(), fallback=True,
                quiet=False, without=(), **pol):
        """Abstract execution of an entry; (interp, paths) or None when the
        state budget is exceeded (reported as undecided)."""
        b = frozenset(boundary)
        i = frozenset(interest if interest is not None else b)
        key = (qual, positional, b, i, bag, repr(only), repr(extra_kw),
               tuple(sorted(without)),
               tuple(sorted((k, repr(v)) for k, v in pol.items())))
        if key in self._runs:
            r = self._runs[key]
        else:
            it = Interp(self.prog, Policy(boundary=b, interest=i, bag=bag,
                                          **pol))
            try:
                paths = it.run_entry(qual, positional=positional, only=only,
                                     extra_kw=extra_kw, without=without)
                r = (it, paths)
            except Budget:
                r = None
            except AnalysisBroken:
                raise
            except Exception as err:    # construct the engine cannot read
                r = None
                self.note('%s: %s: %s' % (qual, type(err).__name__, err))
            self._runs[key] = r
        if r is None:
            if fallback and not bag:
                return self.analyse(qual, positional, boundary, interest,
                                    True, only, extra_kw,
                                    without=without, **pol)
            if not quiet:
                self.undecide('%s: state budget exceeded' % qual)
            return None
        self.count('entries', 1)
        self.count('abstract_paths', len(r[1]))
        for n in r[0].notes:
            self.note(n)
        self.samples.setdefault('functions', set()).update(r[0].analysed)
        return r

    # -- event helpers ----------------------------------------------------------

    def arg(self, e, pos, name):
        """Argument of a call event by position or name (None if absent)."""
        args = e.args
        if any(a[0] == '*' for a in args[:pos + 1]):
            return None
        if len(args) > pos:
            return args[pos]
        h = get(e.kw, name)
        return h[1] if h else None

    def is_call(self, e, quals):
        return e.kind in ('call', 'recursive') and e.callee and \
            e.callee[0] == 'func' and e.callee[1] in quals

    # -- reporting -----------------------------------------------------------

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def undecide(self, msg):
        if msg not in self.undecided:
            self.undecided.append(msg)

    def sample(self, what, item, limit=60):
        l = self.samples.setdefault(what, [])
        if item not in l and len(l) < limit:
            l.append(item)

    def report(self, rule, construct, msg, qual=None, line=None, ev=None):
        if ev is not None:
            qual, line = ev.func, ev.line
        where = '%s:%s' % (self.path(qual), line) if qual else ''
        if qual:
            where += ' (%s)' % qual.replace(self.prog.package + '.', '', 1)
        f = Finding(rule, construct, where, msg)
        self.findings.setdefault(f.key, f)

    def require(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)


def get(layers, name):
    """('sure', v) | ('maybe', v) | None: value of a keyword."""
    key = const(name) if isinstance(name, str) else name
    for l in reversed(layers):
        if l[0] == 'k':
            if l[1] == key:
                return ('sure', l[2])
            if l[1][0] != 'c':
                return ('maybe', ('lookup', ('D', 0, tuple(layers)), key))
        elif l[0] == 'rest':
            if key[2] in l[2]:
                continue
            return ('maybe', ('opt', l[1], key[2]))
    return None


def short(qual):
    return qual.rsplit('.', 1)[-1]


def norm_kw(layers):
    return [l for l in layers]


def passes(layers, base, names):
    """Names among `names` that a call does not receive from `base`."""
    out = []
    for n in names:
        g = get(layers, n)
        if g is None or g[1] != ('opt', base, n):
            out.append(n)
    return out


def is_ext(t, *names):
    return t[0] == 'ext' and t[1] in names


def ext_call(t, *names):
    """t is a call of one of the external functions."""
    return t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in names


def rest_bases(layers):
    return [l[1] for l in layers if l[0] == 'rest']


def short_show(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + '...'
