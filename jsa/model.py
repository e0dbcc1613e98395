"""Program model of the package under analysis: modules, classes, functions.

Everything is read from the current source of /repo/jsons on every run; the
package is parsed with `ast` and never imported.
"""
import ast
import builtins
import hashlib
import os


class AnalysisBroken(Exception):
    """An anchor vanished or the program model could not be built."""


class FuncInfo:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls          # ClassInfo or None
        self.parent = parent    # enclosing FuncInfo for nested functions

    @property
    def name(self):
        return self.node.name

    def __repr__(self):
        return 'FuncInfo(%s)' % self.qual


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.members = {}       # name -> FuncInfo | ast expr
        self.bases = []         # ast exprs

    def __repr__(self):
        return 'ClassInfo(%s)' % self.qual


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.bindings = {}      # name -> list of binding tuples
        self.stub = False
        self.body = tree.body


class Program:
    def __init__(self, repo, package='jsons'):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self.digest = hashlib.sha256()
        root = os.path.join(repo, package)
        if not os.path.isdir(root):
            raise AnalysisBroken('package %s not found in %s' % (package, repo))
        for dirpath, dirnames, filenames in sorted(os.walk(root)):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                self.digest.update(name.encode() + b'\0' + src.encode() + b'\0')
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as err:
                    raise AnalysisBroken('cannot parse %s: %s' % (path, err))
                self.modules[name] = ModuleInfo(name, path, tree, is_pkg)
        if not self.modules:
            raise AnalysisBroken('no modules found')
        for m in self.modules.values():
            self._collect(m, m.body)

    def add_module(self, name, src, stub=False):
        """A module of the analysis itself, e.g. one that uses the package
        the way a client would, or (stub) that stands for an external one.
        It is analysed, never executed."""
        m = ModuleInfo(name, '<%s>' % name, ast.parse(src), False)
        m.stub = stub
        self.modules[name] = m
        self._collect(m, m.body)
        return m

    # -- collection ---------------------------------------------------------

    def _bind(self, m, name, b):
        m.bindings.setdefault(name, []).append(b)

    def _collect(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._func(m, st, m.name + '.' + st.name)
                self._bind(m, st.name, ('func', f))
            elif isinstance(st, ast.ClassDef):
                c = self._class(m, st)
                self._bind(m, st.name, ('class', c))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self._bind(m, a.asname, ('module', a.name))
                    else:
                        self._bind(m, a.name.split('.')[0],
                                   ('module', a.name.split('.')[0]))
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    base = '.'.join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == '*':
                        self._bind(m, '*', ('star', base))
                    else:
                        self._bind(m, a.asname or a.name, ('from', base, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._bind(m, t.id, ('expr', st.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, el in enumerate(t.elts):
                            if isinstance(el, ast.Name):
                                self._bind(m, el.id, ('unpack', st.value, i))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self._bind(m, st.target.id, ('expr', st.value))
            elif isinstance(st, ast.Try):
                self._collect(m, st.body)
                for h in st.handlers:
                    self._collect(m, h.body)
                self._collect(m, st.orelse)
                self._collect(m, st.finalbody)
            elif isinstance(st, ast.If):
                self._collect(m, st.body)
                self._collect(m, st.orelse)
            elif isinstance(st, ast.With):
                self._collect(m, st.body)

    def _func(self, m, node, qual, cls=None, parent=None):
        f = FuncInfo(qual, node, m, cls, parent)
        self.functions[qual] = f
        for sub in ast.walk(node):
            if sub is not node and isinstance(
                    sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = qual + '.<locals>.' + sub.name
                if q not in self.functions:
                    self.functions[q] = FuncInfo(q, sub, m, None, f)
        return f

    def _class(self, m, node):
        c = ClassInfo(m.name + '.' + node.name, node, m)
        c.bases = node.bases
        self.classes[c.qual] = c
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.members[st.name] = self._func(
                    m, st, c.qual + '.' + st.name, cls=c)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = st.value
                    elif isinstance(t, ast.Tuple):
                        for el in t.elts:
                            if isinstance(el, ast.Name):
                                c.members[el.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None \
                    and isinstance(st.target, ast.Name):
                c.members[st.target.id] = st.value
        return c

    # -- resolution ---------------------------------------------------------

    def resolve_global(self, modname, name, _seen=()):
        """Return ('func',FuncInfo)|('class',ClassInfo)|('mod',name)|
        ('ext',dotted)|('expr',node,module)|None for a module-level name."""
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if (modname, name) in _seen:
            return None
        _seen = _seen + ((modname, name),)
        bs = m.bindings.get(name)
        if not bs:
            sub = modname + '.' + name
            if sub in self.modules:
                return ('mod', sub)
            if m.stub:
                return ('ext', sub)
            for b in m.bindings.get('*', ()):
                r = self.resolve_global(b[1], name, _seen)
                if r:
                    return r
            return None
        for b in bs:
            r = self._resolve_binding(m, b, _seen)
            if r is not None:
                return r
        return None

    def _resolve_binding(self, m, b, seen):
        if b[0] == 'func':
            return ('func', b[1])
        if b[0] == 'class':
            return ('class', b[1])
        if b[0] == 'module':
            return ('mod', b[1]) if b[1] in self.modules else ('ext', b[1])
        if b[0] == 'from':
            if b[1] in self.modules:
                r = self.resolve_global(b[1], b[2], seen)
                if r is None:
                    sub = b[1] + '.' + b[2]
                    if sub in self.modules:
                        return ('mod', sub)
                    return ('unresolved', b[1] + '.' + b[2])
                return r
            return ('ext', (b[1] + '.' + b[2]) if b[1] else b[2])
        if b[0] == 'expr':
            return ('expr', b[1], m)
        if b[0] == 'unpack':
            return ('unpack', b[1], b[2], m)
        return None

    def resolve_name(self, modname, name):
        m = self.modules.get(modname)
        if m is not None and m.stub and name not in m.bindings:
            r = None
        else:
            r = self.resolve_global(modname, name)
        if r is None and hasattr(builtins, name):
            return ('ext', 'builtins.' + name)
        return r

    def public(self, name):
        """Resolve a public name of the package (`jsons.<name>`)."""
        r = self.resolve_global(self.package, name)
        if r is None or r[0] == 'unresolved':
            raise AnalysisBroken('public name jsons.%s not found' % name)
        return r

    def public_func(self, name):
        r = self.public(name)
        if r[0] != 'func':
            raise AnalysisBroken('jsons.%s is not a plain function any more'
                                 % name)
        return r[1]

    def public_class(self, name):
        r = self.public(name)
        if r[0] != 'class':
            raise AnalysisBroken('jsons.%s is not a class any more' % name)
        return r[1]

    def base_classes(self, c):
        out = []
        for b in c.bases:
            if isinstance(b, ast.Name):
                r = self.resolve_name(c.module.name, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r0 = self.resolve_name(c.module.name, b.value.id)
                r = None
                if r0 and r0[0] == 'mod':
                    r = self.resolve_global(r0[1], b.attr)
                elif r0 and r0[0] == 'ext':
                    r = ('ext', r0[1] + '.' + b.attr)
            else:
                r = None
            out.append(r)
        return out

    def mro(self, c):
        """Linearised list of ('class',ClassInfo)/('ext',name): C3 where
        possible, depth-first otherwise."""
        def lin(entry):
            if entry is None:
                return []
            if entry[0] != 'class':
                return [entry]
            bs = self.base_classes(entry[1])
            seqs = [lin(b) for b in bs] + [[b for b in bs if b]]
            out = [entry]
            seqs = [s[:] for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        return lin(('class', c))

    def is_subclass(self, c, other):
        """c, other: ('class', ClassInfo) or ('ext', dotted). True/False/None"""
        if c == other:
            return True
        if other == ('ext', 'builtins.object'):
            return True
        if c[0] == 'class':
            chain = self.mro(c[1])
            if other in chain:
                return True
            res = False
            for e in chain[1:]:
                if e and e[0] == 'ext':
                    r = ext_subclass(e[1], other[1]) if other[0] == 'ext' \
                        else False
                    if r:
                        return True
                    if r is None:
                        res = None
            return res
        if other[0] == 'class':
            return False
        return ext_subclass(c[1], other[1])


def ext_object(dotted):
    """Type information of the standard library (never of the package)."""
    import importlib
    parts = dotted.split('.')
    if parts[0] == 'builtins' and len(parts) == 2:
        return getattr(builtins, parts[1], None)
    if dotted == 'builtins.NoneType':
        return type(None)
    root = parts[0]
    import sys
    if root not in sys.stdlib_module_names:
        return None
    for cut in range(len(parts) - 1, 0, -1):
        try:
            mod = importlib.import_module('.'.join(parts[:cut]))
        except ImportError:
            continue
        obj = mod
        try:
            for p in parts[cut:]:
                obj = getattr(obj, p)
            return obj
        except AttributeError:
            return None
    return None


def ext_subclass(a, b):
    if a == b:
        return True
    oa = type(None) if a == 'builtins.NoneType' else ext_object(a)
    ob = type(None) if b == 'builtins.NoneType' else ext_object(b)
    if oa is None or ob is None:
        return None
    try:
        return issubclass(oa, ob)
    except TypeError:
        return None
