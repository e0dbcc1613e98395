"""The export table is complete and valid. The module-level statements of the
package are executed abstractly; the value of __all__ at the end is compared
with the names bound at the end, with the names the package documents and with
the default (de)serializers that are registered. Every import between modules
of the package must resolve. Reading the name of something that is only
defined where an optional module exists must be guarded by a test of it."""
import ast

from ..options import *

DOCUMENTED = (
    '__version__ dump dumps dumpb load loads loadb transform fork '
    'set_serializer get_serializer set_deserializer get_deserializer '
    'get_validator set_validator validate announce_class suppress_warnings '
    'suppress_warning JsonSerializable Verbosity snakecase camelcase '
    'pascalcase lispcase KEY_TRANSFORMER_SNAKECASE KEY_TRANSFORMER_CAMELCASE '
    'KEY_TRANSFORMER_PASCALCASE KEY_TRANSFORMER_LISPCASE JsonsError '
    'ValidationError SerializationError DeserializationError DecodeError '
    'UnfulfilledArgumentError InvalidDecorationError').split()


def check(ctx):
    ctx.rule('every entry of __all__ is a string bound in the package, none '
             'occurs twice, and the documented names and registered default '
             '(de)serializers are among them')
    ctx.rule('every import between modules of the package resolves')
    ctx.rule('the name of an optional definition is read under a guard')
    ser, de = ctx.fn('set_serializer'), ctx.fn('set_deserializer')
    pkg = ctx.prog.package
    it = Interp(ctx.prog, Policy(boundary={ser, de}, interest={ser, de},
                                 never_raise={ser, de}))
    paths = [p for p in it.run_module(pkg)]
    ctx.count('abstract_paths', len(paths))
    ok = [p for p in paths if p.ctl == 'N']
    if not ok:
        ctx.report('import', 'import', 'importing the package always fails',
                   pkg, 1)
    for p in ok:
        table(ctx, it, p, pkg)
    imports(ctx)
    optional(ctx, pkg)


def table(ctx, it, p, pkg):
    env = {k[1]: v for k, v in p.st.env.items() if isinstance(k[1], str)}
    if '__all__' not in env:
        ctx.report('table', '__all__', 'the package exports no names', pkg, 1)
        return
    t = it.freeze(env['__all__'], p.st)
    items = t[3] if t[0] == 'L' else t[1] if t[0] == 'tup' else None
    line = next((n.lineno for n in ctx.prog.modules[pkg].body
                 if isinstance(n, ast.Assign) and any(
                     isinstance(x, ast.Name) and x.id == '__all__'
                     for x in n.targets)), 1)
    if items is None:
        ctx.undecide('the value of __all__: %s' % short_show(t))
        return
    names = []
    unknown = False
    for x in items:
        ctx.count('entries_of_the_table')
        if x[0] == 'c' and isinstance(x[2], str):
            if x[2] in names:
                ctx.report('twice', x[2], '%s is exported twice' % x[2], pkg,
                           line)
            names.append(x[2])
        elif x[0] in ('c', 'func', 'cls', 'ext', 'L', 'D', 'tup', 'new',
                      'bmeth'):
            unknown = unknown or x[0] != 'c'
            ctx.report('entry', show(x), '__all__ contains %s' % show(x), pkg,
                       line)
        else:
            unknown = True
            ctx.undecide('entry of __all__: %s' % short_show(x))
    for n in names:
        if n not in env and ctx.prog.resolve_global(pkg, n) is None:
            ctx.report('unbound', n, '%s is exported but not defined, so '
                       'importing everything fails' % n, pkg, line)
        elif n in env and env[n] == NONE:
            ctx.report('unbound', n, '%s is exported but None' % n, pkg, line)
        elif n in env and env[n][0] in ('func', 'cls') and \
                short(env[n][1]) != n and \
                short(env[n][1]) in names and not n.isupper():
            ctx.report('other', n, '%s is exported but is %s' % (
                n, short(env[n][1])), pkg, line)
        elif n.startswith('KEY_TRANSFORMER_') and n in env and \
                env[n][0] == 'func' and \
                short(env[n][1]) != n.rsplit('_', 1)[1].lower():
            ctx.report('other', n, '%s is %s' % (n, short(env[n][1])), pkg,
                       line)
    if unknown:
        return
    for n in DOCUMENTED:
        ctx.count('obligations')
        if n not in names:
            ctx.report('missing', n, '%s is documented but not exported' % n,
                       pkg, line)
    for kind in ('serializer', 'deserializer'):
        for q in ctx.lizers(kind):
            ctx.count('obligations')
            if short(q).startswith('default_') and short(q) not in names:
                ctx.report('missing', short(q), '%s is a default %s but not '
                           'exported' % (short(q), kind), pkg, line)


def imports(ctx):
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            mod = n.module or ''
            if n.level:
                base = m.name if m.is_pkg else m.name.rpartition('.')[0]
                for _ in range(n.level - 1):
                    base = base.rpartition('.')[0]
                mod = base + ('.' + mod if mod else '')
            if mod.split('.')[0] != ctx.prog.package:
                continue
            for al in n.names:
                ctx.count('imports')
                if al.name == '*':
                    continue
                if mod not in ctx.prog.modules:
                    ctx.report('import', '%s:%s' % (m.name, mod),
                               'the module %s does not exist' % mod, m.name,
                               n.lineno)
                    continue
                r = ctx.prog.resolve_global(mod, al.name)
                if r is None and mod + '.' + al.name in ctx.prog.modules:
                    continue
                if r is None or r[0] == 'unresolved':
                    ctx.report('import', '%s:%s' % (m.name, al.name),
                               '%s has no %s' % (mod, al.name), m.name,
                               n.lineno)


def maybe_none(ctx, mod, name):
    """A global that is None where an optional module is missing."""
    m = ctx.prog.modules.get(mod)
    bs = m.bindings.get(name, ()) if m else ()
    none = False
    for b in bs:
        if b[0] == 'from' and b[1] in ctx.prog.modules:
            return maybe_none(ctx, b[1], b[2])
        if b[0] == 'expr' and isinstance(b[1], ast.Constant) and \
                b[1].value is None:
            none = True
    return none and len(bs) > 1


def optional(ctx, pkg):
    m = ctx.prog.modules[pkg]

    def visit(n, guards):
        if isinstance(n, ast.If):
            tests = guards | {x.id for x in ast.walk(n.test)
                              if isinstance(x, ast.Name)}
            for c in n.body:
                visit(c, tests)
            for c in n.orelse:
                visit(c, guards)
            return
        if isinstance(n, ast.IfExp):
            visit(n.body, guards | {x.id for x in ast.walk(n.test)
                                    if isinstance(x, ast.Name)})
            visit(n.orelse, guards)
            return
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and maybe_none(ctx, pkg, n.value.id):
            ctx.count('optional_uses')
            if n.value.id not in guards:
                ctx.report('optional', n.value.id, '%s is used although it '
                           'is None where its module is missing' %
                           n.value.id, pkg, n.lineno)
        for c in ast.iter_child_nodes(n):
            visit(c, guards)
    for n in m.body:
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            visit(n, set())
