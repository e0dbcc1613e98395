"""Terms: the abstract values of the value-flow analysis.

Terms are plain nested tuples, so two program points that compute "the same
thing" from the entry parameters have equal terms however the source is
spelled.  Tags:

 ('c', typename, value)      constant
 ('sym', name[, clsqual])    entry parameter / unknown (optionally a class
                             object or instance of a known package class)
 ('opt', base, name)         the option `name` of the unknown option mapping
 ('ext', dotted)             stdlib / third-party object
 ('func', qual) ('cls', qual) ('mod', name)
 ('clo', n)                  closure (nested function or lambda)
 ('bm', self, func)          bound method of the package
 ('ref', n)                  heap object (list, dict, set, instance, task)
 ('tup', items)              tuple of known shape
 ('attr', t, name) ('item', t, k) ('elem', t, i) ('idx', t, i)
 ('call', f, args, kw) ('mcall', t, name, args, kw)
 ('bin', op, a, b) ('un', op, a) ('cmp', op, a, b) ('fmt', parts)
 ('new', cls, args, kw)      construction of a package class (exceptions)
 ('evt', n, callee)          result of an observed call
 ('exc', n, what)            unknown exception raised by an observed call
 ('L', kind, n, items) ('D', n, layers) ('O', n, what, attrs)
                             frozen snapshots of heap objects
"""

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)
ELLIPSIS = ('c', 'ellipsis', '...')


def const(v):
    if v is Ellipsis:
        return ELLIPSIS
    return ('c', type(v).__name__, v)


def is_const(t):
    return t[0] == 'c'


def subterms(t):
    """All sub-terms (terms are tuples whose first element is a str tag)."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            if x and x[0] == 'c' and len(x) == 3:
                continue
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, needle):
    return any(s == needle for s in subterms(t))


def root(t):
    """The object a term was reached from through attributes/items."""
    while True:
        if t[0] in ('attr', 'item', 'elem', 'mcallget'):
            t = t[1]
        else:
            return t


def show(t, depth=0):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 6:
        return '...'
    d = depth + 1
    k = t[0]
    if k == 'c':
        return '...' if t[1] == 'ellipsis' else repr(t[2])
    if k == 'sym':
        return t[1]
    if k == 'opt':
        return 'option %s' % t[2]
    if k == 'ext':
        return t[1][9:] if t[1].startswith('builtins.') else t[1]
    if k in ('func', 'cls'):
        return t[1]
    if k == 'mod':
        return t[1]
    if k == 'attr':
        return '%s.%s' % (show(t[1], d), t[2])
    if k == 'item':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if k == 'elem':
        return 'element#%s of %s' % (t[2], show(t[1], d))
    if k == 'idx':
        return 'index#%s of %s' % (t[2], show(t[1], d))
    if k == 'tup':
        return '(%s)' % ', '.join(show(x, d) for x in t[1])
    if k == 'call':
        return '%s(%s)' % (show(t[1], d), _args(t[2], t[3], d))
    if k == 'mcall':
        return '%s.%s(%s)' % (show(t[1], d), t[2], _args(t[3], t[4], d))
    if k == 'new':
        return '%s(%s)' % (t[1].rsplit('.', 1)[-1], _args(t[2], t[3], d))
    if k == 'bin':
        return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
    if k == 'cmp':
        return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
    if k == 'un':
        return '(%s %s)' % (t[1], show(t[2], d))
    if k == 'evt':
        return 'result of %s' % show(t[2], d)
    if k == 'exc':
        return 'error from %s' % (t[2],)
    if k == 'fmt':
        return 'f"%s"' % ''.join(
            p[2] if p[0] == 'c' and p[1] == 'str' else '{%s}' % show(p, d)
            for p in t[1])
    if k == 'L':
        return '%s[%s]' % (t[1], ', '.join(show(x, d) for x in t[3]))
    if k == 'D':
        return '{%s}' % ', '.join(_layer(x, d) for x in t[2])
    if k == 'O':
        return '<%s>' % show(t[2], d) if isinstance(t[2], tuple) \
            else '<%s>' % t[2]
    if k == 'clo':
        return '<closure %s>' % (t[1],)
    if k == 'bm':
        return '%s.%s' % (show(t[1], d), show(t[2], d))
    return '%s(%s)' % (k, ', '.join(
        show(x, d) if isinstance(x, tuple) else str(x) for x in t[1:]))


def _args(args, kw, d):
    out = [show(a, d) for a in args]
    for l in kw:
        out.append(_layer(l, d))
    return ', '.join(out)


def _layer(l, d):
    if l[0] == 'k':
        k = l[1]
        name = k[2] if k[0] == 'c' and isinstance(k[2], str) else show(k, d)
        return '%s=%s' % (name, show(l[2], d))
    if l[0] == 'rest':
        return '**%s%s' % (show(l[1], d), ('-' + ','.join(sorted(l[2])))
                           if l[2] else '')
    return str(l)
