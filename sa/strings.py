"""C string functions on constant and unknown strings."""
from . import term as t
from .term import const
from .exec import LIBC
from .ir import AnalysisError


def cstr(m, st, p, limit=4096):
    """Constant NUL-terminated string at p, or None."""
    if p.op != 'ptr' or p.a[1].op != 'const':
        return None
    rid, o = p.a[0], p.a[1].a
    sz = m.regions[rid].size
    out = bytearray()
    while len(out) < limit:
        if isinstance(sz, int) and o >= sz:
            return None
        b = t.word_of(m.content(st, rid).read(o, 1, rid), 1)
        if b.op != 'const':
            return None
        if b.a == 0:
            return bytes(out)
        out.append(b.a)
        o += 1
    return None


def _cmp(fold=False, bounded=False):
    def f(m, a, st, ins):
        x, y = cstr(m, st, a[0]), cstr(m, st, a[1])
        n = None
        if bounded:
            if a[2].op != 'const':
                raise AnalysisError('string comparison of unknown length')
            n = a[2].a
        lits = m.__dict__.setdefault('strlits', set())
        if x is not None:
            lits.add(x)
        if y is not None:
            lits.add(y)
        if x is not None and y is not None:
            if n is not None:
                x, y = x[:n], y[:n]
            if fold:
                x, y = x.lower(), y.lower()
            return const(32, 0 if x == y else -1 if x < y else 1)
        if x is None:
            u, l = a[0], y
        else:
            u, l = a[1], x
        r = t.uf(32, 'strcmp', (u, l, n, fold))
        m.__dict__.setdefault('strufs', []).append(r)
        return r
    return f


LIBC['strcmp'] = _cmp()
LIBC['strncmp'] = _cmp(bounded=True)
LIBC['strcasecmp'] = _cmp(fold=True)
LIBC['strncasecmp'] = _cmp(fold=True, bounded=True)


def _strlen(m, a, st, ins):
    x = cstr(m, st, a[0])
    if x is None:
        return t.uf(64, 'strlen', (a[0],))
    return t.c64(len(x))


LIBC['strlen'] = _strlen
