"""Hash-consed value terms in normal form.

Integer terms (class T) of width w:
  const, sym, byte(arr,k), lin (linear form mod 2^w), cat (bit slices, low part first), ite, switch,
  bitwise and/or/xor, sext, variable shifts, mul/div nodes, uf, ptr(region, offset).
Width-1 terms are booleans: eq, ult, slt, not, band, bor.
Byte arrays (class A): asym (unknown contents), auf (result of an uninterpreted function), aite.
A byte string is a tuple of pieces (src, off, len): src an A, a T (bytes of a word), or an int (fill byte)."""
import hashlib

_tab = {}
_next = [0]


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'lo', 'hi', '__weakref__')

    def __repr__(self):
        return show(self)


class A:
    __slots__ = ('op', 'a', 'id', 'n')

    def __repr__(self):
        return show_arr(self)


def M(w):
    return (1 << w) - 1


def _mk(op, w, a, lo=None, hi=None):
    key = (op, w, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.w, t.a = op, w, a
        t.id = _next[0]
        _next[0] += 1
        t.lo = 0 if lo is None else lo
        t.hi = M(w) if hi is None else hi
        _tab[key] = t
    return t


def _mka(op, a, n=None):
    key = ('A', op, a)
    t = _tab.get(key)
    if t is None:
        t = A()
        t.op, t.a = op, a
        t.id = _next[0]
        _next[0] += 1
        t.n = n
        _tab[key] = t
    return t


# ------------------------------------------------------------------ constructors
def const(w, v):
    v &= M(w)
    return _mk('const', w, v, v, v)


TRUE = const(1, 1)
FALSE = const(1, 0)


def c64(v):
    return const(64, v)


def sym(w, name, lo=0, hi=None):
    hi = M(w) if hi is None else hi
    t = _mk('sym', w, name, lo, hi)
    if t.lo != lo or t.hi != hi:
        t = _mk('sym', w, f'{name}[{lo},{hi}]', lo, hi)
    return t


def asym(name):
    return _mka('asym', name)


def auf(name, args, n):
    """Array result of uninterpreted function; args: tuple of T or canonical byte strings or hashables."""
    return _mka('auf', (name, args), n)


def uf(w, name, args):
    return _mk('uf', w, (name, args))


def is_const(t):
    return t.op == 'const'


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def maskof(t):
    """Bits that may be one."""
    if t.op == 'const':
        return t.a
    if t.op == 'cat':
        m = 0
        p = 0
        for (s, lo, n) in t.a:
            m |= ((maskof(s) >> lo) & M(n)) << p
            p += n
        return m
    return M(t.hi.bit_length())


def _bits(t):
    """Parts view of a term: list of (src, lo, len); src is never a cat."""
    if t.op == 'cat':
        return list(t.a)
    return [(t, 0, t.w)]


def _lowtrunc(t, m):
    return extract(t, 0, m)


def mk_cat(parts):
    """parts: list of (src, lo, len), low first, src non-cat."""
    out = []
    for (s, lo, n) in parts:
        if n == 0:
            continue
        if s.op == 'const':
            v = (s.a >> lo) & M(n)
            if out and out[-1][0].op == 'const':
                ps, pl, pn = out[-1]
                out[-1] = (const(pn + n, ps.a | (v << pn)), 0, pn + n)
            else:
                out.append((const(n, v), 0, n))
            continue
        # bits known to be zero
        bl = s.hi.bit_length()
        if lo >= bl:
            if out and out[-1][0].op == 'const':
                ps, pl, pn = out[-1]
                out[-1] = (const(pn + n, ps.a), 0, pn + n)
            else:
                out.append((const(n, 0), 0, n))
            continue
        if lo + n > bl:
            k = bl - lo
            parts2 = [(s, lo, k), (const(n - k, 0), 0, n - k)]
        else:
            parts2 = [(s, lo, n)]
        for (s2, lo2, n2) in parts2:
            if out:
                ps, pl, pn = out[-1]
                if s2.op == 'const' and ps.op == 'const':
                    out[-1] = (const(pn + n2, ps.a | (s2.a << pn)), 0, pn + n2)
                    continue
                if s2.op != 'const' and ps.op != 'const' and lo2 == pl + pn:
                    if ps is s2:
                        out[-1] = (s2, pl, pn + n2)
                        continue
                    if ps.w < s2.w and ps.w == lo2 and s2.op == 'lin' and extract(s2, 0, ps.w) is ps:
                        out[-1] = (s2, pl, pn + n2)
                        continue
            out.append((s2, lo2, n2))
    w = sum(p[2] for p in out)
    if len(out) == 1:
        s, lo, n = out[0]
        if s.op == 'const':
            return const(w, s.a >> lo)
        if lo == 0 and n == s.w:
            return s
    elif len(out) == 2 and out[1][0].op == 'const' and out[1][0].a == 0:
        s, lo, n = out[0]
        if lo == 0 and s.w == w and s.hi <= M(n):
            return s
        if lo == 0 and s.w < w and n == s.hi.bit_length() and s.op in ('ite', 'switch'):
            return zext(s, w)
    lo_ = hi_ = 0
    p = 0
    for (s, lo, n) in out:
        if s.op == 'const':
            v = (s.a >> lo) & M(n)
            lo_ += v << p
            hi_ += v << p
        else:
            if s.hi >> lo <= M(n):
                hi_ += (s.hi >> lo) << p
                lo_ += (s.lo >> lo) << p
            else:
                hi_ += M(n) << p
        p += n
    return _mk('cat', w, tuple(out), lo_, hi_)


def _divlin(t, k):
    """Exact shape (t - t mod 2^k) / 2^k for a lin whose coefficients are divisible by 2^k, at width w-k."""
    c0, terms = t.a
    w = t.w - k
    d = {}
    for (x, c) in terms:
        y = extract(x, 0, w)
        d[y] = d.get(y, 0) + (c >> k)
    return mk_lin(w, c0 >> k, d)


def extract(t, lo, n):
    if lo == 0 and n == t.w:
        return t
    op = t.op
    if op == 'const':
        return const(n, t.a >> lo)
    if op == 'cat':
        out = []
        p = 0
        end = lo + n
        for (s, sl, sn) in t.a:
            a = max(lo, p)
            b = min(end, p + sn)
            if a < b:
                out.append((s, sl + a - p, b - a))
            p += sn
        # a slice of a linear form keeps only the bits it needs
        out2 = []
        for (s, sl, sn) in out:
            if s.op == 'lin' and sl + sn < s.w:
                out2 += _bits(extract(s, sl, sn))
            else:
                out2.append((s, sl, sn))
        return mk_cat(out2)
    if op == 'ite':
        return ite(t.a[0], extract(t.a[1], lo, n), extract(t.a[2], lo, n))
    if op == 'switch':
        x, cs, d = t.a
        return mk_switch(x, {k: extract(v, lo, n) for k, v in cs}, extract(d, lo, n))
    if op in ('and', 'or', 'xor'):
        r = None
        for x in t.a:
            y = extract(x, lo, n)
            r = y if r is None else bitop(op, r, y)
        return r
    if op == 'lin':
        if lo == 0:
            c0, terms = t.a
            d = {}
            for (x, c) in terms:
                y = extract(x, 0, n)
                d[y] = d.get(y, 0) + c
            return mk_lin(n, c0, d)
        if lo + n < t.w:
            return extract(extract(t, 0, lo + n), lo, n)
        c0, terms = t.a
        v = min((c & -c).bit_length() - 1 for _, c in terms)
        v = min(v, lo)
        if v > 0:
            return extract(_divlin(t, v), lo - v, n)
        return mk_cat([(t, lo, n)])
    if op == 'sext':
        s = t.a[0]
        if lo + n <= s.w:
            return extract(s, lo, n)
    if op == 'mul' and lo == 0:
        return mul(extract(t.a[0], 0, n), extract(t.a[1], 0, n))
    if op == 'ptr':
        return mk_cat([(t, lo, n)])
    return mk_cat([(t, lo, n)])


def concat(*ts):
    """Low part first."""
    parts = []
    for t in ts:
        parts += _bits(t)
    return mk_cat(parts)


def _lin_range(w, c0, terms):
    """Signed-coefficient integer range of a linear form, or None."""
    lo = hi = sgn(c0, w)
    for (x, c) in terms:
        c = sgn(c, w)
        if c > 0:
            lo += c * x.lo
            hi += c * x.hi
        else:
            lo += c * x.hi
            hi += c * x.lo
    return lo, hi


def zext(t, w):
    if w == t.w:
        return t
    if t.op == 'const':
        return const(w, t.a)
    if t.op == 'ite':
        return ite(t.a[0], zext(t.a[1], w), zext(t.a[2], w))
    if t.op == 'switch':
        x, cs, d = t.a
        return mk_switch(x, {k: zext(v, w) for k, v in cs}, zext(d, w))
    if t.op == 'lin':
        c0, terms = t.a
        lo, hi = _lin_range(t.w, c0, terms)
        if lo >= 0 and hi <= M(t.w):
            return mk_lin(w, sgn(c0, t.w), {zext(x, w): sgn(c, t.w) for x, c in terms})
    return mk_cat(_bits(t) + [(const(w - t.w, 0), 0, w - t.w)])


def sext(t, w):
    if w == t.w:
        return t
    if t.op == 'const':
        return const(w, sgn(t.a, t.w))
    if t.hi < 1 << (t.w - 1):
        return zext(t, w)
    if t.op == 'ite':
        return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    if t.op == 'switch':
        x, cs, d = t.a
        return mk_switch(x, {k: sext(v, w) for k, v in cs}, sext(d, w))
    if t.op == 'lin':
        c0, terms = t.a
        lo, hi = _lin_range(t.w, c0, terms)
        if -(1 << (t.w - 1)) <= lo and hi < 1 << (t.w - 1):
            return mk_lin(w, sgn(c0, t.w), {zext(x, w): sgn(c, t.w) for x, c in terms})
    if t.op == 'sext':
        return sext(t.a[0], w)
    return _mk('sext', w, (t,))


def trunc(t, w):
    return extract(t, 0, w)


def _addterm(w, d, t, c):
    """Add c*t into dict d; returns constant contribution."""
    c &= M(w)
    if c == 0:
        return 0
    if t.op == 'const':
        return t.a * c
    if t.op == 'lin':
        c0, terms = t.a
        k = c0 * c
        for (x, cc) in terms:
            k += _addterm(w, d, x, cc * c)
        return k
    if t.op == 'ptr':
        b = _mk('pbase', 64, t.a[0])
        d[b] = d.get(b, 0) + c
        return _addterm(w, d, t.a[1], c)
    if t.op == 'cat':
        parts = t.a
        if parts[0][0].op == 'const':
            v = parts[0][0].a
            n = parts[0][2]
            if v == 0:
                # factor out the power of two
                rest = list(parts[1:]) + [(const(n, 0), 0, n)]
                x = mk_cat(rest)
                return _addterm(w, d, x, c << n)
            # constant low part: v + 2^n * rest
            rest = list(parts[1:]) + [(const(n, 0), 0, n)]
            x = mk_cat(rest)
            return v * c + _addterm(w, d, x, c << n)
    # only the low w-v bits matter
    v = (c & -c).bit_length() - 1
    if v and t.op == 'cat':
        s, lo, n = t.a[0]
        if lo == 0 and n >= w - v and s.w == w:
            t = s
            if t.op in ('lin', 'cat', 'const'):
                return _addterm(w, d, t, c)
        elif sum(1 for _ in t.a) > 1:
            low = extract(t, 0, w - v)
            x = zext(low, w)
            if x is not t:
                return _addterm(w, d, x, c)
    d[t] = d.get(t, 0) + c
    return 0


def mk_lin(w, c0, d):
    dd = {}
    k = c0
    for t, c in d.items():
        k += _addterm(w, dd, t, c)
    k &= M(w)
    terms = [(t, c & M(w)) for t, c in dd.items() if c & M(w)]
    if not terms:
        return const(w, k)
    if len(terms) == 1:
        t, c = terms[0]
        if t.op == 'pbase' and c == 1 and w == 64:
            return _mk('ptr', 64, (t.a, const(64, k)))
        if k == 0:
            if c == 1:
                return t
            if c & (c - 1) == 0:
                n = c.bit_length() - 1
                if t.op in ('ite', 'switch') and _smallconst(t):
                    return _mapite(t, lambda x: mk_lin(w, 0, {x: c}))
                return mk_cat([(const(n, 0), 0, n)] + _bits(extract(t, 0, w - n)))
        if t.op in ('ite', 'switch') and _smallconst(t):
            return _mapite(t, lambda x: const(w, x.a * c + k))
        if t.op == 'pbase':
            if c == 1:
                return _mk('ptr', 64, (t.a, const(64, k)))
    pb = [t for t, c in terms if t.op == 'pbase' and c == 1]
    if len(pb) == 1 and w == 64 and not any(t.op == 'pbase' and c != 1 for t, c in terms):
        off = mk_lin(w, k, {t: c for t, c in terms if t is not pb[0]})
        return _mk('ptr', 64, (pb[0].a, off))
    if len(terms) > 1:
        # disjoint bit fields are a concatenation
        m = k
        ok = True
        for t, c in terms:
            if c & (c - 1):
                ok = False
                break
            mt = (maskof(t) * c)
            if mt > M(w) or (mt & M(w)) & m:
                ok = False
                break
            m |= mt
        if ok:
            return _disjoint(w, [(t, c.bit_length() - 1) for t, c in terms] + ([(const(w, k), 0)] if k else []))
    terms.sort(key=lambda p: p[0].id)
    tt = tuple(terms)
    lo, hi = _lin_range(w, k, tt)
    if lo < 0 or hi > M(w):
        # try the unsigned reading of the constant
        if lo >= -(1 << w) and hi < 0:
            lo += 1 << w
            hi += 1 << w
        else:
            lo, hi = 0, M(w)
    return _mk('lin', w, (k, tt), lo, hi)


def _disjoint(w, fields):
    """fields: (term, shift) with disjoint possible bits."""
    src = [None] * w
    for t, sh in fields:
        p = sh
        for (s, lo, n) in _bits(t):
            for i in range(n):
                if p + i >= w:
                    break
                if s.op == 'const':
                    if (s.a >> (lo + i)) & 1:
                        src[p + i] = (TRUE, 0)
                elif lo + i < s.hi.bit_length():
                    src[p + i] = (s, lo + i)
            p += n
    parts = []
    for b in src:
        if b is None:
            parts.append((FALSE, 0, 1))
        elif b[0] is TRUE:
            parts.append((TRUE, 0, 1))
        elif parts and parts[-1][0] is b[0] and parts[-1][1] + parts[-1][2] == b[1]:
            s, l, n = parts[-1]
            parts[-1] = (s, l, n + 1)
        else:
            parts.append((b[0], b[1], 1))
    return mk_cat(parts)


def _smallconst(t, n=40):
    """ite/switch tree with constant leaves only."""
    cnt = [0]

    def go(x):
        cnt[0] += 1
        if cnt[0] > n:
            return False
        if x.op == 'const':
            return True
        if x.op == 'ite':
            return go(x.a[1]) and go(x.a[2])
        if x.op == 'switch':
            return all(go(v) for _, v in x.a[1]) and go(x.a[2])
        return False
    return go(t)


def _mapite(t, f):
    if t.op == 'ite':
        return ite(t.a[0], _mapite(t.a[1], f), _mapite(t.a[2], f))
    if t.op == 'switch':
        x, cs, d = t.a
        return mk_switch(x, {k: _mapite(v, f) for k, v in cs}, _mapite(d, f))
    return f(t)


def leaves(t, out=None):
    """Leaf values of an ite/switch tree."""
    if out is None:
        out = []
    if t.op == 'ite':
        leaves(t.a[1], out)
        leaves(t.a[2], out)
    elif t.op == 'switch':
        for _, v in t.a[1]:
            leaves(v, out)
        leaves(t.a[2], out)
    elif t not in out:
        out.append(t)
    return out


def add(x, y):
    if x.op == 'const' and y.op == 'const':
        return const(x.w, x.a + y.a)
    if x is y:
        return mk_lin(x.w, 0, {x: 2})
    return mk_lin(x.w, 0, {x: 1, y: 1})


def addc(x, k):
    if x.op == 'const':
        return const(x.w, x.a + k)
    return mk_lin(x.w, k, {x: 1})


def sub(x, y):
    if x.op == 'const' and y.op == 'const':
        return const(x.w, x.a - y.a)
    if x is y:
        return const(x.w, 0)
    return mk_lin(x.w, 0, {x: 1, y: -1})


def mulc(x, k):
    if x.op == 'const':
        return const(x.w, x.a * k)
    return mk_lin(x.w, 0, {x: k})


def mul(x, y):
    if x.op == 'const':
        return mulc(y, x.a)
    if y.op == 'const':
        return mulc(x, y.a)
    for a, b in ((x, y), (y, x)):
        if a.op in ('ite', 'switch') and _smallconst(a, 8):
            return _mapite(a, lambda c: mulc(b, c.a))
    if x.id > y.id:
        x, y = y, x
    hi = x.hi * y.hi
    if hi <= M(x.w):
        return _mk('mul', x.w, (x, y), x.lo * y.lo, hi)
    return _mk('mul', x.w, (x, y))


def udiv(x, y):
    w = x.w
    if y.op == 'const' and y.a:
        if x.op == 'const':
            return const(w, x.a // y.a)
        if y.a & (y.a - 1) == 0:
            return lshrc(x, y.a.bit_length() - 1)
        if x.op == 'lin':
            c0, terms = x.a
            lo, hi = _lin_range(w, c0, terms)
            if lo >= 0 and hi <= M(w):
                # (y*q + r) / y for r in [0, y)
                q = {t: sgn(c, w) // y.a for t, c in terms if sgn(c, w) % y.a == 0}
                r = {t: sgn(c, w) for t, c in terms if sgn(c, w) % y.a}
                if q and not r:
                    s0 = sgn(c0, w)
                    return mk_lin(w, s0 // y.a, q)
                if q and r:
                    s0 = sgn(c0, w) % y.a
                    rl, rh = _lin_range(w, s0 & M(w), [(t, c & M(w)) for t, c in r.items()])
                    if rl >= 0 and rh < y.a:
                        return mk_lin(w, (sgn(c0, w) - s0) // y.a, q)
        if x.hi < y.a:
            return const(w, 0)
        return _mk('udiv', w, (x, y), x.lo // y.a, x.hi // y.a)
    return _mk('udiv', w, (x, y))


def urem(x, y):
    w = x.w
    if y.op == 'const' and y.a:
        if x.op == 'const':
            return const(w, x.a % y.a)
        if y.a & (y.a - 1) == 0:
            n = y.a.bit_length() - 1
            return zext(extract(x, 0, n), w) if n else const(w, 0)
        if x.hi < y.a:
            return x
        if x.op == 'lin':
            q = udiv(x, y)
            if q.op != 'udiv':
                return sub(x, mulc(q, y.a))
        return _mk('urem', w, (x, y), 0, y.a - 1)
    return _mk('urem', w, (x, y))


def sdiv(x, y):
    if x.hi < 1 << (x.w - 1) and y.hi < 1 << (y.w - 1):
        return udiv(x, y)
    if x.op == 'const' and y.op == 'const' and y.a:
        a, b = sgn(x.a, x.w), sgn(y.a, y.w)
        q = abs(a) // abs(b)
        return const(x.w, q if (a < 0) == (b < 0) else -q)
    return _mk('sdiv', x.w, (x, y))


def srem(x, y):
    if x.hi < 1 << (x.w - 1) and y.hi < 1 << (y.w - 1):
        return urem(x, y)
    if x.op == 'const' and y.op == 'const' and y.a:
        a, b = sgn(x.a, x.w), sgn(y.a, y.w)
        r = abs(a) % abs(b)
        return const(x.w, -r if a < 0 else r)
    return _mk('srem', x.w, (x, y))


def shlc(x, k):
    if k >= x.w:
        return const(x.w, 0)
    return mulc(x, 1 << k)


def lshrc(x, k):
    if k >= x.w:
        return const(x.w, 0)
    if k == 0:
        return x
    return zext(extract(x, k, x.w - k), x.w)


def shl(x, y):
    if y.op == 'const':
        return shlc(x, y.a)
    if y.op in ('ite', 'switch') and _smallconst(y):
        return _mapite(y, lambda c: shlc(x, c.a))
    return _mk('shl', x.w, (x, y))


def lshr(x, y):
    if y.op == 'const':
        return lshrc(x, y.a)
    if y.op in ('ite', 'switch') and _smallconst(y):
        return _mapite(y, lambda c: lshrc(x, c.a))
    if x.op == 'const' and x.a == 0:
        return x
    return _mk('lshr', x.w, (x, y), 0, x.hi >> y.lo)


def ashr(x, y):
    if x.hi < 1 << (x.w - 1):
        return lshr(x, y)
    if y.op == 'const' and y.a < x.w:
        if x.op == 'const':
            return const(x.w, sgn(x.a, x.w) >> y.a)
        if y.a == 0:
            return x
        return sext(extract(x, y.a, x.w - y.a), x.w)
    if y.op in ('ite', 'switch') and _smallconst(y):
        return _mapite(y, lambda c: ashr(x, c))
    return _mk('ashr', x.w, (x, y))


def bitop(op, x, y):
    w = x.w
    if w == 1:
        if op == 'and':
            return band(x, y)
        if op == 'or':
            return bor(x, y)
        return bxor(x, y)
    if x.op == 'const' and y.op == 'const':
        return const(w, x.a & y.a if op == 'and' else x.a | y.a if op == 'or' else x.a ^ y.a)
    if x.op == 'const':
        x, y = y, x
    if y.op == 'const':
        m = y.a
        if op == 'and':
            if m == 0:
                return const(w, 0)
            if m == M(w):
                return x
            parts = []
            p = 0
            while p < w:
                b = (m >> p) & 1
                q = p
                while q < w and (m >> q) & 1 == b:
                    q += 1
                if b:
                    parts += _bits(extract(x, p, q - p))
                else:
                    parts.append((const(q - p, 0), 0, q - p))
                p = q
            return mk_cat(parts)
        if m == 0:
            return x
        if op == 'or':
            if m == M(w):
                return y
            if maskof(x) & m == 0:
                return add(x, y)
            parts = []
            p = 0
            while p < w:
                b = (m >> p) & 1
                q = p
                while q < w and (m >> q) & 1 == b:
                    q += 1
                if b:
                    parts.append((const(q - p, M(q - p)), 0, q - p))
                else:
                    parts += _bits(extract(x, p, q - p))
                p = q
            return mk_cat(parts)
        # xor
        if maskof(x) & m == 0:
            return add(x, y)
        if m == M(w):
            # ~x = -x-1
            return mk_lin(w, -1, {x: -1}) if x.op in ('lin', 'sym', 'cat') else _nary('xor', w, [x, y])
        parts = []
        p = 0
        runs = []
        while p < w:
            b = (m >> p) & 1
            q = p
            while q < w and (m >> q) & 1 == b:
                q += 1
            runs.append((p, q - p, b))
            p = q
        for (p, n, b) in runs:
            e = extract(x, p, n)
            if b:
                e = bnot_bits(e)
            parts += _bits(e)
        return mk_cat(parts)
    if x is y:
        return const(w, 0) if op == 'xor' else x
    mx, my = maskof(x), maskof(y)
    if mx & my == 0:
        if op == 'and':
            return const(w, 0)
        return add(x, y)
    # split when cats have aligned constant-zero areas
    if (x.op == 'cat' or y.op == 'cat') and (mx | my) != M(w) or (x.op == 'cat' and y.op == 'cat'):
        cuts = {0, w}
        for t in (x, y):
            p = 0
            for (_, _, n) in _bits(t):
                cuts.add(p)
                p += n
        cuts = sorted(cuts)
        if len(cuts) > 2:
            parts = []
            for a, b in zip(cuts, cuts[1:]):
                parts += _bits(bitop(op, extract(x, a, b - a), extract(y, a, b - a)))
            return mk_cat(parts)
    if x.op == 'ite' and y.op == 'ite' and x.a[0] is y.a[0]:
        return ite(x.a[0], bitop(op, x.a[1], y.a[1]), bitop(op, x.a[2], y.a[2]))
    return _nary(op, w, [x, y])


def bnot_bits(x):
    if x.w == 1:
        return bnot(x)
    if x.op == 'const':
        return const(x.w, ~x.a)
    if x.op == 'xor' and x.a[-1].op == 'const':
        pass
    return _nary('xor', x.w, [x, const(x.w, -1)])


def _nary(op, w, xs):
    flat = []
    k = {'and': M(w), 'or': 0, 'xor': 0}[op]
    for x in xs:
        for y in (x.a if x.op == op else (x,)):
            if y.op == 'const':
                k = k & y.a if op == 'and' else k | y.a if op == 'or' else k ^ y.a
            else:
                flat.append(y)
    if op == 'xor':
        cnt = {}
        for y in flat:
            cnt[y] = cnt.get(y, 0) ^ 1
        flat = [y for y in cnt if cnt[y]]
    else:
        flat = list(dict.fromkeys(flat))
    if op == 'and' and k == 0:
        return const(w, 0)
    if op == 'or' and k == M(w):
        return const(w, k)
    flat.sort(key=lambda t: t.id)
    if k != {'and': M(w), 'or': 0, 'xor': 0}[op]:
        flat.append(const(w, k))
    if not flat:
        return const(w, k)
    if len(flat) == 1:
        return flat[0]
    m = 0
    if op == 'and':
        m = M(w)
        for y in flat:
            m &= maskof(y)
    else:
        for y in flat:
            m |= maskof(y)
    return _mk(op, w, tuple(flat), 0, m)


# ------------------------------------------------------------------ booleans
def bnot(c):
    if c.op == 'const':
        return FALSE if c.a else TRUE
    if c.op == 'not':
        return c.a[0]
    r = _notmemo.get(c)
    if r is not None:
        return r
    if c.op == 'band':
        r = _bn('bor', [bnot(x) for x in c.a])
    elif c.op == 'bor':
        r = _bn('band', [bnot(x) for x in c.a])
    else:
        r = _mk('not', 1, (c,))
    _notmemo[c] = r
    _notmemo.setdefault(r, c)
    return r


_notmemo = {}
_bnmemo = {}


def _bn(op, xs):
    key = (op,) + tuple(xs)
    r = _bnmemo.get(key)
    if r is None:
        r = _bnmemo[key] = _bn0(op, xs)
    return r


def _bn0(op, xs):
    unit, zero = (TRUE, FALSE) if op == 'band' else (FALSE, TRUE)
    s = []
    for x in xs:
        for y in (x.a if x.op == op else (x,)):
            if y is zero:
                return zero
            if y is not unit and y not in s:
                s.append(y)
    ss = set(s)
    for y in s:
        if bnot(y) in ss:
            return zero
    # absorption: drop from inner clauses the literals decided by the outer ones
    other = 'bor' if op == 'band' else 'band'
    if any(y.op == other for y in s):
        out = []
        changed = False
        for y in s:
            if y.op == other:
                if any(z in ss and z is not y for z in y.a):
                    changed = True
                    continue
                keep = [z for z in y.a if bnot(z) not in ss]
                if len(keep) != len(y.a):
                    changed = True
                    out.append(_bn(other, keep))
                    continue
            out.append(y)
        if changed:
            return _bn(op, out)
        # (a and x) or (a and not x) = a, for pairs of clauses
        cl = [y for y in s if y.op == other]
        if 2 <= len(cl) <= 12:
            for i in range(len(cl)):
                for j in range(i + 1, len(cl)):
                    a, b = set(cl[i].a), set(cl[j].a)
                    if len(a) == len(b):
                        d1, d2 = a - b, b - a
                        if len(d1) == 1 and bnot(next(iter(d1))) is next(iter(d2)):
                            rest = [y for y in s if y is not cl[i] and y is not cl[j]]
                            return _bn(op, rest + [_bn(other, list(a & b))])
    if op == 'band':
        s = _band_ranges(s)
        if s is None:
            return FALSE
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return _mk(op, 1, tuple(s))


def _band_ranges(s):
    """Contradictions and simplifications among range literals of one term in a conjunction."""
    eqs = {}
    for y in s:
        if y.op == 'eq' and y.a[1].op == 'const':
            if y.a[0] in eqs and eqs[y.a[0]] != y.a[1].a:
                return None
            eqs[y.a[0]] = y.a[1].a
    if not eqs:
        return s
    out = []
    for y in s:
        z = y.a[0] if y.op == 'not' else y
        if z.op in ('eq', 'ult') and z is not None:
            v = None
            x0, x1 = z.a
            if x0 in eqs and x1.op == 'const' and not (y.op == 'eq'):
                v = eqs[x0] == x1.a if z.op == 'eq' else eqs[x0] < x1.a
            elif x1 in eqs and x0.op == 'const' and z.op == 'ult':
                v = x0.a < eqs[x1]
            if v is not None:
                if y.op == 'not':
                    v = not v
                if not v:
                    return None
                continue
        out.append(y)
    return out


def band(*xs):
    return _bn('band', xs)


def bor(*xs):
    return _bn('bor', xs)


def bxor(x, y):
    if x.op == 'const':
        return bnot(y) if x.a else y
    if y.op == 'const':
        return bnot(x) if y.a else x
    if x is y:
        return FALSE
    return bor(band(x, bnot(y)), band(bnot(x), y))


def eq(x, y):
    if x is y:
        return TRUE
    w = x.w
    if x.op == 'const' and y.op == 'const':
        return TRUE if x.a == y.a else FALSE
    if w == 1:
        return bnot(bxor(x, y))
    if x.op == 'const':
        x, y = y, x
    if x.hi < y.lo or y.hi < x.lo:
        return FALSE
    for a, b in ((x, y), (y, x)):
        if a.op == 'ite' and (b.op == 'const' or _smallconst(a)):
            return bite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if a.op == 'switch' and (b.op == 'const' or _smallconst(a)):
            xx, cs, d = a.a
            r = []
            none = []
            for k, v in cs:
                e = eq(xx, const(xx.w, k))
                r.append(band(e, eq(v, b)))
                none.append(bnot(e))
            r.append(band(*none, eq(d, b)))
            return bor(*r)
    if x.op == 'ptr' or y.op == 'ptr':
        if x.op == 'ptr' and y.op == 'ptr':
            if x.a[0] == y.a[0]:
                return eq(x.a[1], y.a[1])
            return FALSE
        other = y if x.op == 'ptr' else x
        if other.op == 'const' and other.a == 0:
            return FALSE
        return _mk('eq', 1, (x, y) if x.id < y.id else (y, x))
    if y.op == 'const':
        if x.op == 'lin':
            c0, terms = x.a
            if len(terms) == 1:
                t, c = terms[0]
                if c == 1 or c == M(w):
                    v = (y.a - c0) * (1 if c == 1 else -1)
                    return eq(t, const(w, v))
                if c & 1 == 0:
                    z = (c & -c).bit_length() - 1
                    d = (y.a - c0) & M(w)
                    if d & M(z):
                        return FALSE
            elif c0:
                return eq(mk_lin(w, 0, dict(terms)), const(w, y.a - c0))
        if x.op == 'cat':
            free = []
            p = 0
            for (s, lo, n) in x.a:
                v = (y.a >> p) & M(n)
                if s.op == 'const':
                    if ((s.a >> lo) & M(n)) != v:
                        return FALSE
                else:
                    free.append((s, lo, n, v))
                p += n
            if len(free) == 1:
                s, lo, n, v = free[0]
                e = mk_cat([(s, lo, n)])
                if e.w < w or e is not x:
                    return eq(e, const(n, v))
            elif len(free) < len(x.a):
                e = mk_cat([(s, lo, n) for s, lo, n, _ in free])
                v = 0
                p = 0
                for (_, _, n, vv) in free:
                    v |= vv << p
                    p += n
                return eq(e, const(e.w, v))
        if x.op == 'sext':
            s = x.a[0]
            if sgn(y.a, w) == sgn(y.a & M(s.w), s.w):
                return eq(s, const(s.w, y.a))
            return FALSE
        if x.op == 'xor' and x.a[-1].op == 'const':
            return eq(_nary('xor', w, list(x.a[:-1])), const(w, y.a ^ x.a[-1].a))
        if x.op == 'xor' and len(x.a) == 2 and y.a == 0:
            return eq(x.a[0], x.a[1])
        if x.op == 'or' and y.a == 0:
            return band(*[eq(z, const(w, 0)) for z in x.a])
        if x.op == 'uf' and x.a[0] == 'strcmp':
            pass
        return _mk('eq', 1, (x, y))
    d = sub(x, y)
    if d.op == 'const':
        return TRUE if d.a == 0 else FALSE
    # strip common high/low zero parts
    m = maskof(x) | maskof(y)
    if m != M(w):
        n = m.bit_length()
        if n < w:
            return eq(extract(x, 0, n), extract(y, 0, n))
    if d.op == 'lin' and (x.op == 'lin' or y.op == 'lin'):
        c0, terms = d.a
        if len(terms) == 1:
            return eq(mk_lin(w, 0, dict(terms)), const(w, -c0))
        # orient: lowest-id atom positive on the left with coefficient sign normalised
        pos = {t: c for t, c in terms if c <= M(w) >> 1}
        neg = {t: (-c) & M(w) for t, c in terms if c > M(w) >> 1}
        k = sgn(c0, w)
        l = mk_lin(w, k if k > 0 else 0, pos)
        r = mk_lin(w, -k if k < 0 else 0, neg)
        if l.id > r.id:
            l, r = r, l
        return _mk('eq', 1, (l, r))
    if x.id > y.id:
        x, y = y, x
    return _mk('eq', 1, (x, y))


def bite(c, a, b):
    if c.op == 'const':
        return a if c.a else b
    if a is b:
        return a
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    return bor(band(c, a), band(bnot(c), b))


def ult(x, y):
    w = x.w
    if x is y:
        return FALSE
    if x.hi < y.lo:
        return TRUE
    if x.lo >= y.hi:
        return FALSE
    if x.op == 'const' and y.op == 'const':
        return TRUE if x.a < y.a else FALSE
    for a in (x, y):
        if a.op in ('ite', 'switch') and (_smallconst(a) or (x.op == 'const' or y.op == 'const')):
            if a.op == 'ite':
                if a is x:
                    return bite(a.a[0], ult(a.a[1], y), ult(a.a[2], y))
                return bite(a.a[0], ult(x, a.a[1]), ult(x, a.a[2]))
            xx, cs, d = a.a
            r = []
            none = []
            for k, v in cs:
                e = eq(xx, const(xx.w, k))
                r.append(band(e, ult(v, y) if a is x else ult(x, v)))
                none.append(bnot(e))
            r.append(band(*none, ult(d, y) if a is x else ult(x, d)))
            return bor(*r)
    if y.op == 'const':
        k = y.a
        if k == 0:
            return FALSE
        if k == 1:
            return eq(x, const(w, 0))
        if k == x.hi:
            return bnot(eq(x, const(w, k)))
        if k == x.lo + 1:
            return eq(x, const(w, x.lo))
        if x.op == 'lin':
            c0, terms = x.a
            if len(terms) == 1 and terms[0][1] == 1:
                t = terms[0][0]
                s = sgn(c0, w)
                if t.lo + s >= 0 and t.hi + s <= M(w):
                    if k - s <= 0:
                        return FALSE
                    if k - s > M(w):
                        return TRUE
                    return ult(t, const(w, k - s))
            if len(terms) == 1 and terms[0][1] == M(w):
                # c0 - t < k, no wrap: t > c0 - k
                t = terms[0][0]
                if t.hi <= c0:
                    if c0 - k < 0:
                        return TRUE
                    return ult(const(w, c0 - k), t)
        if x.op == 'cat':
            n = maskof(x).bit_length()
            if n < w:
                if k > M(n):
                    return TRUE
                return ult(extract(x, 0, n), const(n, k))
            if x.a[0][0].op == 'const' and x.a[0][0].a == 0:
                z = x.a[0][2]
                e = extract(x, z, w - z)
                kk = (k + (1 << z) - 1) >> z
                if kk > M(e.w):
                    return TRUE
                return ult(e, const(e.w, kk))
            if k & (k - 1) == 0 and k > 1:
                # x < 2^b: the bits from b up are zero
                b = k.bit_length() - 1
                return eq(extract(x, b, w - b), const(w - b, 0))
        elif x.op in ('sym', 'byte', 'uf') or True:
            pass
        return _mk('ult', 1, (x, y))
    if x.op == 'const':
        k = x.a
        # k < y  <=>  not (y < k+1)
        if k == M(w):
            return FALSE
        return bnot(ult(y, const(w, k + 1)))
    # both symbolic
    m = maskof(x) | maskof(y)
    n = m.bit_length()
    if n < w:
        return ult(extract(x, 0, n), extract(y, 0, n))
    if x.op == 'lin' or y.op == 'lin':
        # cancel common parts when nothing wraps
        d = sub(x, y)
        if d.op == 'lin' and len(d.a[1]) == 1:
            (t, c) = d.a[1][0]
            lx, ly = _true_range(x), _true_range(y)
            if lx and ly:
                # x - y as an integer = c*t + c0 with signed reading
                s0, cc = sgn(d.a[0], w), sgn(c, w)
                lo, hi = (s0 + cc * t.lo, s0 + cc * t.hi) if cc > 0 else (s0 + cc * t.hi, s0 + cc * t.lo)
                if lo > -(1 << (w - 1)) and hi < 1 << (w - 1):
                    if hi < 0:
                        return TRUE
                    if lo >= 0:
                        return FALSE
                    if cc == 1:      # t < -s0
                        return ult(t, const(w, -s0)) if s0 < 0 else FALSE
                    if cc == -1:     # t > s0
                        return ult(const(w, s0), t) if s0 >= 0 else TRUE
        elif d.op == 'const':
            lx, ly = _true_range(x), _true_range(y)
            if lx and ly:
                return TRUE if sgn(d.a, w) < 0 else FALSE
    return _mk('ult', 1, (x, y))


def _true_range(t):
    """Range when the term's normal form computes without wrapping, else None."""
    if t.op == 'lin':
        lo, hi = _lin_range(t.w, *t.a)
        if lo < 0 or hi > M(t.w):
            return None
        return lo, hi
    return t.lo, t.hi


def slt(x, y):
    w = x.w
    h = 1 << (w - 1)
    if x.hi < h and y.hi < h:
        return ult(x, y)
    if x.op == 'const' and y.op == 'const':
        return TRUE if sgn(x.a, w) < sgn(y.a, w) else FALSE
    if x.lo >= h and y.hi < h:
        return TRUE
    if x.hi < h and y.lo >= h:
        return FALSE
    for a in (x, y):
        if a.op == 'ite' and (_smallconst(a) or (x.op == 'const' or y.op == 'const')):
            if a is x:
                return bite(a.a[0], slt(a.a[1], y), slt(a.a[2], y))
            return bite(a.a[0], slt(x, a.a[1]), slt(x, a.a[2]))
    if x.op == 'sext' and y.op == 'const':
        s = x.a[0]
        v = sgn(y.a, w)
        if v > M(s.w - 1):
            return TRUE
        if v < -(1 << (s.w - 1)):
            return FALSE
        return slt(s, const(s.w, v))
    if x.op == 'const' and y.op == 'sext':
        s = y.a[0]
        v = sgn(x.a, w)
        if v >= M(s.w - 1):
            return FALSE
        if v < -(1 << (s.w - 1)):
            return TRUE
        return slt(const(s.w, v), s)
    if x.op == 'lin' and y.op == 'const':
        lo, hi = _lin_range(w, *x.a)
        if -h <= lo and hi < h:
            if hi < sgn(y.a, w):
                return TRUE
            if lo >= sgn(y.a, w):
                return FALSE
            c0, terms = x.a
            if len(terms) == 1 and terms[0][1] == 1 and terms[0][0].hi < h:
                k = sgn(y.a, w) - sgn(c0, w)
                if 0 <= k < h:
                    return ult(terms[0][0], const(w, k))
    if x.op == 'const' and y.op == 'lin':
        lo, hi = _lin_range(w, *y.a)
        if -h <= lo and hi < h:
            if sgn(x.a, w) < lo:
                return TRUE
            if sgn(x.a, w) >= hi:
                return FALSE
            c0, terms = y.a
            if len(terms) == 1 and terms[0][1] == 1 and terms[0][0].hi < h:
                k = sgn(x.a, w) - sgn(c0, w)
                if 0 <= k < h:
                    return ult(const(w, k), terms[0][0])
                if k < 0:
                    return TRUE
    if y.op == 'const' and y.a == 0:
        return eq(extract(x, w - 1, 1), TRUE) if extract(x, w - 1, 1).op == 'const' else \
            _mk('slt', 1, (x, y))
    return _mk('slt', 1, (x, y))


def icmp(pred, x, y):
    if pred == 'eq':
        return eq(x, y)
    if pred == 'ne':
        return bnot(eq(x, y))
    if pred[0] == 'u' and x.op == 'ptr' and y.op == 'ptr' and x.a[0] == y.a[0]:
        return icmp('s' + pred[1:], x.a[1], y.a[1])          # places in one object
    if pred == 'ult':
        return ult(x, y)
    if pred == 'uge':
        return bnot(ult(x, y))
    if pred == 'ugt':
        return ult(y, x)
    if pred == 'ule':
        return bnot(ult(y, x))
    if pred == 'slt':
        return slt(x, y)
    if pred == 'sge':
        return bnot(slt(x, y))
    if pred == 'sgt':
        return slt(y, x)
    if pred == 'sle':
        return bnot(slt(y, x))
    raise ValueError(pred)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.a else b
    if a.w == 1:
        return bite(c, a, b)
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0]:
        return _mk('ptr', 64, (a.a[0], ite(c, a.a[1], b.a[1])))
    if a.op == 'ite':
        if a.a[0] is c:
            return ite(c, a.a[1], b)
        if a.a[2] is b:
            return ite(band(c, a.a[0]), a.a[1], b)
        if a.a[1] is b:
            return ite(band(c, bnot(a.a[0])), a.a[2], b)
    if b.op == 'ite':
        if b.a[0] is c:
            return ite(c, a, b.a[2])
        if b.a[1] is a:
            return ite(bor(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(bor(c, bnot(b.a[0])), a, b.a[1])
    if c.op == 'eq' and c.a[1].op == 'const':
        x, k = c.a[0], c.a[1].a
        if b.op == 'switch' and b.a[0] is x:
            d = dict(b.a[1])
            d[k] = a
            return mk_switch(x, d, b.a[2])
        if b.op == 'ite' and b.a[0].op == 'eq' and b.a[0].a[0] is x and b.a[0].a[1].op == 'const':
            return mk_switch(x, {b.a[0].a[1].a: b.a[1], k: a}, b.a[2])
        if a.op == 'switch' and a.a[0] is x:
            return ite(c, dict(a.a[1]).get(k, a.a[2]), b)
        if b.op == 'ite' and a.op == 'const' and b.a[2] is x:
            pass
        if a.op == 'const' and x is b and a.a == k:
            return b
    # prune nested conditions decided by c
    return _mk('ite', a.w, (c, a, b), min(a.lo, b.lo), max(a.hi, b.hi))


def mk_switch(x, d, default):
    d = {k: v for k, v in d.items() if x.lo <= k <= x.hi and v is not default}
    if not d:
        return default
    if default.w == 1:
        r = []
        none = []
        for k in sorted(d):
            e = eq(x, const(x.w, k))
            r.append(band(e, d[k]))
            none.append(bnot(e))
        r.append(band(*none, default))
        return bor(*r)
    if x.hi - x.lo + 1 == len(d):
        # exhausted: make the largest key the default
        k = max(d)
        default = d.pop(k)
        d = {k2: v for k2, v in d.items() if v is not default}
        if not d:
            return default
    if len(d) == 1:
        k, v = next(iter(d.items()))
        if not (default.op == 'ite' and default.a[0].op == 'eq' and default.a[0].a[0] is x):
            c = eq(x, const(x.w, k))
            if c.op == 'const':
                return v if c.a else default
            return _mk('ite', v.w, (c, v, default), min(v.lo, default.lo), max(v.hi, default.hi)) \
                if c.op != 'not' else ite(c, v, default)
    cs = tuple(sorted(d.items()))
    return _mk('switch', default.w, (x, cs, default), min([v.lo for _, v in cs] + [default.lo]),
               max([v.hi for _, v in cs] + [default.hi]))


def ptr(region, off):
    if isinstance(off, int):
        off = c64(off)
    return _mk('ptr', 64, (region, off))


NULLP = c64(0)


# ------------------------------------------------------------------ byte strings
def byte(arr, k):
    """Byte k (int) of array arr, as an 8-bit term."""
    if arr.op == 'aite':
        c, x, y, d = arr.a
        return ite(c, src_byte(x, k), src_byte(y, k + d))
    if arr.op == 'lit':
        return const(8, arr.a[k])
    return _mk('byte', 8, (arr, k))


def bytex(arr, off):
    if off.op == 'const':
        return byte(arr, off.a)
    return _mk('bytex', 8, (arr, off))


def src_byte(src, k):
    """Byte k of a piece source."""
    if isinstance(src, int):
        return const(8, src)
    if isinstance(src, A):
        return byte(src, k)
    return extract(src, 8 * k, 8)


def aite(c, x, y, d):
    if x is y and d == 0:
        return x
    if c.op == 'const':
        return None
    if c.op == 'not':
        # keep the offset of the first source
        return _mka('aite', (c, x, y, d))
    if isinstance(x, A) and x.op == 'aite' and x.a[0] is c:
        x = x.a[1]
    if isinstance(y, A) and y.op == 'aite' and y.a[0] is c:
        d = d + y.a[3]
        y = y.a[2]
    if x is y and d == 0:
        return x
    return _mka('aite', (c, x, y, d))


def piece_ite(c, p, q):
    """Two pieces of the same concrete length -> list of pieces."""
    (s1, o1, n), (s2, o2, _) = p, q
    if s1 is s2 and o1 == o2:
        return [p]
    if isinstance(s1, int) and isinstance(s2, int) and s1 == s2:
        return [p]
    if c.op == 'const':
        return [p] if c.a else [q]
    if c.op == 'not':
        return piece_ite(c.a[0], q, p)
    w1 = isinstance(s1, T)
    w2 = isinstance(s2, T)
    if (w1 and o1 == 0 and n * 8 == s1.w) or (w2 and o2 == 0 and n * 8 == s2.w):
        # keep words as words
        if n in (1, 2, 4, 8):
            return [(ite(c, word_of([p], n), word_of([q], n)), 0, n)]
    if w1 or w2:
        out = []
        for i in range(n):
            out.append((ite(c, src_byte(s1, o1 + i), src_byte(s2, o2 + i)), 0, 1))
        return out
    if isinstance(s1, int) and isinstance(s2, int):
        return [(aite(c, s1, s2, 0), 0, n)]
    if isinstance(s1, int):
        # index by the second source
        a = aite(c, s1, s2, 0)
        return [(a, o2, n)]
    if isinstance(s2, int):
        return [(aite(c, s1, s2, 0), o1, n)]
    if s1.op == 'aite' and s1.a[0] is c:
        x = s1.a[1]
        return piece_ite(c, (x, 0 if isinstance(x, int) else o1, n), q)
    if s2.op == 'aite' and s2.a[0] is c:
        y = s2.a[2]
        return piece_ite(c, p, (y, 0 if isinstance(y, int) else o2 + s2.a[3], n))
    return [(aite(c, s1, s2, o2 - o1), o1, n)]


def bs_cut(bs, n):
    """Split a concrete-length byte string at n -> (left, right)."""
    l = []
    k = 0
    bs = list(bs)
    while bs and k < n:
        s, o, m = bs[0]
        if k + m <= n:
            l.append(bs.pop(0))
            k += m
        else:
            t = n - k
            l.append((s, o, t))
            bs[0] = (s, o if isinstance(s, int) else o + t, m - t)
            k = n
    return l, bs


def bs_len(bs):
    """Total length: int or T."""
    n = 0
    t = None
    for (_, _, m) in bs:
        if isinstance(m, int):
            n += m
        else:
            t = m if t is None else add(t, m)
    return n if t is None else addc(t, n)


def bs_ite(c, a, b):
    a, b = list(a), list(b)
    out = []
    while a and b:
        n, m = a[0][2], b[0][2]
        if isinstance(n, int) and isinstance(m, int):
            k = min(n, m)
            pa, a = bs_cut(a, k)
            pb, b = bs_cut(b, k)
            out += piece_ite(c, pa[0], pb[0])
        elif n is m:
            p, q = a.pop(0), b.pop(0)
            if p == q:
                out.append(p)
            else:
                s = aite(c, p[0], q[0], 0 if isinstance(q[0], int) or isinstance(p[0], int) else q[1] - p[1]) \
                    if not isinstance(p[0], T) and not isinstance(q[0], T) and isinstance(p[1], int) and isinstance(q[1], int) else None
                if s is None:
                    return None
                o = p[1] if not isinstance(p[0], int) else (q[1] if not isinstance(q[0], int) else 0)
                out.append((s, o, n))
        else:
            return None
    if a or b:
        return None
    return tuple(out)


def norm(bs):
    """Canonical byte string: arrays coalesced, words split into byte terms, constants as fills."""
    out = []

    def push(s, o, n):
        if isinstance(n, int):
            if n == 0:
                return
        elif n.op == 'const':
            n = n.a
            if n == 0:
                return
        if isinstance(s, T):
            if s.w == 8 and n == 1:
                if s.op == 'const':
                    s, o = s.a, 0
                elif s.op == 'byte':
                    s, o = s.a
            else:
                for i in range(n):
                    push(extract(s, 8 * (o + i), 8), 0, 1)
                return
        if isinstance(s, A) and s.op == 'lit':
            for i in range(n):
                push(s.a[o + i], 0, 1)
            return
        if isinstance(s, A) and s.op == 'aite' and isinstance(n, int) and n == 1:
            b = byte(s, o)
            if b.op in ('const', 'byte'):
                push(b, 0, 1)
                return
        if out:
            ps, po, pn = out[-1]
            if isinstance(s, int):
                if isinstance(ps, int) and ps == s:
                    out[-1] = (s, 0, pn + n if isinstance(pn, int) and isinstance(n, int) else _addlen(pn, n))
                    return
            elif ps is s and not isinstance(s, T):
                if isinstance(po, int) and isinstance(o, int) and isinstance(pn, int):
                    if po + pn == o:
                        out[-1] = (s, po, _addlen(pn, n))
                        return
                else:
                    e = add(_l64(po), _l64(pn))
                    if e is _l64(o):
                        out[-1] = (s, po, _addlen(pn, n))
                        return
        if isinstance(s, int):
            o = 0
        out.append((s, o, n))
    for (s, o, n) in bs:
        push(s, o, n)
    return tuple(out)


def _l64(x):
    return c64(x) if isinstance(x, int) else x


def _addlen(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = add(_l64(a), _l64(b))
    return r.a if r.op == 'const' else r


def word_of(bs, n):
    """Little-endian integer of a concrete n-byte string."""
    if len(bs) == 1:
        s, o, m = bs[0]
        if isinstance(s, T) and o == 0 and s.w == 8 * n:
            return s
        if isinstance(s, int):
            v = 0
            for i in range(n):
                v |= s << (8 * i)
            return const(8 * n, v)
        if isinstance(s, A) and s.op == 'aite':
            c, x, y, d = s.a
            return ite(c, word_of([(x, 0 if isinstance(x, int) else o, m)], n),
                       word_of([(y, 0 if isinstance(y, int) else o + d, m)], n))
        if isinstance(s, A) and not isinstance(o, int):
            return concat(*[bytex(s, addc(o, i)) for i in range(n)])
    parts = []
    for (s, o, m) in bs:
        if isinstance(s, T):
            parts += _bits(extract(s, 8 * o, 8 * m))
        elif isinstance(s, int):
            v = 0
            for i in range(m):
                v |= s << (8 * i)
            parts.append((const(8 * m, v), 0, 8 * m))
        elif not isinstance(o, int):
            for i in range(m):
                parts.append((bytex(s, addc(o, i)), 0, 8))
        else:
            for i in range(m):
                parts += _bits(byte(s, o + i))
    return mk_cat(parts)


def be_word(bs, n, w):
    """Big-endian unsigned integer of a concrete n-byte string, zero-extended to w bits."""
    bts = []
    for (s, o, m) in bs:
        for i in range(m):
            bts.append(src_byte(s, (0 if isinstance(s, int) else o) + i))
    t = concat(*reversed(bts)) if bts else const(w, 0)
    return zext(t, w) if t.w < w else extract(t, 0, w)


def be_bytes(t, n):
    """n-byte big-endian encoding of t as pieces."""
    out = []
    for i in range(n):
        k = n - 1 - i
        if 8 * k >= t.w:
            out.append((0, 0, 1))
        else:
            out.append((extract(t, 8 * k, min(8, t.w - 8 * k)), 0, 1))
    return norm([(zext(s, 8) if isinstance(s, T) else s, o, m) for s, o, m in out])


def lit(b):
    return norm([(x, 0, 1) for x in b])


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if isinstance(t, (int, str)) or t is None:
        return str(t)
    if isinstance(t, tuple):
        return '[' + ' '.join(show_piece(p, d + 1) for p in t[:12]) + (' ...' if len(t) > 12 else '') + ']'
    if not isinstance(t, T):
        return show_arr(t, d) if isinstance(t, A) else str(t)
    if d > 6:
        return '..'
    o, a = t.op, t.a
    if o == 'const':
        return str(sgn(a, t.w) if t.w >= 32 and a >> (t.w - 1) and t.w - a.bit_length() < 1 and a > M(t.w) - 4096 else a)
    if o == 'sym':
        return a
    if o == 'byte':
        return f'{show_arr(a[0], d + 1)}[{a[1]}]'
    if o == 'lin':
        s = ' + '.join((f'{sgn(c, t.w)}*' if c != 1 else '') + show(x, d + 1) for x, c in a[1])
        return f'({s}{" + " + str(sgn(a[0], t.w)) if a[0] else ""})'
    if o == 'cat':
        return '{' + ','.join(f'{show(s, d + 1)}<{l}:{l + n}>' if s.op != 'const' else f'{s.a}:{n}'
                              for s, l, n in reversed(a)) + '}'
    if o == 'switch':
        return f'switch({show(a[0], d + 1)}; ' + ', '.join(f'{k}:{show(v, d + 1)}' for k, v in a[1][:4]) + ', ..)'
    if o == 'ptr':
        return f'&{a[0]}+{show(a[1], d + 1)}'
    if o == 'uf':
        return f'{a[0]}({", ".join(show(x, d + 1) for x in a[1])})'
    if isinstance(a, tuple):
        return f'{o}({", ".join(show(x, d + 1) for x in a)})'
    return f'{o}({a})'


def show_arr(a, d=0):
    if isinstance(a, int):
        return f'fill{a}'
    if d > 6:
        return '..'
    if a.op == 'asym':
        return a.a
    if a.op == 'auf':
        return f'{a.a[0]}({", ".join(show(x, d + 1) for x in a.a[1])})'
    if a.op == 'aite':
        return f'ite({show(a.a[0], d + 1)}, {show(a.a[1], d + 1)}, {show(a.a[2], d + 1)}, {a.a[3]})'
    return f'{a.op}{a.a}'


def show_piece(p, d=0):
    s, o, n = p
    if isinstance(s, int):
        return f'{s:#04x}*{n}'
    if isinstance(s, T) and s.w == 8 and n == 1:
        return show(s, d)
    return f'{show(s, d)}[{o}..+{n}]'


# ------------------------------------------------------------------ random interpretation
def _h(*xs):
    m = hashlib.blake2b(repr(xs).encode(), digest_size=16)
    return int.from_bytes(m.digest(), 'big')


OPQ = {}         # opaque array -> what evaluation needs to know
DEFS = {}        # sym -> defining term, used by evaluation


class Interp:
    """Evaluates terms under one assignment: explicit values, hashes of names elsewhere."""

    def __init__(self, seed, vals=None, arrs=None):
        self.seed = seed
        self.vals = vals or {}       # term -> int
        self.arrs = arrs or {}       # asym name -> function(k) -> byte or None
        self.memo = {}
        self.opq = False             # an unresolved value was used

    def ev(self, t):
        m = self.memo.get(t.id)
        if m is None:
            m = self.vals.get(t)
            if m is None:
                m = self._ev(t) & M(t.w)
            self.memo[t.id] = m
        return m

    def rnd(self, lo, hi, *key):
        h = _h(self.seed, *key)
        r = h % 8
        h >>= 3
        if r == 0:
            return lo
        if r == 1:
            return hi
        if r == 2:
            return lo + h % min(hi - lo + 1, 4)
        return lo + h % (hi - lo + 1)

    def _ev(self, t):
        o, a, w = t.op, t.a, t.w
        ev = self.ev
        if o == 'const':
            return a
        if o == 'sym':
            if t in DEFS:
                return ev(DEFS[t])
            return self.rnd(t.lo, t.hi, 'sym', a, w)
        if o == 'byte':
            return self.arrbyte(a[0], a[1])
        if o == 'bytex':
            return self.arrbyte(a[0], ev(a[1]))
        if o == 'lin':
            return a[0] + sum(ev(x) * c for x, c in a[1])
        if o == 'cat':
            v = p = 0
            for s, l, n in a:
                v |= ((ev(s) >> l) & M(n)) << p
                p += n
            return v
        if o == 'ite':
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if o == 'switch':
            v = ev(a[0])
            for k, x in a[1]:
                if k == v:
                    return ev(x)
            return ev(a[2])
        if o == 'and':
            v = M(w)
            for x in a:
                v &= ev(x)
            return v
        if o == 'or':
            v = 0
            for x in a:
                v |= ev(x)
            return v
        if o == 'xor':
            v = 0
            for x in a:
                v ^= ev(x)
            return v
        if o == 'not':
            return 1 - ev(a[0])
        if o == 'band':
            return int(all(ev(x) for x in a))
        if o == 'bor':
            return int(any(ev(x) for x in a))
        if o == 'eq':
            return int(ev(a[0]) == ev(a[1]))
        if o == 'ult':
            return int(ev(a[0]) < ev(a[1]))
        if o == 'slt':
            return int(sgn(ev(a[0]), a[0].w) < sgn(ev(a[1]), a[1].w))
        if o == 'mul':
            return ev(a[0]) * ev(a[1])
        if o in ('udiv', 'urem'):
            y = ev(a[1])
            if y == 0:
                return 0
            return ev(a[0]) // y if o == 'udiv' else ev(a[0]) % y
        if o in ('sdiv', 'srem'):
            x, y = sgn(ev(a[0]), w), sgn(ev(a[1]), w)
            if y == 0:
                return 0
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return q if o == 'sdiv' else x - q * y
        if o == 'sext':
            return sgn(ev(a[0]), a[0].w)
        if o == 'shl':
            y = ev(a[1])
            return ev(a[0]) << y if y < w else 0
        if o == 'lshr':
            return ev(a[0]) >> min(ev(a[1]), w)
        if o == 'ashr':
            return sgn(ev(a[0]), w) >> min(ev(a[1]), w)
        if o == 'ptr':
            return (_h('region', a[0]) << 64) + ev(a[1])
        if o == 'pbase':
            return _h('region', a) % (1 << 60)
        if o == 'uf':
            if isinstance(a[0], str) and a[0].startswith('opaque:'):
                self.opq = True
            return _h(self.seed, 'uf', a[0], tuple(self.arg(x) for x in a[1]))
        raise ValueError(o)

    def arg(self, x):
        if isinstance(x, T):
            return self.ev(x)
        if isinstance(x, A):
            return self.arrkey(x)
        if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x[0]) == 3:
            return self.bs(x)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def arrkey(self, arr):
        k = ('k', arr.id)
        m = self.memo.get(k)
        if m is None:
            if arr.op == 'asym':
                m = ('asym', arr.a)
            elif arr.op == 'auf':
                if isinstance(arr.a[0], str) and arr.a[0].startswith('opaque:'):
                    self.opq = True
                m = _h(self.seed, 'auf', arr.a[0], tuple(self.arg(x) for x in arr.a[1]))
            else:
                c, x, y, d = arr.a
                m = ('aite', self.ev(c), self.arrkey(x) if isinstance(x, A) else x,
                     self.arrkey(y) if isinstance(y, A) else y, d)
            self.memo[k] = m
        return m

    def arrbyte(self, arr, k):
        if isinstance(arr, int):
            return arr
        if isinstance(arr, T):
            return (self.ev(arr) >> (8 * k)) & 255
        if arr.op == 'aite':
            c, x, y, d = arr.a
            return self.arrbyte(x, k) if self.ev(c) else self.arrbyte(y, k + d)
        if arr.op == 'lit':
            return arr.a[k]
        f = self.arrs.get(arr.a if arr.op == 'asym' else arr) if self.arrs else None
        if f is not None:
            v = f(k)
            if v is not None:
                return v
        if arr in OPQ:
            m = self.memo.get((arr.id, k))
            if m is None:
                m = self.memo[(arr.id, k)] = self.opqbyte(OPQ[arr], k)
            return m
        return self.block(self.arrkey(arr), k >> 4)[k & 15]

    def block(self, key, i):
        blk = ('blk', key, i)
        v = self.memo.get(blk)
        if v is None:
            v = self.memo[blk] = hashlib.blake2b(repr((self.seed, 'b', key, i)).encode(), digest_size=16).digest()
        return v

    def arrbytes(self, arr, o, n):
        """Bytes o .. o+n of an array."""
        while isinstance(arr, A) and arr.op == 'aite':
            c, p, q, d = arr.a
            if self.ev(c):
                arr = p
            else:
                arr, o = q, o + d
        if isinstance(arr, int):
            return bytes([arr]) * n
        if isinstance(arr, A) and arr.op in ('asym', 'auf') and arr not in OPQ and o >= 0 and not (
                self.arrs and (arr.a if arr.op == 'asym' else arr) in self.arrs):
            key = self.arrkey(arr)
            i, j = o >> 4, (o + n + 15) >> 4
            s = b''.join([self.block(key, x) for x in range(i, j)])
            return s[o - 16 * i:o - 16 * i + n]
        return bytes([self.arrbyte(arr, o + i) & 255 for i in range(n)])

    def bsbyte(self, x, k):
        for (s, o, n) in x:
            n = n if isinstance(n, int) else self.ev(n)
            if k < n:
                if isinstance(s, int):
                    return s
                return self.arrbyte(s, (o if isinstance(o, int) else self.ev(o)) + k)
            k -= n
        return 0

    def opqbyte(self, q, k):
        if q[0] == 'ite':
            return self.bsbyte(q[2] if self.ev(q[1]) else q[3], k)
        if q[0] == 'sub':
            return self.bsbyte(q[1], (self.ev(q[2]) + k) & M(64))
        return self.membyte(q[1], (self.ev(q[2]) + k) & M(64), q[3])

    def membyte(self, ct, p, rid):
        """Byte at position p of a memory content (layers over a base)."""
        while True:
            for ly in reversed(ct.layers):
                if hasattr(ly, 'st'):
                    i, _ = ly.find(p)
                    if i is not None:
                        s, o = ly.pc[i]
                        if isinstance(s, int):
                            return s
                        return self.arrbyte(s, (o if isinstance(o, int) else self.ev(o)) + p - ly.st[i])
                else:
                    lo = ly.off if isinstance(ly.off, int) else self.ev(ly.off)
                    ln = ly.len if isinstance(ly.len, int) else self.ev(ly.len)
                    if lo <= p < lo + ln:
                        return self.bsbyte(ly.bs, p - lo)
            b = ct.base
            if b is None:
                return self.arrbyte(asym('uninit:' + rid), p)
            if isinstance(b, int):
                return b
            if isinstance(b, A):
                return self.arrbyte(b, p)
            ct = b.x if self.ev(b.c) else b.y

    def bs(self, x, extra=()):
        """Value of a byte string: its bytes, or a digest of sampled positions if it is very long."""
        ps, tot = [], 0
        for (s, o, n) in x:
            n = n if isinstance(n, int) else self.ev(n)
            if n:
                ps.append((s, o, n, tot))
                tot += n
        if tot <= 1 << 16:
            out = []
            for s, o, n, _ in ps:
                if isinstance(s, int):
                    out.append(bytes([s & 255]) * n)
                else:
                    out.append(self.arrbytes(s, o if isinstance(o, int) else self.ev(o), n))
            return b''.join(out)
        pos = set(range(0, 512)) | set(range(tot - 512, tot)) | set(extra)
        for e in (16, 31, 32, 33):
            pos |= {k * (1 << e) + d for k in (1, 2) for d in (-1, 0, 1)}
        pos |= {_h('pos', tot, i) % tot for i in range(96)}
        out = []
        i = 0
        for k in sorted(p for p in pos if 0 <= p < tot):
            while k >= ps[i][3] + ps[i][2]:
                i += 1
            s, o, n, st = ps[i]
            out.append(s & 255 if isinstance(s, int) else
                       self.arrbyte(s, (o if isinstance(o, int) else self.ev(o)) + k - st) & 255)
        return ('long', tot, bytes(out))

    def cuts(self, x):
        """Positions around the piece boundaries of a byte string."""
        out, tot = set(), 0
        for (s, o, n) in x:
            tot += n if isinstance(n, int) else self.ev(n)
            out |= {tot - 1, tot, tot + 1}
        return out


# ------------------------------------------------------------------ substitution
def subst(t, m, memo=None):
    """Rebuild t with the atoms in m (term -> term) replaced."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return norm([(subst(s, m, memo) if not isinstance(s, int) else s,
                      subst(o, m, memo) if isinstance(o, T) else o,
                      subst(n, m, memo) if isinstance(n, T) else n) for s, o, n in t])
    r = memo.get(t.id)
    if r is not None:
        return r
    if isinstance(t, A):
        if t.op == 'asym':
            r = t
        elif t.op == 'auf':
            r = auf(t.a[0], tuple(_sarg(x, m, memo) for x in t.a[1]), t.n)
        elif t.op == 'aite':
            c, x, y, d = t.a
            c2 = subst(c, m, memo)
            x2 = subst(x, m, memo) if not isinstance(x, int) else x
            y2 = subst(y, m, memo) if not isinstance(y, int) else y
            if c2.op == 'const':
                r = x2 if c2.a else (y2 if d == 0 or isinstance(y2, int) else _mka('aite', (TRUE, y2, y2, d)))
                if isinstance(r, int):
                    r = _mka('fill', r)
            else:
                r = aite(c2, x2, y2, d)
        else:
            r = t
        memo[t.id] = r
        return r
    if t in m:
        r = m[t]
    else:
        o, a = t.op, t.a
        S = lambda x: subst(x, m, memo)
        if o in ('const', 'sym', 'pbase'):
            r = t
        elif o == 'byte':
            arr = S(a[0])
            r = byte(arr, a[1])
        elif o == 'bytex':
            r = bytex(S(a[0]), S(a[1]))
        elif o == 'lin':
            d = {}
            for x, c in a[1]:
                y = S(x)
                d[y] = d.get(y, 0) + c
            r = mk_lin(t.w, a[0], d)
        elif o == 'cat':
            parts = []
            for s, l, n in a:
                parts += _bits(extract(S(s), l, n))
            r = mk_cat(parts)
        elif o == 'ite':
            r = ite(S(a[0]), S(a[1]), S(a[2]))
        elif o == 'switch':
            x = S(a[0])
            if x.op == 'const':
                r = S(dict(a[1]).get(x.a, a[2]))
            else:
                r = mk_switch(x, {k: S(v) for k, v in a[1]}, S(a[2]))
        elif o in ('and', 'or', 'xor'):
            r = None
            for x in a:
                y = S(x)
                r = y if r is None else bitop(o, r, y)
        elif o == 'not':
            r = bnot(S(a[0]))
        elif o == 'band':
            r = band(*[S(x) for x in a])
        elif o == 'bor':
            r = bor(*[S(x) for x in a])
        elif o == 'eq':
            r = eq(S(a[0]), S(a[1]))
        elif o == 'ult':
            r = ult(S(a[0]), S(a[1]))
        elif o == 'slt':
            r = slt(S(a[0]), S(a[1]))
        elif o in ('mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
            r = {'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl,
                 'lshr': lshr, 'ashr': ashr}[o](S(a[0]), S(a[1]))
        elif o == 'sext':
            r = sext(S(a[0]), t.w)
        elif o == 'ptr':
            r = ptr(a[0], S(a[1]))
        elif o == 'uf':
            r = uf(t.w, a[0], tuple(_sarg(x, m, memo) for x in a[1]))
        else:
            raise ValueError(o)
    memo[t.id] = r
    return r


def _sarg(x, m, memo):
    if isinstance(x, (T, A)):
        return subst(x, m, memo)
    if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x[0]) == 3:
        return subst(x, m, memo)
    return x


def atoms(t, out=None, seen=None):
    """Symbols (sym terms and array bytes) a term or byte string depends on (not inside UF arguments' arrays)."""
    if out is None:
        out, seen = set(), set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            for y in x:
                stack.append(y)
            continue
        if not isinstance(x, (T, A)) or x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, A):
            if x.op == 'asym':
                out.add(x)
            elif x.op == 'auf':
                stack.append(x.a[1])
            elif x.op == 'aite':
                stack += [y for y in x.a if isinstance(y, (T, A))]
            continue
        if x.op == 'sym' or x.op == 'byte' and x.a[0].op == 'asym':
            out.add(x)
        elif x.op == 'byte':
            stack.append(x.a[0])
        elif x.op == 'uf':
            stack.append(x.a[1])
        elif isinstance(x.a, tuple):
            stack.append(x.a)
    return out
