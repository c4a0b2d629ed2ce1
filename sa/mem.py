"""Abstract memory: regions whose contents are layers of byte-string segments over a base.

A content is base + layers.  base: None (uninitialised), int fill, array, or Ite(c, A, B).
A layer is a Seg (concrete ranges) or a Sym (one store with symbolic offset or length).
Contents are shared between states and copied on the first write after a fork."""
from bisect import bisect_right
from . import term as t
from .term import T, A, c64
from .ir import AnalysisError


class Seg:
    __slots__ = ('st', 'en', 'pc')       # starts, ends, (src, off)

    def __init__(self, st=None, en=None, pc=None):
        self.st, self.en, self.pc = st or [], en or [], pc or []

    def copy(self):
        return Seg(self.st[:], self.en[:], self.pc[:])

    def find(self, p):
        """Index of the segment containing p, or None; and the start of the next one."""
        i = bisect_right(self.st, p) - 1
        if i >= 0 and p < self.en[i]:
            return i, None
        nxt = self.st[i + 1] if i + 1 < len(self.st) else None
        return None, nxt

    def clear(self, a, b):
        """Drop [a, b)."""
        st, en, pc = self.st, self.en, self.pc
        i = bisect_right(st, a) - 1
        if i < 0 or en[i] <= a:
            i += 1
        j = i
        while j < len(st) and st[j] < b:
            j += 1
        if i == j:
            return i
        left = right = None
        if st[i] < a:
            left = (st[i], a, pc[i])
        if en[j - 1] > b:
            s, o = pc[j - 1]
            right = (b, en[j - 1], (s, o if isinstance(s, int) else _addo(o, b - st[j - 1])))
        ns = [x for x in (left, right) if x]
        st[i:j] = [x[0] for x in ns]
        en[i:j] = [x[1] for x in ns]
        pc[i:j] = [x[2] for x in ns]
        return i + (1 if left else 0)

    def put(self, a, bs):
        n = sum(x[2] for x in bs)
        if n == 0:
            return
        i = self.clear(a, a + n)
        ss, ee, pp = [], [], []
        p = a
        for (s, o, m) in bs:
            ss.append(p)
            p += m
            ee.append(p)
            pp.append((s, 0 if isinstance(s, int) else o))
        self.st[i:i] = ss
        self.en[i:i] = ee
        self.pc[i:i] = pp


def _addo(o, k):
    return o + k if isinstance(o, int) else t.addc(o, k)


class Sym:
    __slots__ = ('off', 'len', 'bs')

    def __init__(self, off, ln, bs):
        self.off, self.len, self.bs = off, ln, bs


class Ite:
    __slots__ = ('c', 'x', 'y')

    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y


_opq = {}


class Content:
    __slots__ = ('base', 'layers', 'tok')

    def __init__(self, base, layers, tok):
        self.base, self.layers, self.tok = base, layers, tok

    def clone(self, tok):
        ls = list(self.layers)
        if ls and isinstance(ls[-1], Seg):
            ls[-1] = ls[-1].copy()
        return Content(self.base, ls, tok)

    # -------------------------------------------------------- reading
    def read(self, off, n, rid, depth=None):
        """Byte string of n bytes (int or T) at off (int or T)."""
        if isinstance(off, T) and off.op == 'const':
            off = off.a
        if isinstance(n, T) and n.op == 'const':
            n = n.a
        k = len(self.layers) if depth is None else depth
        if isinstance(off, int) and isinstance(n, int):
            out = []
            self._read(off, n, rid, k, out)
            return t.norm(out) if len(out) > 1 else tuple(out)
        return t.norm(self._reads(off, n, rid, k))

    def _read(self, a, n, rid, k, out):
        """Concrete read below layer k."""
        if n <= 0:
            return
        while k > 0 and isinstance(self.layers[k - 1], Seg) and not self.layers[k - 1].st:
            k -= 1
        if k == 0:
            self._base(a, n, rid, out)
            return
        ly = self.layers[k - 1]
        if isinstance(ly, Seg):
            p = a
            end = a + n
            i = bisect_right(ly.st, p) - 1
            if i >= 0 and ly.en[i] <= p:
                i += 1
            elif i < 0:
                i = 0
            while p < end:
                if i < len(ly.st) and ly.st[i] <= p:
                    q = min(end, ly.en[i])
                    s, o = ly.pc[i]
                    out.append((s, 0 if isinstance(s, int) else _addo(o, p - ly.st[i]), q - p))
                    i += 1
                else:
                    q = min(end, ly.st[i]) if i < len(ly.st) else end
                    self._read(p, q - p, rid, k - 1, out)
                p = q
            return
        out += self._readsym(ly, a, n, rid, k)

    def _base(self, a, n, rid, out):
        b = self.base
        if b is None:
            out.append((t.asym('uninit:' + rid), a, n))
        elif isinstance(b, int):
            out.append((b, 0, n))
        elif isinstance(b, Ite):
            x = b.x.read(a, n, rid)
            y = b.y.read(a, n, rid)
            r = t.bs_ite(b.c, x, y)
            if r is None:
                r = lazy(n, 'ite', b.c, tuple(x), tuple(y))
            out += r
        else:
            out.append((b, a, n))

    def _readsym(self, ly, a, n, rid, k):
        """Read across a symbolic store."""
        A0, N = _l(a), _l(n)
        lo, ln = _l(ly.off), _l(ly.len)
        rel = t.sub(A0, lo)                       # position inside the store
        if within(rel, N, ln):
            return slice_bs(ly.bs, rel, n)
        if disjoint(A0, N, lo, ln):
            return list(self.read(a, n, rid, k - 1))
        # the store begins inside the read
        d = t.sub(lo, A0)
        if d.op == 'const' and 0 < t.sgn(d.a, 64) and _le(d, N):
            head = list(self.read(a, d.a, rid, k - 1))
            return head + list(self.read(t.add(A0, d), t.sub(N, d), rid, k))
        # the read begins inside the store and runs past its end
        e = t.sub(t.add(lo, ln), A0)              # bytes of the store from a on
        if _ge0(rel) and _le(rel, ln) and _le(e, N):
            return list(slice_bs(ly.bs, rel, e)) + list(self.read(t.add(lo, ln), t.sub(N, e), rid, k))
        # store of at least as much as the read from the same start on, up to its (symbolic) length
        if isinstance(n, int) and n <= 64:
            out = []
            below = self.read(a, n, rid, k - 1)
            for i in range(n):
                r = t.addc(rel, i)
                c = t.ult(r, ln)
                if rel.op != 'const' and not (rel.op == 'lin' or True):
                    return self.lazy(k, A0, n, rid)
                x = slice_bs(ly.bs, r, 1)
                y = t.bs_cut(t.bs_cut(below, i)[1], 1)[0]
                out.append((t.ite(c, t.word_of(x, 1), t.word_of(y, 1)), 0, 1))
            return out
        return self.lazy(k, A0, n, rid)

    def lazy(self, k, pos, n, rid):
        ls = list(self.layers[:k])
        if ls and isinstance(ls[-1], Seg):
            ls[-1] = ls[-1].copy()
        return lazy(n, 'mem', Content(self.base, ls, None), _l(pos), rid)

    def _reads(self, off, n, rid, k):
        """Symbolic read: position and/or length symbolic."""
        out = []
        pos, rem = _l(off), _l(n)
        fuel = 200
        while not (rem.op == 'const' and rem.a == 0):
            fuel -= 1
            if fuel < 0:
                raise AnalysisError('symbolic read does not converge')
            got = self._step(pos, rem, rid, k)
            if got is None:
                out += self.lazy(k, pos, rem, rid)
                return out
            pieces, ln = got
            out += pieces
            ln = _l(ln)
            pos = t.add(pos, ln)
            rem = t.sub(rem, ln)
        return out

    def _step(self, pos, rem, rid, k):
        """Longest decided run at pos: (pieces, length) or None."""
        lim = rem
        while k > 0:
            ly = self.layers[k - 1]
            if isinstance(ly, Seg):
                if not ly.st:
                    k -= 1
                    continue
                if pos.op == 'const':
                    i, nxt = ly.find(pos.a)
                    if i is not None:
                        m = c64(ly.en[i] - pos.a)
                        s, o = ly.pc[i]
                        o = 0 if isinstance(s, int) else _addo(o, pos.a - ly.st[i])
                        ln = _min(m, lim)
                        if ln is None:
                            return None
                        return [(s, o, _u(ln))], ln
                    if nxt is not None:
                        lim = _min(c64(nxt - pos.a), lim)
                        if lim is None:
                            return None
                else:
                    # symbolic position: must miss every segment, or pick one by value
                    bad = [i for i in range(len(ly.st))
                           if not disjoint(pos, lim, c64(ly.st[i]), c64(ly.en[i] - ly.st[i]))]
                    if bad:
                        r = self._pick(pos, lim, rid, k)
                        return r
                k -= 1
                continue
            lo, ln = _l(ly.off), _l(ly.len)
            rel = t.sub(pos, lo)
            if _ge0(rel) and _le(rel, ln) and rel is not ln:
                avail = t.sub(ln, rel)
                m = _min(avail, lim)
                if m is None:
                    return None
                if m.op == 'const' and m.a == 0:
                    k -= 1
                    continue
                return slice_bs(ly.bs, rel, m), m
            if disjoint(pos, lim, lo, ln):
                k -= 1
                continue
            d = t.sub(lo, pos)
            if _ge0(d) and not (d.op == 'const' and d.a == 0):
                lim = _min(d, lim)
                if lim is None:
                    return None
                k -= 1
                continue
            return None
        b = self.base
        if b is None:
            return [(t.asym('uninit:' + rid), _u(pos), _u(lim))], lim
        if isinstance(b, int):
            return [(b, 0, _u(lim))], lim
        if isinstance(b, Ite):
            x = b.x.read(pos, lim, rid)
            y = b.y.read(pos, lim, rid)
            r = t.bs_ite(b.c, x, y)
            if r is None:
                r = lazy(lim, 'ite', b.c, tuple(x), tuple(y))
            return list(r), lim
        return [(b, _u(pos), _u(lim))], lim

    def _pick(self, pos, lim, rid, k):
        """Read of concrete length at a position with few possible values: select by value."""
        if lim.op != 'const' or lim.a > 4096:
            return None
        vs = values(pos)
        if vs is None:
            return None
        res = None
        for c, p in vs:
            r = self.read(p, lim.a, rid, k)
            res = r if res is None else t.bs_ite(c, r, res)
            if res is None:
                return None
        return list(res), lim

    def __repr__(self):
        return f'Content({self.base}, {len(self.layers)} layers)'


def opaque(kind, key, n):
    """A byte string about which nothing is known."""
    a = t.auf('opaque:' + kind, tuple(_k(x) for x in key), None)
    return [(a, 0, _u(_l(n)))]


_nopq = [0]


def lazy(n, *q):
    """A byte string without a normal form; evaluation finds its bytes by what q says."""
    _nopq[0] += 1
    a = t.auf(f'opaque:{q[0]}{_nopq[0]}', (), None)
    t.OPQ[a] = q
    return [(a, 0, _u(_l(n)))]


def _k(x):
    return x


def _l(x):
    return c64(x) if isinstance(x, int) else x


def _u(x):
    return x.a if isinstance(x, T) and x.op == 'const' else x


def irange(x):
    """Signed integer range of a 64-bit term, from its linear form."""
    if x.op == 'const':
        v = t.sgn(x.a, 64)
        return v, v
    if x.op == 'lin':
        return t._lin_range(64, *x.a)
    return x.lo, x.hi


def _ge0(x):
    return irange(x)[0] >= 0


def _le(x, y):
    return x is y or irange(t.sub(y, x))[0] >= 0


def _lt(x, y):
    return irange(t.sub(y, x))[0] > 0


def _min(x, y):
    if _le(x, y):
        return x
    if _le(y, x):
        return y
    return None


def within(rel, n, ln):
    return _ge0(rel) and _le(t.add(rel, n), ln)


def disjoint(a, n, b, m):
    return _le(t.add(a, n), b) or _le(t.add(b, m), a)


def slice_bs(bs, rel, n):
    """n bytes of bs from rel on; rel, n int or T (known to lie inside)."""
    rel, n = _l(rel), _l(n)
    if rel.op == 'const' and rel.a == 0:
        tot = t.bs_len(bs)
        if _l(tot) is n:
            return list(bs)
    if len(bs) == 1:
        s, o, m = bs[0]
        if isinstance(s, int):
            return [(s, 0, _u(n))]
        if isinstance(s, A):
            return [(s, _u(t.add(_l(o), rel)), _u(n))]
        if rel.op == 'const' and n.op == 'const':
            return [(s, o + rel.a, n.a)]
    # walk
    out = []
    rel0, n0 = rel, n
    for (s, o, m) in bs:
        m_ = _l(m)
        if n.op == 'const' and n.a == 0:
            break
        if _le(m_, rel):
            rel = t.sub(rel, m_)
            continue
        if not _lt(rel, m_):
            return lazy(n0, 'sub', tuple(bs), rel0)
        av = t.sub(m_, rel)
        k = _min(av, n)
        if k is None:
            return lazy(n0, 'sub', tuple(bs), rel0)
        if isinstance(s, int):
            out.append((s, 0, _u(k)))
        elif isinstance(s, T):
            if rel.op != 'const' or k.op != 'const':
                return lazy(n0, 'sub', tuple(bs), rel0)
            out.append((s, o + rel.a, k.a))
        else:
            out.append((s, _u(t.add(_l(o), rel)), _u(k)))
        n = t.sub(n, k)
        rel = c64(0)
    return out


def values(x, limit=300):
    """[(cond, value int)] covering all values of term x, the last cond being implied; None if too many."""
    if x.op == 'const':
        return [(t.TRUE, x.a)]
    node = _split_node(x)
    if node is None:
        return None
    kind, y = node
    out = []
    if kind == 'ite':
        arms = [(y.a[0], y.a[1]), (t.bnot(y.a[0]), y.a[2])]
    elif kind == 'switch':
        xx, cs, d = y.a
        arms = [(t.eq(xx, t.const(xx.w, k)), v) for k, v in cs]
        arms.append((t.band(*[t.bnot(t.eq(xx, t.const(xx.w, k))) for k, v in cs]), d))
    elif kind == 'slice':
        # a small slice (s, lo, n) of an atom
        src, lo, n = y
        e = t.mk_cat([(src, lo, n)])
        arms = [(t.eq(e, t.const(n, v)), None, v) for v in range(1 << n)]
        for c, _, v in arms:
            if c is t.FALSE:
                continue
            r = values(subst_slice(x, src, lo, n, v), limit)
            if r is None:
                return None
            out += [(t.band(c, c2), v2) for c2, v2 in r]
            if len(out) > limit:
                return None
        return out
    else:
        arms = [(t.eq(y, t.const(y.w, v)), t.const(y.w, v)) for v in range(y.lo, y.hi + 1)]
    for c, v in arms:
        if c is t.FALSE:
            continue
        r = values(t.subst(x, {y: v}), limit)
        if r is None:
            return None
        out += [(t.band(c, c2), v2) for c2, v2 in r]
        if len(out) > limit:
            return None
    return out


def _split_node(x):
    seen = set()
    stack = [x]
    small = None
    while stack:
        y = stack.pop()
        if not isinstance(y, T) or y.id in seen:
            continue
        seen.add(y.id)
        if y.op in ('ite', 'switch'):
            return y.op, y
        if y.op == 'const':
            continue
        if y.op == 'cat':
            for s, lo, n in y.a:
                if s.op == 'const':
                    continue
                if s.hi - s.lo <= 64 and s.op in ('sym', 'byte', 'uf', 'bytex'):
                    small = small or ('atom', s)
                elif n <= 6 and s.op in ('sym', 'byte', 'lin', 'uf', 'bytex'):
                    small = small or ('slice', (s, lo, n))
                elif s.op not in ('sym', 'byte', 'uf', 'bytex'):
                    stack.append(s)
            continue
        if y.op in ('sym', 'byte', 'uf', 'urem', 'udiv', 'bytex', 'lshr') and y.hi - y.lo <= 64:
            small = small or ('atom', y)
            continue
        if y.op == 'lin':
            stack += [z for z, _ in y.a[1]]
        elif y.op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'mul', 'sext', 'udiv', 'urem'):
            stack += list(y.a)
    return small


def subst_slice(x, src, lo, n, v):
    """Replace bits [lo, lo+n) of atom src by the constant v, in cats."""
    memo = {}

    def go(y):
        if not isinstance(y, T):
            return y
        r = memo.get(y.id)
        if r is not None:
            return r
        if y.op == 'cat':
            parts = []
            for s, l, m in y.a:
                if s is src and l <= lo and lo + n <= l + m:
                    if lo > l:
                        parts.append((s, l, lo - l))
                    parts.append((t.const(n, v), 0, n))
                    if l + m > lo + n:
                        parts.append((s, lo + n, l + m - lo - n))
                else:
                    parts += t._bits(t.extract(go(s), l, m)) if s is not src else [(s, l, m)]
            r = t.mk_cat(parts)
        elif y.op == 'lin':
            d = {}
            for z, c in y.a[1]:
                z2 = go(z)
                d[z2] = d.get(z2, 0) + c
            r = t.mk_lin(y.w, y.a[0], d)
        else:
            ch = {z: go(z) for z in (y.a if isinstance(y.a, tuple) else ()) if isinstance(z, T)}
            ch = {a: b for a, b in ch.items() if a is not b}
            r = t.subst(y, ch) if ch else y
        memo[y.id] = r
        return r
    return go(x)


# ------------------------------------------------------------------ merging
def merge_content(c, x, y, rid, tok):
    if x is y:
        return x
    if x.base is y.base or (isinstance(x.base, int) and x.base == y.base and isinstance(y.base, int)):
        lx, ly = x.layers, y.layers
        k = 0
        while k < len(lx) and k < len(ly) and lx[k] is ly[k]:
            k += 1
        tx, ty = lx[k:], ly[k:]
        if len(tx) <= 1 and len(ty) <= 1 and all(isinstance(z, Seg) for z in tx + ty):
            low = Content(x.base, lx[:k], None)
            sx = tx[0] if tx else Seg()
            sy = ty[0] if ty else Seg()
            return Content(x.base, lx[:k] + [_merge_seg(c, sx, sy, low, rid)], tok)
    return Content(Ite(c, x, y), [], tok)


def _merge_seg(c, sx, sy, low, rid):
    cuts = sorted(set(sx.st) | set(sx.en) | set(sy.st) | set(sy.en))
    out = Seg()
    ix = iy = 0
    nx, ny = len(sx.st), len(sy.st)
    for a, b in zip(cuts, cuts[1:]):
        while ix < nx and sx.en[ix] <= a:
            ix += 1
        while iy < ny and sy.en[iy] <= a:
            iy += 1
        px = py = None
        if ix < nx and sx.st[ix] <= a:
            s, o = sx.pc[ix]
            px = (s, 0 if isinstance(s, int) else _addo(o, a - sx.st[ix]))
        if iy < ny and sy.st[iy] <= a:
            s, o = sy.pc[iy]
            py = (s, 0 if isinstance(s, int) else _addo(o, a - sy.st[iy]))
        if px is None and py is None:
            continue
        if px is not None and py is not None and px[0] is py[0] and px[1] == py[1]:
            _append(out, a, b, px)
            continue
        bx = (px + (b - a,),) if px is not None else low.read(a, b - a, rid)
        by = (py + (b - a,),) if py is not None else low.read(a, b - a, rid)
        r = t.bs_ite(c, bx, by)
        if r is None:
            r = lazy(b - a, 'ite', c, tuple(bx), tuple(by))
        p = a
        for (s, o, m) in r:
            _append(out, p, p + m, (s, o))
            p += m
    return out


def _append(seg, a, b, pc):
    s, o = pc
    if seg.en and seg.en[-1] == a and not isinstance(s, T):
        ps, po = seg.pc[-1]
        if isinstance(s, int):
            if isinstance(ps, int) and ps == s:
                seg.en[-1] = b
                return
        elif ps is s and isinstance(po, int) and isinstance(o, int) and po + (a - seg.st[-1]) == o:
            seg.en[-1] = b
            return
    seg.st.append(a)
    seg.en.append(b)
    seg.pc.append((s, o))
