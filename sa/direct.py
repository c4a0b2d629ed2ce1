"""Assignments that make the conditions occurring in a term true (or false): the constants a program compares with are where
rare behaviour starts.  Plain back-substitution through invertible operations, no search."""
from .term import T, A, M, sgn, Interp, OPQ, DEFS
from .mem import Content, Ite

CMP = ('eq', 'ult', 'slt')


def conditions(x, skip=None, limit=4000):
    """Comparison and conjunction nodes in a term / byte string, outermost first; nodes of `skip` are left out."""
    seen, out = set(skip or ()), []
    stack = [x]
    k = 0
    while stack and k < limit:
        y = stack.pop(0) if k < 64 else stack.pop()
        k += 1
        if isinstance(y, (tuple, list)):
            stack += [z for z in y if not isinstance(z, (int, str, bytes))]
            continue
        if isinstance(y, Content):
            stack += [ly.bs for ly in y.layers if not hasattr(ly, 'st')]
            if isinstance(y.base, Ite):
                stack += [y.base.c, y.base.x, y.base.y]
            continue
        if not isinstance(y, (T, A)) or y.id in seen:
            continue
        seen.add(y.id)
        if y.op == 'const':
            continue
        if y.op in CMP or y.op == 'band':
            out.append(y)
        if y.op == 'sym' and y in DEFS:
            stack.append(DEFS[y])
        if y.op == 'auf' and y in OPQ:
            stack += list(OPQ[y][1:])
        if isinstance(y.a, tuple):
            stack += [z for z in y.a if not isinstance(z, (int, str, bytes))]
    return out, seen


class Set:
    """Values forced so far, over a base assignment."""

    def __init__(self, I, free=None):
        self.I, self.free = I, free
        self.vals, self.bytes = {}, {}
        self.ok = True
        self.fuel = 400

    def ev(self, x):
        v = self.vals.get(x)
        return self.I.ev(x) if v is None else v

    def put(self, x, v):
        """Make term x have value v."""
        self.fuel -= 1
        if self.fuel < 0:
            self.ok = False
            return
        v &= M(x.w)
        o, a = x.op, x.a
        if o == 'const':
            self.ok &= a == v
        elif o == 'sym':
            if x in DEFS:
                return self.put(DEFS[x], v)
            if x.lo <= v <= x.hi and (self.free is None or x in self.free):
                self.vals[x] = v
            else:
                self.ok = False
        elif o == 'uf' and self.free is None:
            self.vals[x] = v
        elif o == 'byte':
            self.byte(a[0], a[1], v)
        elif o == 'bytex':
            self.byte(a[0], self.ev(a[1]), v)
        elif o == 'cat':
            p = 0
            for s, l, n in a:
                bits = (v >> p) & M(n)
                p += n
                if l == 0 and n == s.w:
                    self.put(s, bits)
                else:
                    self.put(s, self.ev(s) & ~(M(n) << l) | bits << l)
        elif o == 'lin':
            c0, ts = a
            for y, k in ts:
                if k & 1:
                    rest = c0 + sum(self.ev(z) * c for z, c in ts if z is not y)
                    return self.put(y, (v - rest) * pow(k, -1, 1 << x.w))
            for y, k in ts:
                rest = c0 + sum(self.ev(z) * c for z, c in ts if z is not y)
                d = sgn((v - rest) & M(x.w), x.w)
                k = sgn(k, x.w)
                if d % k == 0:
                    return self.put(y, d // k)
            self.ok = False
        elif o == 'xor':
            rest = 0
            for z in a[1:]:
                rest ^= self.ev(z)
            if a[0].op == 'const' and len(a) > 1:
                rest = rest ^ self.ev(a[1]) ^ a[0].a
                self.put(a[1], v ^ rest)
            else:
                self.put(a[0], v ^ rest)
        elif o == 'and':
            k = M(x.w)
            free = [z for z in a if z.op != 'const']
            for z in a:
                if z.op == 'const':
                    k &= z.a
            if v & ~k:
                self.ok = False
            for z in free:
                self.put(z, self.ev(z) & ~k | v)
        elif o == 'or':
            for z in a:
                if z.op != 'const':
                    self.put(z, v)
        elif o == 'ite':
            self.put(a[1] if self.I.ev(a[0]) else a[2], v)
        elif o == 'sext':
            self.put(a[0], v)
        else:
            self.ok = False

    def byte(self, arr, k, v):
        if isinstance(arr, A) and arr.op == 'aite':
            c, x, y, d = arr.a
            return self.byte(x, k, v) if self.I.ev(c) else self.byte(y, k + d, v)
        if not isinstance(arr, A) or arr.op not in ('asym', 'auf') or arr in OPQ or self.free is not None and (arr.op != 'asym' or arr.a.startswith(('arb', 'uninit'))):
            self.ok = False
            return
        self.bytes.setdefault(arr.a if arr.op == 'asym' else arr, {})[k] = v

    def force(self, c, want):
        o, a = c.op, c.a
        if o == 'const':
            self.ok &= bool(c.a) == want
        elif o == 'not':
            self.force(a[0], not want)
        elif o == 'band' and want or o == 'bor' and not want:
            for x in a:
                self.force(x, want)
        elif o in ('band', 'bor'):
            self.force(a[0], want)
        elif o == 'eq':
            x, y = a
            if x.op == 'const':
                x, y = y, x
            if want:
                self.put(x, self.ev(y))
            else:
                self.put(x, self.ev(y) ^ 1)
        elif o in ('ult', 'slt'):
            x, y = a
            if x.op == 'const':
                self.put(y, x.a + 1 if want else x.a)
            else:
                v = self.ev(y)
                self.put(x, v - 1 if want else v)
        elif o == 'sym' or o == 'byte':
            self.put(c, int(want))
        else:
            self.ok = False

    def interp(self):
        I = self.I
        arrs = dict(I.arrs)
        for k, bs in self.bytes.items():
            arrs[k] = over(arrs.get(k), bs)
        J = I.__class__(I.seed, {**I.vals, **self.vals}, arrs)
        return J


def over(f, bs):
    def g(k):
        v = bs.get(k)
        return v if v is not None else f(k) if f is not None else None
    return g


def satisfy(guard, I, free=None, rounds=16):
    """An assignment near I under which all guards hold, by forcing the ones that fail one after another; or None."""
    J = I
    for r in range(rounds):
        bad = [g for g in guard if not J.ev(g)]
        if not bad:
            return J
        for g in bad[r % len(bad):] + bad[:r % len(bad)]:
            s = Set(J, free)
            try:
                s.force(g, True)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                continue
            if s.ok:
                J = s.interp()
                break
        else:
            return None
    return J if all(J.ev(g) for g in guard) else None


def directed(x, spec, bases, free=None, limit=40):
    """Assignments forcing, one by one, the conditions of x that spec does not have."""
    skip = conditions(spec)[1] if spec is not None else ()
    cs, _ = conditions(x, skip)
    n = 0
    todo = [(c, w) for c in cs[:limit] for w in (True, False) if w or c.op in CMP]
    for c, w in todo:
        for I in bases:
            s = Set(I, free)
            try:
                s.force(c, w)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                continue
            if not s.ok:
                continue
            n += 1
            if n > limit:
                return
            yield s.interp()
    # all of them together, as far as they agree
    if len(cs) > 1:
        for I in bases:
            s = Set(I, free)
            for c in cs[:12]:
                u = Set(s.interp(), free)
                u.force(c, True)
                if u.ok:
                    s.vals.update(u.vals)
                    for k, b in u.bytes.items():
                        s.bytes.setdefault(k, {}).update(b)
            yield s.interp()
