"""Where the bytes of a secret get to: an output may hold them only beneath a keyed hash function that takes them as its key."""
import re
from . import term as t
from .term import T, A, Interp
from .mem import Content, Ite
from .report import Sampler

KEYPOS = {'prf': 0, 'prfkg': 0, 'wotspk': 0, 'wotssig': 1, 'leaf': 0, 'mroot': 0, 'mpath': 0}
ON = False            # set when the property is the one being decided
CORE = {'SHA256', 'SHA512', 'shake128', 'shake256'}


class Walk:
    """Looks for secret bytes outside key positions. secret: {array name: [(lo, hi)]}; core: hash inputs may hold them."""

    def __init__(self, secret, core=False):
        self.secret, self.core = secret, core
        self.seen = set()

    def hit(self, arr, lo, hi):
        for a, b in self.secret.get(arr.a, ()) if arr.op == 'asym' else ():
            if lo < b and a < hi:
                return f'byte {max(a, lo)} of {arr.a}'
        return None

    def pieces(self, bs):
        for s, o, n in bs:
            for x in (o, n):
                if isinstance(x, T):
                    r = self.term(x)
                    if r:
                        return r
            if isinstance(s, int):
                continue
            if isinstance(s, T):
                r = self.term(s)
            else:
                lo, hi = (o, o) if isinstance(o, int) else (o.lo, o.hi)
                r = self.array(s, lo, hi + (n if isinstance(n, int) else n.hi))
            if r:
                return r
        return None

    def array(self, a, lo, hi):
        if isinstance(a, int):
            return None
        if a.op == 'asym':
            return self.hit(a, lo, hi)
        k = (a.id, lo, hi) if a.op == 'aite' else a.id
        if k in self.seen:
            return None
        self.seen.add(k)
        if a.op == 'aite':
            c, x, y, d = a.a
            return self.term(c) or self.array(x, lo, hi) or self.array(y, lo + d, hi + d)
        if a.op == 'auf':
            nm = a.a[0].split('/')[0]
            if a in t.OPQ:
                return self.opaque(t.OPQ[a])
            if self.core and nm in CORE:
                return None
            kp = KEYPOS.get(nm)
            return self.args(a.a[1], kp)
        return None

    def args(self, xs, kp):
        for i, x in enumerate(xs):
            if i == kp:
                continue
            r = self.any(x)
            if r:
                return r
        return None

    def any(self, x):
        if isinstance(x, T):
            return self.term(x)
        if isinstance(x, A):
            return self.array(x, 0, 1 << 64)
        if isinstance(x, Content):
            return self.content(x)
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple) and len(x[0]) == 3:
                return self.pieces(x)
            for y in x:
                r = self.any(y)
                if r:
                    return r
        return None

    def opaque(self, q):
        for x in q[1:]:
            r = self.any(x)
            if r:
                return r
        return None

    def content(self, c):
        for ly in c.layers:
            if hasattr(ly, 'st'):
                for i, (s, o) in enumerate(ly.pc):
                    r = self.pieces(((s, o, ly.en[i] - ly.st[i]),))
                    if r:
                        return r
            else:
                r = self.any(ly.off) or self.any(ly.len) or self.pieces(ly.bs)
                if r:
                    return r
        b = c.base
        if isinstance(b, Ite):
            return self.term(b.c) or self.content(b.x) or self.content(b.y)
        return self.array(b, 0, 1 << 64) if isinstance(b, A) else None

    def term(self, x):
        stack = [x]
        while stack:
            y = stack.pop()
            if y.id in self.seen or y.op == 'const':
                continue
            self.seen.add(y.id)
            o, a = y.op, y.a
            if o == 'sym':
                if y in t.DEFS:
                    stack.append(t.DEFS[y])
            elif o == 'byte':
                r = self.array(a[0], a[1], a[1] + 1)
                if r:
                    return r
            elif o == 'bytex':
                r = self.array(a[0], a[1].lo, a[1].hi + 1)
                if r:
                    return r
                stack.append(a[1])
            elif o == 'uf':
                r = self.args(a[1], None)
                if r:
                    return r
            else:
                self.flat(a, stack)
        return None

    def flat(self, a, stack):
        if isinstance(a, T):
            stack.append(a)
        elif isinstance(a, tuple):
            for y in a:
                self.flat(y, stack)


class Blind(Interp):
    """Evaluation in which keyed hash functions do not depend on their keys."""
    core = False

    def arrkey(self, arr):
        if arr.op == 'auf':
            nm = arr.a[0].split('/')[0]
            kp = KEYPOS.get(nm)
            if kp is not None or self.core and nm in CORE:
                k = ('k', arr.id)
                m = self.memo.get(k)
                if m is None:
                    m = self.memo[k] = t._h(self.seed, 'auf', arr.a[0], () if kp is None else
                                            tuple(self.arg(x) for i, x in enumerate(arr.a[1]) if i != kp))
                return m
        return super().arrkey(arr)


def outputs(m, st, own):
    """[(region, byte string)]: everything that outlives the call, except the secret's own place."""
    out = []
    for rid, c in st.mem.items():
        r = m.regions.get(rid)
        if r is None or r.ro or '#' in rid or rid in own or r.size is None:
            continue
        if not c.layers and isinstance(c.base, A) and c.base.op == 'asym' and c.base.a == rid:
            continue
        out.append((r, t.norm(c.read(0, r.size, rid))))
    return out


def confined(R, m, st, where, what, secret, smp=None, own=('sk',), ret=None, core=False, rule='secret confined'):
    """No output of a run depends on secret bytes except through keyed hash functions."""
    if not ON or st is None:
        return
    outs = outputs(m, st, own)
    if ret is not None:
        outs.append((None, ret))
    for r, bs in outs:
        w = Walk(secret, core)
        hit = w.pieces(bs) if r is not None else w.term(bs)
        name = r.desc if r is not None else 'the result'
        if not hit:
            R.ok(rule)
            continue
        bad = False
        for I in (smp or Sampler(n=8)).aimed(bs, None):
            vs = []
            for v in range(3):
                base = dict(I.arrs)
                for nm, rs in secret.items():
                    base[nm] = mask(base.get(nm), rs, v, I.seed, nm)
                J = Blind(I.seed, I.vals, base)
                J.core = core
                vs.append(J.bs(bs) if r is not None else J.ev(bs))
            if vs[0] != vs[1] or vs[0] != vs[2]:
                bad = True
                break
        if bad:
            R.fail(rule, where, f'{what}: {name} depends on {hit} other than through a keyed hash function')
        else:
            R._ok(rule, 'sampled')


def mask(f, rs, v, seed, nm):
    def g(k):
        if any(a <= k < b for a, b in rs):
            return (t._h(seed, 'secret', nm, k) + 85 * v) & 255
        return f(k) if f is not None else None
    return g


# ---------------------------------------------------------------- foreign values: nothing but the arguments decides the outputs
PURE = False          # set when that property is being decided


RAND = re.compile(r'rand\d+$')


def foreign_name(a):
    return isinstance(a, str) and (a.startswith(('uninit:', 'g:', 'undef:')) or RAND.match(a) is not None)


class Foreign(Walk):
    """Looks for values that are not the caller's: uninitialised memory, writable globals, random bytes."""

    def __init__(self):
        super().__init__({})

    def hit(self, arr, lo, hi):
        return f'byte {lo} of {arr.a}' if foreign_name(arr.a) else None

    def array(self, a, lo, hi):
        if not isinstance(a, int) and a.op == 'auf' and a not in t.OPQ:
            if a.id in self.seen:
                return None
            self.seen.add(a.id)
            return self.args(a.a[1], None)
        return super().array(a, lo, hi)

    def term(self, x):
        if x.op == 'sym' and foreign_name(x.a):
            return f'the undefined value {x.a}'
        r = super().term(x)
        return r

    def flat(self, a, stack):
        if isinstance(a, T) and a.op == 'sym' and foreign_name(a.a):
            self.found = a.a
        super().flat(a, stack)


class Salted(Interp):
    """Foreign values differ from salt to salt, everything else does not."""
    salt = 0

    def _ev(self, x):
        if x.op == 'sym' and foreign_name(x.a) and x not in t.DEFS:
            return (t._h(self.seed, 'sym', x.a, x.w, self.salt))
        return super()._ev(x)

    def arrkey(self, arr):
        if arr.op == 'asym' and foreign_name(arr.a):
            return ('asym', arr.a, self.salt)
        return super().arrkey(arr)


def settled(R, m, st, where, what, smp=None, own=(), ret=None, rule='arguments decide'):
    """No output of a run depends on anything but the arguments, and no random bytes are drawn."""
    if not PURE or st is None:
        return
    for e in m.events:
        if e.name == 'randombytes' and e.cond is not t.FALSE:
            R.never(rule, e.loc, e.cond, f'{what}: draws random bytes', tuple(e.guard), smp)
    outs = outputs(m, st, own)
    outs = [(r, bs) for r, bs in outs if not r.id.startswith('g:')]
    if ret is not None:
        outs.append((None, ret))
    for r, bs in outs:
        w = Foreign()
        w.found = None
        hit = (w.pieces(bs) if r is not None else w.term(bs)) or w.found
        if not hit:
            R.ok(rule)
            continue
        bad = False
        for I in (smp or Sampler(n=8)).aimed(bs, None):
            vs = []
            for v in range(3):
                J = Salted(I.seed, I.vals, I.arrs)
                J.salt = v
                vs.append(J.bs(bs) if r is not None else J.ev(bs))
            if vs[0] != vs[1] or vs[0] != vs[2]:
                bad = True
                break
        if bad:
            R.fail(rule, where, f'{what}: {r.desc if r is not None else "the result"} depends on {hit}, which no argument decides')
        else:
            R._ok(rule, 'sampled')
