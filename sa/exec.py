"""Abstract execution of a function's CFG over gated value terms.

Undecided branches run both arms to the branch's immediate postdominator and merge the states with
gated (ite) terms; loops are unrolled while their exit test is decided or bounded by it.  Calls to modelled functions become
events; all other calls are inlined."""
from . import term as t
from .term import T, A, const, c64, TRUE, FALSE
from .mem import Content, Seg, Sym, Ite, merge_content, values, irange, _le, _l, _u, opaque, lazy
from .g_pure import frozen
from .ir import (AnalysisError, CInt, GRef, NULL, UNDEF, sizeof, alignof, struct_off, line_of, ity)


class Unbounded(AnalysisError):
    pass


class Region:
    __slots__ = ('id', 'size', 'desc', 'ro', 'watch', 'loc')

    def __init__(self, rid, size, desc='', ro=False):
        self.id, self.size, self.desc, self.ro = rid, size, desc, ro
        self.watch = False
        self.loc = None


class State:
    __slots__ = ('env', 'mem', 'tok', 'guard', 'facts', 'rng')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.tok = object()
        self.guard = ()
        self.facts = {}
        self.rng = {}

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.guard = self.guard
        s.facts = self.facts
        s.rng = self.rng
        self.tok = object()
        return s


class Agg:
    """A value of structure type: its fields."""
    __slots__ = ('f',)
    w = None

    def __init__(self, f):
        self.f = tuple(f)


def fields_of(ty):
    """[(offset, type)] of a structure or array type."""
    if ty.k == 'struct':
        out, o = [], 0
        for e in ty.el:
            a = alignof(e)
            o = (o + a - 1) // a * a
            out.append((o, e))
            o += sizeof(e)
        return out
    if ty.k == 'arr':
        return [(i * sizeof(ty.el), ty.el) for i in range(ty.n)]
    raise AnalysisError(f'value of type {ty}')


def mix(c, x, y):
    if isinstance(x, Agg) and isinstance(y, Agg):
        return Agg(mix(c, a, b) for a, b in zip(x.f, y.f))
    if isinstance(x, Agg) or isinstance(y, Agg) or x.w != y.w:
        return x
    return t.ite(c, x, y)


class Event:
    __slots__ = ('kind', 'name', 'args', 'guard', 'fn', 'loc', 'res', 'stack', 'seq')

    def __init__(self, kind, name, args, guard, fn, loc, stack):
        self.kind, self.name, self.args, self.guard, self.fn, self.loc, self.stack = \
            kind, name, args, guard, fn, loc, stack
        self.res = None

    def __repr__(self):
        return f'<{self.kind} {self.name} @{self.fn} {self.loc}>'

    @property
    def cond(self):
        return t.band(*self.guard) if self.guard else TRUE


class Frame:
    __slots__ = ('fn', 'loc', 'rets', 'dbg')

    def __init__(self, fn):
        self.fn = fn
        self.dbg = None


class Machine:
    def __init__(self, prog, models=None, limit=4000000, unroll=5000):
        self.prog = prog
        self.models = models or {}
        self.regions = {}
        self.events = []
        self.frames = []
        self.fuel = limit
        self.unroll = unroll
        self.nreg = 0
        self.stats = {'insts': 0, 'accesses': 0, 'writes': 0, 'calls': 0, 'branches': 0, 'functions': set()}
        self.issues = []             # bounds / uninit obligations left open or violated
        self.opaque_fn = None        # optional: (machine, fn, args, state) -> handled?
        self.loop_hook = None
        self.depth = 0
        self.seen_issue = set()
        self.watch_log = []

    # ------------------------------------------------------------ regions
    def region(self, rid, size, content=None, ro=False, state=None, desc=''):
        self.regions[rid] = Region(rid, size, desc or rid, ro)
        if state is not None:
            state.mem[rid] = content if content is not None else Content(None, [], state.tok)
        return t.ptr(rid, 0)

    def content(self, st, rid):
        c = st.mem.get(rid)
        if c is None:
            raise AnalysisError(f'no content for region {rid}')
        return c

    def wcontent(self, st, rid):
        c = self.content(st, rid)
        if c.tok is not st.tok:
            c = c.clone(st.tok)
            st.mem[rid] = c
        return c

    def where(self):
        for f in reversed(self.frames):
            if f.dbg:
                l = line_of(f.fn.unit, f.dbg)
                return f'{f.fn.name} ({l})'
        return '?'

    def locs(self):
        return tuple(f'{f.fn.name}@{line_of(f.fn.unit, f.dbg)}' if f.dbg else f.fn.name for f in self.frames)

    def issue(self, kind, msg, cond, st):
        key = (kind, self.where(), msg)
        if key in self.seen_issue:
            return
        self.seen_issue.add(key)
        self.issues.append((kind, self.where(), msg, cond, st.guard))

    def event(self, kind, name, args, st):
        f = self.frames[-1] if self.frames else None
        loc = line_of(f.fn.unit, f.dbg) if f and f.dbg else '?'
        e = Event(kind, name, args, st.guard, f.fn.name if f else '?', loc, self.locs())
        e.seq = len(self.events)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ facts
    def rng(self, x, st):
        """Unsigned range of x under the state's range facts."""
        r = st.rng.get(x)
        if r:
            return r
        return x.lo, x.hi

    def decide(self, c, st):
        if c.op == 'const':
            return bool(c.a)
        if not st.facts and not st.rng:
            return None
        v = st.facts.get(c)
        if v is not None:
            return v
        o = c.op
        if o == 'not':
            v = self.decide(c.a[0], st)
            return None if v is None else not v
        if o == 'band':
            r = True
            for x in c.a:
                v = self.decide(x, st)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if o == 'bor':
            r = False
            for x in c.a:
                v = self.decide(x, st)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if o in ('ult', 'eq') and st.rng:
            x, y = c.a
            lx, hx = self.srange(x, st)
            ly, hy = self.srange(y, st)
            if o == 'ult':
                if hx < ly:
                    return True
                if lx >= hy:
                    return False
            else:
                if hx < ly or hy < lx:
                    return False
                if lx == hx == ly == hy:
                    return True
        return None

    def srange(self, x, st):
        """Unsigned range with refined atoms (linear forms only)."""
        r = st.rng.get(x)
        if r:
            return r
        if x.op == 'lin':
            w = x.w
            c0, terms = x.a
            lo = hi = t.sgn(c0, w)
            for y, k in terms:
                a, b = st.rng.get(y) or (y.lo, y.hi)
                k = t.sgn(k, w)
                if k > 0:
                    lo += k * a
                    hi += k * b
                else:
                    lo += k * b
                    hi += k * a
            if lo >= 0 and hi <= t.M(w):
                return max(lo, x.lo), min(hi, x.hi)
            return x.lo, x.hi
        if x.op == 'cat':
            s, l, n = x.a[0]
            if l == 0 and s in st.rng and all(p[0].op == 'const' and p[0].a == 0 for p in x.a[1:]):
                a, b = st.rng[s]
                if b <= t.M(n):
                    return a, b
        return x.lo, x.hi

    def assume(self, c, v, st):
        """Add fact c == v to the state (facts dictionaries are copied)."""
        st.facts = dict(st.facts)
        st.rng = dict(st.rng)
        self._assume(c, v, st)

    def _assume(self, c, v, st):
        if c.op == 'not':
            return self._assume(c.a[0], not v, st)
        st.facts[c] = v
        if c.op == 'band' and v or c.op == 'bor' and not v:
            for x in c.a:
                self._assume(x, v, st)
            return
        if c.op == 'ult':
            x, y = c.a
            if y.op == 'const':
                self._range(x, None if v else y.a, y.a - 1 if v else None, st)
            elif x.op == 'const':
                self._range(y, x.a + 1 if v else None, None if v else x.a, st)
        elif c.op == 'eq' and c.a[1].op == 'const':
            x, k = c.a[0], c.a[1].a
            if v:
                self._range(x, k, k, st)
            else:
                lo, hi = self.srange(x, st)
                if lo == k:
                    self._range(x, k + 1, None, st)
                elif hi == k:
                    self._range(x, None, k - 1, st)

    def _range(self, x, lo, hi, st):
        a, b = self.srange(x, st)
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            b = min(b, hi)
        st.rng[x] = (a, b)
        if x.op == 'cat' and len(x.a) == 2 and x.a[1][0].op == 'const' and x.a[1][0].a == 0:
            s, l, n = x.a[0]
            if l == 0 and n == s.w:
                self._range(s, lo, hi, st)
        elif x.op == 'lin' and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
            c0 = t.sgn(x.a[0], x.w)
            y = x.a[1][0][0]
            ya, yb = self.srange(y, st)
            if ya + c0 >= 0 and yb + c0 <= t.M(x.w):
                st.rng[y] = (max(ya, a - c0), min(yb, b - c0))

    # ------------------------------------------------------------ memory access
    def targets(self, p, st=None):
        """[(cond, region, offset term)] of a pointer value."""
        if p.op == 'ptr':
            return [(TRUE, p.a[0], p.a[1])]
        if p.op == 'ite':
            c, x, y = p.a
            if st is not None:
                v = self.decide(c, st)
                if v is not None:
                    return self.targets(x if v else y, st)
            return [(t.band(c, k), r, o) for k, r, o in self.targets(x, st)] + \
                   [(t.band(t.bnot(c), k), r, o) for k, r, o in self.targets(y, st)]
        if p.op == 'switch':
            x, cs, d = p.a
            out = []
            none = []
            for k, v in cs:
                e = t.eq(x, const(x.w, k))
                none.append(t.bnot(e))
                out += [(t.band(e, k2), r, o) for k2, r, o in self.targets(v, st)]
            out += [(t.band(*none, k2), r, o) for k2, r, o in self.targets(d, st)]
            return out
        return [(TRUE, None, p)]

    def bounds(self, rid, off, n, st, what, cond=TRUE):
        self.stats['accesses'] += 1
        r = self.regions[rid]
        if r.size is None:
            return True
        if off.op == 'const' and isinstance(n, int) and isinstance(r.size, int):
            o = off.a if off.a >> 63 == 0 else off.a - (1 << 64)
            if 0 <= o and o + n <= r.size:
                return True
            if n == 0:
                return True
            self.issue('oob', f'{what} of {n} byte(s) at offset {o} of {r.desc} (size {r.size})',
                       cond, st)
            return False
        N, S = _l(n), _l(r.size)
        if N.op == 'const' and N.a == 0:
            return True
        end = t.add(off, N)
        lo, hi = self._irange(off, st)
        elo, ehi = self._irange(t.sub(end, S), st)
        if lo >= 0 and ehi <= 0:
            return True
        bad = t.bor(t.slt(off, c64(0)), t.slt(S, end), t.slt(end, off)) if N.op != 'const' else \
            t.bor(t.slt(off, c64(0)), t.slt(S, end))
        d = self.decide(bad, st)
        if d is False:
            return True
        self.issue('oob', f'{what} of {t.show(N)} byte(s) at offset {t.show(off)} of {r.desc} (size {t.show(S)})',
                   t.band(cond, bad), st)
        return d is None

    def _irange(self, x, st):
        """Signed range under facts."""
        if x.op == 'const':
            v = t.sgn(x.a, 64)
            return v, v
        if x.op == 'lin':
            c0, terms = x.a
            lo = hi = t.sgn(c0, 64)
            for y, k in terms:
                a, b = st.rng.get(y) or (y.lo, y.hi)
                if y.op == 'cat' and y not in st.rng:
                    a, b = self.srange(y, st)
                k = t.sgn(k, 64)
                if k > 0:
                    lo, hi = lo + k * a, hi + k * b
                else:
                    lo, hi = lo + k * b, hi + k * a
            return lo, hi
        r = st.rng.get(x) or self.srange(x, st)
        return r

    def read(self, st, p, n, what='read'):
        """Byte string of n (int or T) bytes at pointer p."""
        tg = self.targets(p, st)
        res = None
        for c, rid, off in reversed(tg):
            if rid is None:
                self.badptr(off, n, st, what, c)
                r = opaque('wild', (off, _l(n)), n)
            else:
                self.bounds(rid, off, n, st, what, c)
                self.touch(rid, off, n, st, 'r', c)
                r = self.content(st, rid).read(off, n, rid)
            if res is None:
                res = r
            else:
                r0 = res
                res = t.bs_ite(c, r, res)
                if res is None:
                    res = lazy(n, 'ite', c, tuple(r), tuple(r0))
        return res

    def badptr(self, off, n, st, what, c):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, T):
            c = t.band(c, t.bnot(t.eq(n, const(n.w, 0))))
        self.issue('wild', f'{what} through {"a null pointer" if off.op == "const" and off.a == 0 else "an invalid pointer " + t.show(off)}', c, st)

    touch_log = None

    def touch(self, rid, off, n, st, mode, c):
        r = self.regions[rid]
        if r.watch:
            self.watch_log.append((mode, rid, off, n, st.guard + ((c,) if c is not TRUE else ()), self.where(),
                                   len(self.events)))

    def write(self, st, p, bs, what='write', n=None):
        n = t.bs_len(bs) if n is None else n
        if isinstance(n, T):
            n = _u(n)
        if isinstance(n, int) and n == 0:
            return
        tg = self.targets(p, st)
        many = len(tg) > 1
        for c, rid, off in tg:
            if rid is None:
                self.badptr(off, n, st, what, c)
                continue
            ok = self.bounds(rid, off, n, st, what, c)
            self.stats['writes'] += 1
            self.touch(rid, off, n, st, 'w', c)
            if self.regions[rid].ro:
                self.issue('const', f'{what} to read-only {self.regions[rid].desc}', c, st)
            if not ok:
                continue
            b = bs
            if many and self.decide(c, st) is not True:
                old = self.content(st, rid).read(off, n, rid)
                b = t.bs_ite(c, bs, old)
                if b is None:
                    b = lazy(n, 'ite', c, tuple(bs), tuple(old))
            self.store(st, rid, off, n, b)

    def store(self, st, rid, off, n, b):
        ct = self.wcontent(st, rid)
        conc = off.op == 'const' and isinstance(n, int) and all(isinstance(x[2], int) for x in b)
        if conc:
            if not ct.layers or not isinstance(ct.layers[-1], Seg):
                ct.layers.append(Seg())
            ct.layers[-1].put(off.a, b)
            return
        if isinstance(n, int):
            vs = values(off, 64)
            if vs is not None:
                for c, v in vs:
                    if c is FALSE:
                        continue
                    sz = self.regions[rid].size
                    if isinstance(sz, int) and v + n > sz:
                        continue
                    old = ct.read(v, n, rid)
                    nb = t.bs_ite(c, b, old)
                    if nb is None:
                        nb = lazy(n, 'ite', c, tuple(b), tuple(old))
                    if not ct.layers or not isinstance(ct.layers[-1], Seg):
                        ct.layers.append(Seg())
                    ct.layers[-1].put(v, nb)
                return
        ct.layers.append(Sym(off, n, tuple(b)))

    # ------------------------------------------------------------ values
    def operand(self, v, ty, st):
        if v.__class__ is str:
            r = st.env.get(v)
            if r is None:
                raise AnalysisError(f'value {v} undefined in {self.where()}')
            return r
        if v.__class__ is CInt:
            return const(ty.w, v.v)
        if v is NULL:
            return t.NULLP
        if v.__class__ is GRef:
            return self.global_ptr(v, st)
        if ty is not None and ty.k in ('struct', 'arr') and (v is UNDEF or isinstance(v, tuple) and v[0] == 'zero'):
            return Agg(self.operand(v if v is UNDEF or e.k in ('struct', 'arr') else NULL if e.k == 'ptr' else CInt(0), e, st)
                       for o, e in fields_of(ty))
        if v is UNDEF:
            return t.sym(ty.w, f'undef:{self.where()}')
        raise AnalysisError(f'operand {v}')

    def global_ptr(self, g, st):
        unit = self.frames[-1].fn.unit
        gl = self.prog.find_global(unit, g.name)
        if gl is None:
            f = self.prog.find(unit, g.name)
            if f is not None or g.name in unit.decls:
                return t.ptr('fn:' + g.name, g.off)
            raise AnalysisError(f'unknown global {g.name}')
        return t.ptr(self.global_region(gl, st), g.off)

    def global_region(self, gl, st):
        rid = f'g:{gl.unit.src}:{gl.name}'
        if rid not in self.regions:
            self.regions[rid] = Region(rid, sizeof(gl.ty) if not gl.external else None, f'global {gl.name}', gl.const)
        if rid not in st.mem:
            if gl.external or not gl.const and not frozen(self.prog, gl):
                st.mem[rid] = Content(t.asym(rid), [], st.tok)
            else:
                c = st.mem[rid] = Content(0, [Seg()], st.tok)
                self._init(c, 0, gl.ty, gl.init, gl.unit, st)
        return rid

    def _init(self, c, off, ty, v, unit, st):
        seg = c.layers[-1]
        if isinstance(v, CInt):
            seg.put(off, [(const(8 * sizeof(ty), v.v), 0, sizeof(ty))])
        elif isinstance(v, tuple):
            if v[0] == 'zero':
                return
            if v[0] == 'str':
                seg.put(off, [(t._mka('lit', bytes(v[1])), 0, len(v[1]))])
            else:
                for i, (et, ev) in enumerate(v[1]):
                    o = i * sizeof(et) if ty.k == 'arr' else struct_off(ty, i)
                    self._init(c, off + o, et, ev, unit, st)
        elif v is UNDEF or v is NULL:
            return
        elif isinstance(v, GRef):
            gl = self.prog.find_global(unit, v.name)
            if gl is None:
                seg.put(off, [(t.ptr('fn:' + v.name, 0), 0, 8)])
            else:
                seg.put(off, [(t.ptr(self.global_region(gl, st), v.off), 0, 8)])
        else:
            raise AnalysisError(f'initialiser {v}')

    # ------------------------------------------------------------ execution
    def call(self, fn, args, st):
        """Inline a function; returns (value or None, state)."""
        if len(self.frames) > 400:
            raise AnalysisError('call depth')
        fr = Frame(fn)
        self.frames.append(fr)
        self.stats['calls'] += 1
        self.stats['functions'].add(fn.name)
        saved = st.env
        st.env = {}
        for (nm, ty), v in zip(fn.params, args):
            st.env[nm] = v
        st.env['%__ret'] = None
        locals0 = len(self.regions)
        out = self.run(fn.entry, '<exit>', st, 0)
        self.frames.pop()
        if out is None:
            return None, None
        ret = out.env.get('%__ret')
        out.env = saved
        return ret, out

    def enter(self, fn, b, prev, st):
        """Evaluate the phis of block b for the edge prev -> b."""
        blk = fn.blocks[b]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                v = None
                for (pb, x) in ph.x:
                    if pb == prev:
                        v = x
                        break
                if v is None:
                    raise AnalysisError(f'{fn.name}: phi without edge {prev}->{b}')
                if v is UNDEF and ph.ty.k not in ('struct', 'arr'):
                    vals.append((ph.dst, t.sym(ph.ty.w if ph.ty.w else 64, f'undef:{fn.name}:{ph.dst}')))
                else:
                    vals.append((ph.dst, self.operand(v, ph.ty, st)))
            for k, v in vals:
                st.env[k] = v

    def run(self, blk, stop, st, depth):
        """Run from block blk until block name stop is entered (its phis evaluated). None: no path gets there."""
        fn = blk.fn
        while True:
            for ins in blk.insts:
                self.fuel -= 1
                r = DISPATCH[ins.op](self, ins, st)
                if r is not None:
                    st = r
                    if st is DEAD:
                        return None
            self.stats['insts'] += len(blk.insts)
            if self.fuel < 0:
                raise AnalysisError('analysis budget exhausted in ' + self.where())
            tm = blk.term
            if tm.dbg:
                self.frames[-1].dbg = tm.dbg
            op = tm.op
            if op == 'ret':
                if tm.a:
                    st.env['%__ret'] = self.operand(tm.a[0], tm.ty, st)
                st.env['%__done'] = TRUE
                return st
            if op == 'unreachable':
                return None
            if op == 'br' and len(tm.x) == 1:
                nxt = tm.x[0]
            else:
                arms = self.arms(tm, st)
                if len(arms) == 1:
                    nxt = arms[0][1]
                else:
                    self.stats['branches'] += 1
                    join = blk.ipdom
                    if self.loop_hook is not None:
                        r = self.loop_hook(self, blk, arms, st)
                        if r is not None:
                            nxt, st = r
                            self.enter(fn, nxt[1], nxt[0], st)
                            if nxt[1] == stop:
                                return st
                            blk = fn.blocks[nxt[1]]
                            continue
                    if depth > self.unroll:
                        raise Unbounded(f'loop with undecided exit in {self.where()}: {t.show(arms[0][0])}')
                    outs = []
                    for k, (c, b) in enumerate(arms):
                        s2 = st.fork()
                        s2.guard = st.guard + (c,)
                        self.assume(c, True, s2)
                        self.enter(fn, b, blk.name, s2)
                        if b == join:
                            outs.append((c, s2))
                            continue
                        saved = self.frames[-1].dbg
                        s3 = self.run(fn.blocks[b], join, s2, depth + 1)
                        self.frames[-1].dbg = saved
                        if s3 is not None:
                            outs.append((c, s3))
                    if not outs:
                        return None
                    st = self.merge(outs, st)
                    if join == '<exit>' or join == stop:
                        return st
                    blk = fn.blocks[join]
                    continue
            self.enter(fn, nxt, blk.name, st)
            if nxt == stop:
                return st
            blk = fn.blocks[nxt]

    def arms(self, tm, st):
        """[(cond, block)] of the feasible successors."""
        if tm.op == 'br':
            c = self.operand(tm.a[0], ity(1), st)
            v = self.decide(c, st)
            if v is not None:
                return [(TRUE, tm.x[0] if v else tm.x[1])]
            if tm.x[0] == tm.x[1]:
                return [(TRUE, tm.x[0])]
            return [(c, tm.x[0]), (t.bnot(c), tm.x[1])]
        v = self.operand(tm.a[0], tm.ty, st)
        cases, default = tm.x
        out = {}
        rest = []
        for k, b in cases:
            c = t.eq(v, const(tm.ty.w, k))
            d = self.decide(c, st)
            if d is True:
                return [(TRUE, b)]
            if d is False:
                continue
            out[b] = t.bor(out[b], c) if b in out else c
            rest.append(t.bnot(c))
        lo, hi = self.srange(v, st)
        left = hi - lo + 1 - len(rest)
        if left > 0:
            c = t.band(*rest)
            out[default] = t.bor(out[default], c) if default in out else c
        arms = [(c, b) for b, c in out.items()]
        return arms

    def merge(self, outs, base):
        c, s = outs[-1]
        if len(outs) == 1:
            # the other arms never get here: what they excluded holds from now on
            return s
        acc = s
        for (c, s) in reversed(outs[:-1]):
            acc = self.merge2(c, s, acc, base)
        acc.guard = base.guard
        acc.facts = base.facts
        acc.rng = base.rng
        return acc

    def merge2(self, c, a, b, base):
        r = State()
        env = {}
        be = b.env
        for k, v in a.env.items():
            w = be.get(k)
            if w is v:
                env[k] = v
            elif w is not None and v is not None:
                env[k] = mix(c, v, w)
        r.env = env
        mem = {}
        bm = b.mem
        for k, v in a.mem.items():
            w = bm.get(k)
            if w is v:
                mem[k] = v
            elif w is None:
                mem[k] = v
            else:
                mem[k] = merge_content(c, v, w, k, r.tok)
        for k, w in bm.items():
            if k not in mem:
                mem[k] = w
        r.mem = mem
        return r

    # ------------------------------------------------------------ instructions
    def i_bin(self, ins, st):
        ty = ins.ty
        x = self.operand(ins.a[0], ty, st)
        y = self.operand(ins.a[1], ty, st)
        if self.cut is not None:
            r = self.cut(ins.op, x, y)
            if r is not None:
                st.env[ins.dst] = r
                return
        st.env[ins.dst] = BIN[ins.op](x, y)

    def i_icmp(self, ins, st):
        ty = ins.ty
        x = self.operand(ins.a[0], ty, st)
        y = self.operand(ins.a[1], ty, st)
        st.env[ins.dst] = t.icmp(ins.x, x, y)

    def i_cast(self, ins, st):
        x = self.operand(ins.a[0], ins.x, st)
        w = ins.ty.w
        if ins.op == 'zext':
            r = t.zext(x, w)
        elif ins.op == 'sext':
            r = t.sext(x, w)
        elif ins.op == 'trunc':
            r = t.trunc(x, w)
        elif ins.op == 'ptrtoint':
            r = x if w == 64 else t.trunc(x, w)
        elif ins.op == 'inttoptr':
            r = x if x.w == 64 else t.zext(x, 64)
        else:
            r = x
        st.env[ins.dst] = r

    def i_load(self, ins, st):
        if ins.dbg:
            self.frames[-1].dbg = ins.dbg
        p = self.operand(ins.a[0], None, st)
        if ins.ty.k in ('struct', 'arr'):
            st.env[ins.dst] = self.load_agg(p, ins.ty, st)
            return
        n = sizeof(ins.ty)
        bs = self.read(st, p, n, 'read')
        v = t.word_of(bs, n)
        w = ins.ty.w
        st.env[ins.dst] = v if v.w == w else t.extract(v, 0, w)

    def i_store(self, ins, st):
        if ins.dbg:
            self.frames[-1].dbg = ins.dbg
        v = self.operand(ins.a[0], ins.ty, st)
        p = self.operand(ins.a[1], None, st)
        if isinstance(v, Agg):
            self.store_agg(p, v, ins.ty, st)
            return
        n = sizeof(ins.ty)
        if v.w < 8 * n:
            v = t.zext(v, 8 * n)
        self.write(st, p, ((v, 0, n),), 'write')

    def load_agg(self, p, ty, st):
        out = []
        for o, e in fields_of(ty):
            q = padd(p, c64(o))
            if e.k in ('struct', 'arr'):
                out.append(self.load_agg(q, e, st))
            else:
                v = t.word_of(self.read(st, q, sizeof(e), 'read'), sizeof(e))
                w = 64 if e.k == 'ptr' else e.w
                out.append(v if v.w == w else t.extract(v, 0, w))
        return Agg(out)

    def store_agg(self, p, v, ty, st):
        for (o, e), x in zip(fields_of(ty), v.f):
            q = padd(p, c64(o))
            if isinstance(x, Agg):
                self.store_agg(q, x, e, st)
            else:
                n = sizeof(e)
                self.write(st, q, ((t.zext(x, 8 * n) if x.w < 8 * n else x, 0, n),), 'write')

    def i_extractvalue(self, ins, st):
        ty, k = ins.x
        v = self.operand(ins.a[0], ty, st)
        if not isinstance(v, Agg):
            raise AnalysisError('structure value expected')
        st.env[ins.dst] = v.f[k]

    def i_insertvalue(self, ins, st):
        t2, k = ins.x
        v = self.operand(ins.a[0], ins.ty, st)
        x = self.operand(ins.a[1], t2, st)
        st.env[ins.dst] = Agg(v.f[:k] + (x,) + v.f[k + 1:])

    def i_unsupported(self, ins, st):
        raise AnalysisError(f'instruction not supported: {ins.text[:80]}')

    def by_value(self, ins, args, st):
        """Structures passed by value: the callee gets a copy."""
        for i, ty in ins.bv.items():
            self.nreg += 1
            n = sizeof(ty)
            rid = f'copy#{self.nreg}'
            self.regions[rid] = Region(rid, n, 'structure passed by value')
            st.mem[rid] = Content(None, [], st.tok)
            self.store(st, rid, c64(0), n, self.read(st, args[i], n, 'read'))
            args[i] = t.ptr(rid, 0)

    def i_gep(self, ins, st):
        base = self.operand(ins.a[0], None, st)
        bt, idx = ins.x
        off = None
        cur = bt
        k0 = 0
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                sz = sizeof(bt)
            elif cur.k in ('arr', 'vec'):
                cur = cur.el
                sz = sizeof(cur)
            else:
                k0 += struct_off(cur, iv.v)
                cur = cur.el[iv.v]
                continue
            if iv.__class__ is CInt:
                k0 += iv.v * sz
            else:
                x = self.operand(iv, it, st)
                if x.w < 64:
                    x = t.sext(x, 64)
                x = t.mulc(x, sz)
                off = x if off is None else t.add(off, x)
        if off is None:
            off = c64(k0)
        elif k0:
            off = t.addc(off, k0)
        st.env[ins.dst] = padd(base, off)

    def i_alloca(self, ins, st):
        n = self.operand(ins.a[0], ity(64), st)
        sz = t.mulc(n, sizeof(ins.x))
        self.nreg += 1
        f = self.frames[-1].fn
        nm = f.allocnames.get(ins.dst) or ins.dst
        rid = f'{f.name}.{nm}#{self.nreg}'
        self.regions[rid] = Region(rid, _u(sz), f'{f.name}\'s {nm}')
        st.mem[rid] = Content(None, [], st.tok)
        st.env[ins.dst] = t.ptr(rid, 0)

    def i_select(self, ins, st):
        c = self.operand(ins.a[0], ity(1), st)
        x = self.operand(ins.a[1], ins.ty, st)
        y = self.operand(ins.a[2], ins.ty, st)
        d = self.decide(c, st)
        st.env[ins.dst] = (x if d else y) if d is not None else mix(c, x, y)

    def i_nop(self, ins, st):
        return None

    def i_call(self, ins, st):
        fr = self.frames[-1]
        if ins.dbg:
            fr.dbg = ins.dbg
        name = ins.x
        if isinstance(name, tuple):
            fp = self.operand(name[1], None, st)
            if fp.op == 'ptr' and fp.a[0].startswith('fn:'):
                name = fp.a[0][3:]
            else:
                raise AnalysisError(f'indirect call in {self.where()}')
        if name.startswith('llvm.'):
            return self.intrinsic(name, ins, st)
        args = [self.operand(v, ty, st) for ty, v in ins.a]
        if ins.bv:
            self.by_value(ins, args, st)
        fn = self.prog.find(fr.fn.unit, name)
        md = self.models.get(name)
        if md is not None and (fn is None or md.fits(fn)):
            r = md(self, args, st)
            if r is NOTHANDLED:
                md = None
            else:
                if ins.dst:
                    if r is None:
                        raise AnalysisError(f'model of {name} returns nothing')
                    st.env[ins.dst] = r
                return None
        if fn is None:
            fn2 = LIBC.get(name)
            if fn2 is None:
                if self.unknown is not None:
                    r = self.unknown(self, name, args, ins, st)
                    if r is not None:
                        if ins.dst:
                            st.env[ins.dst] = r
                        return None
                raise AnalysisError(f'call to unmodelled external function {name} in {self.where()}')
            r = fn2(self, args, st, ins)
            if r is DEAD:
                return DEAD
            if ins.dst:
                st.env[ins.dst] = r
            return None
        if self.opaque_fn is not None:
            r = self.opaque_fn(self, fn, args, st, ins)
            if r is not None:
                if ins.dst:
                    st.env[ins.dst] = r
                return None
        ret, out = self.call(fn, args, st)
        if out is None:
            return DEAD
        if ins.dst:
            if ret is None:
                ret = t.sym(ins.ty.w, f'undef:{fn.name}')
            out.env[ins.dst] = ret
        return out

    unknown = None
    cut = None                       # optional: (op, x, y) -> term or None, consulted for binary operations

    def intrinsic(self, name, ins, st):
        a = [self.operand(v, ty, st) for ty, v in ins.a]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            LIBC['memcpy' if 'memcpy' in name else 'memmove'](self, a, st, ins)
        elif name.startswith('llvm.memset'):
            LIBC['memset'](self, [a[0], t.zext(a[1], 32), a[2]], st, ins)
        elif name.startswith('llvm.stacksave'):
            st.env[ins.dst] = t.ptr('stack', 0)
        elif name.startswith('llvm.stackrestore') or name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') \
                or name.startswith('llvm.assume'):
            pass
        elif name.startswith('llvm.umin'):
            st.env[ins.dst] = t.ite(t.ult(a[0], a[1]), a[0], a[1])
        elif name.startswith('llvm.umax'):
            st.env[ins.dst] = t.ite(t.ult(a[0], a[1]), a[1], a[0])
        elif name.startswith('llvm.smin'):
            st.env[ins.dst] = t.ite(t.slt(a[0], a[1]), a[0], a[1])
        elif name.startswith('llvm.smax'):
            st.env[ins.dst] = t.ite(t.slt(a[0], a[1]), a[1], a[0])
        elif name.startswith('llvm.bswap'):
            w = a[0].w
            st.env[ins.dst] = t.concat(*[t.extract(a[0], w - 8 - 8 * i, 8) for i in range(w // 8)])
        elif name.startswith('llvm.fshl'):
            x, y, s = a
            w = x.w
            if s.op != 'const':
                raise AnalysisError('funnel shift by a variable')
            k = s.a % w
            st.env[ins.dst] = x if k == 0 else t.concat(t.extract(y, w - k, k), t.extract(x, 0, w - k))
        elif name.startswith('llvm.fshr'):
            x, y, s = a
            w = x.w
            if s.op != 'const':
                raise AnalysisError('funnel shift by a variable')
            k = s.a % w
            st.env[ins.dst] = y if k == 0 else t.concat(t.extract(y, k, w - k), t.extract(x, 0, k))
        elif name.startswith('llvm.objectsize'):
            st.env[ins.dst] = const(ins.ty.w, -1)
        elif name.startswith('llvm.expect'):
            st.env[ins.dst] = a[0]
        elif name.startswith('llvm.trap'):
            return DEAD
        elif name.startswith('llvm.threadlocal.address'):
            st.env[ins.dst] = a[0]
        elif name.startswith('llvm.cttz') or name.startswith('llvm.ctlz'):
            w = a[0].w
            r = const(w, w)
            for i in (range(w - 1, -1, -1) if 'cttz' in name else range(w)):
                r = t.ite(t.eq(t.extract(a[0], i, 1), const(1, 1)), const(w, i if 'cttz' in name else w - 1 - i), r)
            st.env[ins.dst] = r
        elif '.with.overflow.' in name:
            w = a[0].w
            ext = t.sext if name.startswith('llvm.s') else t.zext
            x, y = ext(a[0], 2 * w), ext(a[1], 2 * w)
            k = name.split('.')[1][1:]
            r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[k](x, y)
            lo = t.trunc(r, w)
            st.env[ins.dst] = Agg((lo, t.bnot(t.eq(ext(lo, 2 * w), r))))
        elif name.startswith('llvm.ctpop'):
            w = a[0].w
            r = const(w, 0)
            for i in range(w):
                r = t.add(r, t.zext(t.extract(a[0], i, 1), w))
            st.env[ins.dst] = r
        elif name.startswith('llvm.abs'):
            st.env[ins.dst] = t.ite(t.slt(a[0], const(a[0].w, 0)), t.sub(const(a[0].w, 0), a[0]), a[0])
        else:
            raise AnalysisError(f'intrinsic {name}')
        return None


def padd(base, off):
    if base.op == 'ptr':
        return t.ptr(base.a[0], t.add(base.a[1], off))
    if base.op == 'ite':
        return t.ite(base.a[0], padd(base.a[1], off), padd(base.a[2], off))
    if base.op == 'switch':
        x, cs, d = base.a
        return t.mk_switch(x, {k: padd(v, off) for k, v in cs}, padd(d, off))
    return t.add(base, off)


class _Dead:
    pass


DEAD = _Dead()
NOTHANDLED = object()

BIN = {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'udiv': t.udiv, 'sdiv': t.sdiv, 'urem': t.urem, 'srem': t.srem,
       'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr,
       'and': lambda x, y: t.bitop('and', x, y), 'or': lambda x, y: t.bitop('or', x, y),
       'xor': lambda x, y: t.bitop('xor', x, y)}

DISPATCH = {}
for _o in BIN:
    DISPATCH[_o] = Machine.i_bin
for _o in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
    DISPATCH[_o] = Machine.i_cast
DISPATCH.update(icmp=Machine.i_icmp, load=Machine.i_load, store=Machine.i_store, getelementptr=Machine.i_gep,
                alloca=Machine.i_alloca, select=Machine.i_select, call=Machine.i_call, nop=Machine.i_nop,
                extractvalue=Machine.i_extractvalue, insertvalue=Machine.i_insertvalue, unsupported=Machine.i_unsupported)


# ------------------------------------------------------------------ libc models
def _memcpy(m, a, st, ins):
    n = _u(a[2]) if isinstance(a[2], T) else a[2]
    if isinstance(n, int) and n == 0:
        return a[0]
    bs = m.read(st, a[1], n, 'read')
    m.write(st, a[0], bs, 'write', n)
    return a[0]


def _memset(m, a, st, ins):
    n = _u(a[2])
    v = t.extract(a[1], 0, 8)
    if v.op == 'const':
        bs = ((v.a, 0, n),)
    elif isinstance(n, int):
        bs = tuple((v, 0, 1) for _ in range(n))
    else:
        raise AnalysisError('memset with symbolic value and length')
    m.write(st, a[0], bs, 'write', n)
    return a[0]


def bytes_eq(x, y):
    """Boolean term: two byte strings of the same concrete length are equal."""
    x, y = t.norm(x), t.norm(y)
    if x == y:
        return TRUE
    n = t.bs_len(x)
    if not isinstance(n, int) or n > 4096:
        return t.eq(t.uf(64, 'digest', (x,)), t.uf(64, 'digest', (y,)))
    cs = []
    x, y = list(x), list(y)
    while x:
        k = min(x[0][2], y[0][2])
        px, x = t.bs_cut(x, k)
        py, y = t.bs_cut(y, k)
        if px[0][0] is py[0][0] and px[0][1] == py[0][1]:
            continue
        for i in range(k):
            cs.append(t.eq(t.src_byte(px[0][0], px[0][1] + i), t.src_byte(py[0][0], py[0][1] + i)))
    return t.band(*cs)


def _memcmp(m, a, st, ins):
    n = _u(a[2])
    if n == 0:
        return const(32, 0)
    x = m.read(st, a[0], n, 'read')
    y = m.read(st, a[1], n, 'read')
    e = bytes_eq(x, y)
    if e.op == 'const':
        if e.a:
            return const(32, 0)
    k = t.uf(31, 'memcmp', (t.norm(x), t.norm(y)))
    # non-zero when the strings differ, either sign
    return t.ite(e, const(32, 0), t.concat(const(1, 1), k))


def _strcmp(m, a, st, ins):
    return t.uf(32, 'strcmp', (a[0], a[1]))


LIBC = {'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, 'memcmp': _memcmp, 'bcmp': _memcmp,
        '__memcpy_chk': _memcpy, '__memset_chk': _memset, 'explicit_bzero':
            lambda m, a, st, ins: _memset(m, [a[0], const(32, 0), a[1]], st, ins),
        'bzero': lambda m, a, st, ins: _memset(m, [a[0], const(32, 0), a[1]], st, ins)}


def _libc(name):
    def deco(f):
        LIBC[name] = f
        return f
    return deco


@_libc('abort')
def _abort(m, a, st, ins):
    return DEAD


@_libc('exit')
def _exit(m, a, st, ins):
    return DEAD


@_libc('__assert_fail')
def _assert_fail(m, a, st, ins):
    m.issue('abort', 'assertion can fail', TRUE, st)
    return DEAD


@_libc('malloc')
def _malloc(m, a, st, ins):
    m.nreg += 1
    rid = f'heap#{m.nreg}'
    m.regions[rid] = Region(rid, _u(a[0]), 'heap block')
    st.mem[rid] = Content(None, [], st.tok)
    return t.ptr(rid, 0)


@_libc('calloc')
def _calloc(m, a, st, ins):
    m.nreg += 1
    rid = f'heap#{m.nreg}'
    m.regions[rid] = Region(rid, _u(t.mul(a[0], a[1])), 'heap block')
    st.mem[rid] = Content(0, [], st.tok)
    return t.ptr(rid, 0)


@_libc('free')
def _free(m, a, st, ins):
    return None
