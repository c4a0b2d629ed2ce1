"""Groups: the compact implementation's tree hashing."""
from . import term as t, spec, trees, cg
from .term import T, A, const, c64
from .exec import AnalysisError, Frame, State
from .ir import program
from .models import Ctx, pick
from .mem import Content, Seg
from .report import Report, Sampler, contains
from .g_basic import params_of
from .confine import confined

C32 = spec.c32


def routines(prog):
    """Tree routines called from functions that are not tree routines themselves."""
    out = {}
    for f in prog.all_funcs():
        if trees.is_routine(prog, f) or trees.is_tree(prog, f) and cg.recursive(prog, f):
            continue
        for g in cg.callees(prog, f):
            if not isinstance(g, str) and trees.is_routine(prog, g):
                out[cg.key(g)] = g
    return list(out.values())


class Setup:
    """A machine about to run a tree routine on unknown seeds, subtree and leaf."""

    def __init__(self, prog, fn, p):
        self.p, self.fn = p, fn
        R = self.R = trees.learn(prog, fn, p)
        n, h = p['n'], p['tree_height']
        c = self.c = Ctx(prog, p, pick('gen_leaf_wots', 'thash_h'), limit=60000000, unroll=60)
        self.seed, self.pub = t.asym('seed'), t.asym('pub')
        self.w = [t.sym(32, f'tw{i}') for i in range(3)]
        self.leaf = t.sym(32, f'leaf', 0, (1 << h) - 1)
        bufs = {}

        def place(role, kind, size, content):
            i, o = role
            bufs.setdefault(i, []).append((o, kind, size, content))
        place(R.seed, 'seed', n, ((self.seed, 0, n),))
        place(R.pub, 'pub', n, ((self.pub, 0, n),))
        place(R.addr, 'addr', 32, tuple((x, 0, 4) for x in self.w + [t.sym(32, f'tw{i}') for i in range(3, 8)]))
        place(R.root, 'root', n, None)
        place(R.path, 'path', n * h, None)
        args = []
        for i, (nm, ty) in enumerate(fn.params):
            if i in bufs:
                seg = Seg()
                size = 0
                for o, kind, sz, ct in bufs[i]:
                    if ct is not None:
                        seg.put(o, ct)
                    size = max(size, o + sz)
                c.m.region(f'a{i}', size, Content(t.asym(f'old{i}'), [seg], c.st.tok), state=c.st,
                           ro=all(k in ('seed', 'pub') for _, k, _, _ in bufs[i]),
                           desc=' and '.join({'seed': 'the secret seed', 'pub': 'the public seed', 'addr': 'the subtree address',
                                              'root': 'the root buffer', 'path': 'the path buffer'}[k]
                                             for _, k, _, _ in bufs[i]))
                args.append(t.ptr(f'a{i}', 0))
            elif i == R.leaf:
                args.append(t.zext(self.leaf, ty.w) if ty.w >= 32 else t.trunc(self.leaf, ty.w))
            elif ty.k == 'ptr':
                args.append(c.p)
            else:
                args.append(const(ty.w, h))
        self.args = args

    def confine(self, R, out, W, smp):
        rid, o = f'a{self.R.seed[0]}', self.R.seed[1]
        same = [x for x in (self.R.root, self.R.path) if x[0] == self.R.seed[0]]
        confined(R, self.c.m, out, self.fn.loc, W, {'seed': [(0, self.p['n'])]}, smp, () if same else (rid,))

    # what the routine delivers besides working memory
    def outs(self):
        return {f'a{self.R.path[0]}', }

    def renew(self, st, base):
        """Outputs as some earlier iteration left them."""
        rid, h, n = f'a{self.R.path[0]}', self.p['tree_height'], self.p['n']
        seg = Seg()
        seg.put(self.R.path[1], ((t.asym('pathold'), 0, n * h),))
        st.mem[rid] = Content(base.mem[rid].base, [seg], st.tok)

    def root(self, out):
        rid = f'a{self.R.root[0]}'
        return t.norm(out.mem[rid].read(self.R.root[1], self.p['n'], rid))

    def results(self, out, made):
        """(rule, what, got, wanted) for each output after the nodes made = [(height, index, node)]."""
        rid, n = f'a{self.R.path[0]}', self.p['n']
        for k in range(self.p['tree_height']):
            got = t.norm(out.mem[rid].read(self.R.path[1] + k * n, n, rid))
            want = old = ((t.asym('pathold'), k * n, n),)
            for kk, ix, nd in made:
                if kk == k:
                    want = t.bs_ite(t.eq(bitflip(t.lshrc(self.leaf, k)), ix), nd, old)
            yield 'authentication path', f'path entry at height {k}', got, t.norm(want)

    def final(self, out):
        return ()

    def points(self, iv, tau):
        """Assignments that matter when leaf iv is added and tau nodes merge."""
        h = self.p['tree_height']
        for lf in sorted({iv, iv ^ 1, *[((iv >> a) ^ 1) << a for a in range(tau)],
                          *[(((iv >> a) ^ 1) << a) + (1 << a) - 1 for a in range(tau)], 0}):
            if 0 <= lf < 1 << h:
                yield {self.leaf: lf}

    def leafnode(self, i):
        """Spec leaf at position i (32-bit term)."""
        w = tuple(self.w)
        return spec.u_leaf(self.p, ((self.seed, 0, self.p['n']),), ((self.pub, 0, self.p['n']),),
                           w + (C32(1), i), w + (C32(0), i))

    def inner(self, kids, height, index):
        """Spec node from its children; height is that of the children, index the node's own."""
        return spec.u_H(self.p, t.norm(kids), ((self.pub, 0, self.p['n']),), tuple(self.w) + (C32(2), C32(0), C32(height), index))


def g_tree_full(n, h):
    """Every iteration analysed one by one."""
    R = Report(f'treehash/{n},{h}')
    prog = program('ref')
    p = dict(spec.make(0, n, 32, h, 1, False))
    p['sk_bytes'] = 4 + 4 * n
    fns = routines(prog)
    if not fns:
        raise AnalysisError('no tree hashing routine found')
    for fn in fns:
        s = Setup(prog, fn, p)
        ret, out = s.c.m.call(fn, s.args, s.c.st)
        R.use(s.c.m)
        W = f'{fn.name} (n={n}, height {h})'
        if out is None:
            R.fail('tree root', fn.loc, f'{W}: does not return')
            continue
        levels = [[s.leafnode(C32(i)) for i in range(1 << h)]]
        for k in range(h):
            a = levels[-1]
            levels.append([s.inner(a[2 * i] + a[2 * i + 1], k, C32(i)) for i in range(len(a) // 2)])
        vals = sorted({0, 1, 2, 3, (1 << h) - 1, (1 << h) - 2} | {1 << k for k in range(h)} | {(1 << k) - 1 for k in range(h)})
        smp = Sampler([({s.leaf: v}, {}) for v in vals], 10)
        R.safe('tree accesses', s.c.m, smp)
        s.confine(R, out, W, smp)
        get = lambda ro, o, k: t.norm(out.mem[f'a{ro[0]}'].read(ro[1] + o, k, f'a{ro[0]}'))
        R.same('tree root', fn.loc, get(s.R.root, 0, n), levels[h][0], f'{W}: root', (), smp)
        for k in range(h):
            got = get(s.R.path, k * n, n)
            bad = None
            aim = {I.vals[s.leaf] for I in smp.aimed(got, None) if s.leaf in I.vals} if h > 5 else ()
            for v in range(1 << h) if h <= 5 else sorted(aim | set(vals)):
                x = resolve(got, s.leaf, v)
                want = levels[k][(v >> k) ^ 1]
                if x != t.norm(want):
                    bad = (v, x, want)
                    break
            if bad:
                R.fail('authentication path', fn.loc,
                       f'{W}: path entry at height {k} for leaf {bad[0]}: got {t.show(tuple(bad[1]))[:240]}, '
                       f'expected {t.show(tuple(bad[2]))[:240]}')
            else:
                R._ok('authentication path', 'proved' if h <= 5 else 'sampled')
    return R


def resolve(bs, x, v):
    """Byte string under x = v (array-level gates decided by the value)."""
    I = t.Interp((0, v), {x: v})
    out = []
    for (s, o, k) in bs:
        while isinstance(s, A) and s.op == 'aite':
            c, p, q, d = s.a
            if I.ev(c):
                s = p
            else:
                s, o = q, o + d
            if isinstance(s, int):
                break
        out.append((s, o, k))
    return t.norm(tuple(out))


# ------------------------------------------------------------------ one iteration for all positions
class NoTemplate(Exception):
    pass


def leaf_loop(prog, fn):
    """Header of the outermost loop of fn that makes a leaf per iteration."""
    idom = dominators(fn)
    back = []
    for b in fn.blocks.values():
        for s in b.succs:
            if dominates(idom, s, b.name):
                back.append((b.name, s))
    loops = {}
    for b, h in back:
        body = loops.setdefault(h, {h})
        work = [b]
        while work:
            x = work.pop()
            if x not in body:
                body.add(x)
                work += fn.blocks[x].preds
    cand = []
    for h, body in loops.items():
        for x in body:
            for ins in fn.blocks[x].insts:
                if ins.op == 'call' and isinstance(ins.x, str):
                    g = prog.find(fn.unit, ins.x)
                    if g is not None and 'gen_leaf_wots' in cg.reach_names(prog, g):
                        cand.append((len(body), h))
    if not cand:
        raise NoTemplate('no loop over leaves')
    return max(cand)[1]


def dominators(fn):
    names = [b.name for b in fn.order]
    dom = {x: set(names) for x in names}
    dom[fn.entry.name] = {fn.entry.name}
    ch = True
    while ch:
        ch = False
        for x in names:
            if x == fn.entry.name:
                continue
            ps = [dom[q] for q in fn.blocks[x].preds]
            d = set.intersection(*ps) if ps else set()
            d = d | {x}
            if d != dom[x]:
                dom[x] = d
                ch = True
    return dom


def dominates(dom, a, b):
    return a in dom[b]


def bits_desc(i):
    return [b for b in range(i.bit_length() - 1, -1, -1) if i >> b & 1]


def pieces(ct, size, rid):
    """[(offset, src, srcoff, len)] of a region's content."""
    out, p = [], 0
    for s, o, k in t.norm(ct.read(0, size, rid)):
        out.append((p, s, o, k))
        p += k
    return out


class Ended(Exception):
    """The routine returned after this many leaves."""


class Weaken(Exception):
    """Part of the working memory turned out not to stay as it was in the first iterations."""

    def __init__(self, r, x, ct, rid, smp):
        off, src, so, k = x
        i = r['fixed'].index(x)
        keep = []
        for o in range(off, off + k):
            piece = (o, src, so if isinstance(src, int) else so + o - off, 1)
            if agree(t.norm(ct.read(o, 1, rid)), t.norm((piece[1:],)), smp):
                if keep and keep[-1][0] + keep[-1][3] == o:
                    keep[-1] = keep[-1][:3] + (keep[-1][3] + 1,)
                else:
                    keep.append(piece)
        r['fixed'][i:i + 1] = keep


def agree(a, b, smp):
    if a == b:
        return True
    for I in smp:
        x = I.cuts(a) | I.cuts(b)
        if I.bs(a, x) != I.bs(b, x):
            return False
    return True


class Template:
    """State at the head of the leaf loop as a function of the position."""


def infer(s, header):
    """Analyses the first iterations and fits every value of the loop state."""
    m, fn, p, n = s.c.m, s.fn, s.p, s.p['n']
    m.frames.append(Frame(fn))
    st = s.c.st
    st.env = {nm: v for (nm, ty), v in zip(fn.params, s.args)}
    st.env['%__ret'] = None
    st = m.run(fn.entry, header, st, 0)
    if st is None or st.env.get('%__done') is not None:
        raise Ended(0)
    hb = fn.blocks[header]
    snaps = [st.fork()]
    outs = s.outs()
    nodes = {}

    def node(k, i):
        if (k, i) not in nodes:
            nodes[k, i] = s.leafnode(C32(i)) if k == 0 else s.inner(node(k - 1, 2 * i) + node(k - 1, 2 * i + 1), k - 1, C32(i))
        return nodes[k, i]
    for i in range(min(40, (1 << p["tree_height"]) - 1)):
        st = m.run(hb, header, st, 0)
        if st is None or st.env.get('%__done') is not None:
            raise Ended(len([e for e in m.events if e.name == 'gen_leaf_wots']))
        snaps.append(st.fork())
    T_ = Template()
    T_.base = snaps[0]
    T_.hb = hb
    # scalars
    T_.phis = {}
    for ph in hb.phis:
        vs = [x.env[ph.dst] for x in snaps]
        T_.phis[ph.dst] = fit_scalar(vs)
    # memory
    T_.regs = {}
    for rid in snaps[0].mem:
        if rid in outs:
            continue
        cs = [x.mem.get(rid) for x in snaps]
        if any(c is None for c in cs):
            continue
        if all(c is cs[0] for c in cs):
            continue
        size = m.regions[rid].size
        if not isinstance(size, int):
            raise NoTemplate('region of unknown size changes')
        T_.regs[rid] = fit_region(rid, size, cs, node, n)
    if not any(k[0] == 'node' for r in T_.regs.values() for k in r['arrays']):
        raise NoTemplate('no stack of nodes recognised')
    return T_


def fit_scalar(vs):
    v0 = vs[0]
    if all(v is v0 for v in vs):
        return ('same', v0)
    if all(v.op == 'ptr' and v.a[0] == v0.a[0] and v.a[1].op == 'const' for v in vs) and v0.op == 'ptr':
        f = fit_ints([v.a[1].a for v in vs])
        return ('ptr', v0.a[0], f) if f else ('any', v0.w)
    if all(v.op == 'const' for v in vs):
        f = fit_ints([v.a for v in vs])
        return (f + (v0.w,)) if f else ('any', v0.w)
    return ('any', v0.w)


def fit_ints(vs):
    """idx*a + c or popcount(idx)*a + c."""
    c = vs[0]
    a = vs[1] - c
    if all(v == c + a * i for i, v in enumerate(vs)):
        return ('idx', a, c)
    if all(v == c + a * bin(i).count('1') for i, v in enumerate(vs)):
        return ('pop', a, c)
    return None


def fit_region(rid, size, cs, node, n):
    ps = [pieces(c, size, rid) for c in cs]
    arrays = []
    # nodes
    pos = []
    for i, pl in enumerate(ps):
        at = {}
        for off, src, so, k in pl:
            if isinstance(src, A) and so == 0 and k == n:
                at.setdefault(src, []).append(off)
        pos.append(at)
    want = [[node(b, (i >> b) - 1)[0][0] for b in bits_desc(i)] for i in range(len(ps))]
    # nodes: entry j of the stack at alpha + beta*j
    for beta in [n] + [x for x in range(n + 1, n + 33)]:
        a0 = pos[1].get(want[1][0]) if len(want) > 1 else None
        done = False
        for alpha in a0 or ():
            if all(alpha + beta * j in pos[i].get(w, ()) for i in range(len(ps)) for j, w in enumerate(want[i])):
                arrays.append(('node', alpha, beta, n))
                done = True
                break
        if done:
            break
    # heights
    vals = []
    for pl in ps:
        byte = {}
        for off, src, so, k in pl:
            if k > 4096:
                continue
            if isinstance(src, int):
                byte.update((off + i, src) for i in range(k))
            elif isinstance(src, T) and src.op == 'const':
                byte.update((off + i, src.a >> 8 * (so + i) & 255) for i in range(k))
        d = {}
        for o in byte:
            for w in (1, 2, 4, 8):
                if all(o + i in byte for i in range(w)):
                    d[o, w] = sum(byte[o + i] << 8 * i for i in range(w))
        vals.append(d)
    strides = [a[2] for a in arrays]
    for w in (4, 8, 1, 2):
        hit = False
        for beta in [w] + strides:
            for alpha in [o for o, k in vals[1] if k == w and vals[1][o, k] == 0]:
                if all(vals[i].get((alpha + beta * j, w)) == b for i in range(len(ps)) for j, b in enumerate(bits_desc(i))):
                    arrays.append(('height', alpha, beta, w))
                    hit = True
                    break
            if hit:
                break
        if hit:
            break
    # the rest: what never changes stays, the rest is unknown
    def bytesof(pl):
        out = []
        for off, src, so, k in pl:
            for i in range(k):
                if isinstance(src, int):
                    out.append((src, 0))
                elif isinstance(src, T) and src.op == 'const':
                    out.append((src.a >> 8 * (so + i) & 255, 0))
                else:
                    out.append((src, so + i))
        return out
    bs = [bytesof(pl) for pl in ps]
    fixed = []
    for off, x in enumerate(bs[0]):
        if all(b[off] == x for b in bs):
            src, so = x
            if fixed and fixed[-1][0] + fixed[-1][3] == off and fixed[-1][1] == src and \
                    (isinstance(src, int) or fixed[-1][2] + fixed[-1][3] == so):
                o0, s0, so0, k0 = fixed[-1]
                fixed[-1] = (o0, s0, so0, k0 + 1)
            else:
                fixed.append((off, src, so, 1))
    return {'arrays': arrays, 'fixed': fixed, 'size': size}


def value(f, idx, o):
    """Template scalar at a position: idx 32-bit term, o int."""
    if f[0] == 'same':
        return f[1]
    if f[0] == 'idx':
        w = f[3]
        x = t.zext(idx, w) if w >= 32 else t.trunc(idx, w)
        return t.addc(t.mulc(x, f[1]), f[2])
    if f[0] == 'pop':
        return const(f[3], f[2] + f[1] * o)
    if f[0] == 'ptr':
        return t.ptr(f[1], value(f[2] + (64,), idx, o))
    return None


_arb = [0]


def arb(w):
    _arb[0] += 1
    return t.sym(w, f'arb{_arb[0]}')


def has_arb(x):
    return contains(x, lambda y: (y.op == 'sym' and str(y.a).startswith('arb')) or
                    (y.op == 'asym' and str(y.a).startswith('arb')))


def inst(s, T_, idx, o, hs, ns, tok):
    """State satisfying the template; hs: height terms (32 bit) and ns: node byte strings, bottom first."""
    st = T_.base.fork()
    st.env = dict(T_.base.env)
    for k, f in T_.phis.items():
        v = value(f, idx, o)
        st.env[k] = v if v is not None else arb(f[1])
    for rid, r in T_.regs.items():
        seg = Seg()
        for off, src, so, k in r['fixed']:
            seg.put(off, ((src, so, k),))
        for kind, alpha, beta, w in r['arrays']:
            for j in range(o):
                if kind == 'node':
                    seg.put(alpha + beta * j, tuple(ns[j]))
                else:
                    h = hs[j]
                    h = t.trunc(h, 8 * w) if w < 4 else t.zext(h, 8 * w)
                    seg.put(alpha + beta * j, ((h, 0, w),))
        _arb[0] += 1
        st.mem[rid] = Content(t.asym(f'arb{_arb[0]}'), [seg], st.tok)
    s.renew(st, T_.base)
    return st


def matches(R, s, T_, st, idx, o, hs, ns, W, smp, rule):
    """Obligations that a state satisfies the template; returns False when inconclusive."""
    fn = s.fn
    ok = True

    def same(a, b, what):
        nonlocal ok
        if a is b or (isinstance(a, tuple) and t.norm(a) == t.norm(b)):
            R._ok(rule, 'proved')
            return
        k = len(R.viol)
        R.same(rule, fn.loc, a, b, f'{W}: {what}', (), smp)
        if len(R.viol) > k and has_arb(a):
            del R.viol[k:]
            ok = False
    for k, f in T_.phis.items():
        v = value(f, idx, o)
        if v is not None:
            same(st.env[k], v, 'loop variable')
    for rid, r in T_.regs.items():
        ct = st.mem[rid]
        for kind, alpha, beta, w in r['arrays']:
            for j in range(o):
                got = t.norm(ct.read(alpha + beta * j, w, rid))
                if kind == 'node':
                    same(got, t.norm(ns[j]), f'node on the stack at height {t.show(hs[j])}')
                else:
                    h = hs[j]
                    same(t.word_of(got, w), t.trunc(h, 8 * w) if w < 4 else t.zext(h, 8 * w), 'recorded height')
        for x in r['fixed']:
            off, src, so, k = x
            if not agree(t.norm(ct.read(off, k, rid)), t.norm(((src, so, k),)), smp):
                raise Weaken(r, x, ct, rid, smp)
    return ok


def g_tree_step(n, h):
    """All iterations at once: for every number of trailing ones and stack depth, with the position symbolic."""
    R = Report(f'treehash/step/{n},{h}')
    prog = program('ref')
    p = dict(spec.make(0, n, 32, h, 1, False))
    p['sk_bytes'] = 4 + 4 * n
    iterations(R, prog, p, [Setup(prog, fn, p) for fn in routines(prog)])
    return R


def iterations(R, prog, p, setups):
    n, h = p['n'], p['tree_height']
    for s in setups:
        fn = s.fn
        W0 = f'{fn.name} (n={n}, height {h})'
        try:
            T_ = infer(s, leaf_loop(prog, fn))
        except Ended as e:
            R.fail('iteration', fn.loc, f'{W0}: the loop over the leaves ends after {e} of {1 << h} leaves')
            continue
        except NoTemplate as e:
            R.notes.append(f'{W0}: iterations beyond those peeled are not covered ({e})')
            continue
        m = s.c.m
        for _ in range(500):
            m.issues, m.seen_issue = [], set()
            Q = Report(R.group)
            weak = 0
            try:
                for tau in range(h):
                    for o in range(tau, h):
                        weak += not step(Q, s, T_, tau, o, W0)
                weak += not finish(Q, s, T_, W0)
                break
            except Weaken:
                continue
        else:
            R.notes.append(f'{W0}: no invariant of the loop found')
            continue
        for k, v in Q.by.items():
            for how, x in zip(('proved', 'sampled', 'vacuous'), v):
                R._ok(k, how, x)
        for v in Q.viol:
            R.fail(*v)
        R.use(m)
        if weak:
            R.notes.append(f'{W0}: {weak} iteration classes inconclusive')


def step(R, s, T_, tau, o, W0):
    p, n, h, m = s.p, s.p['n'], s.p['tree_height'], s.c.m
    lo = o - tau                       # entries above height tau
    X = C32(0) if lo == 0 else t.sym(32, f'X{tau},{o}', (1 << lo) - 1, ((1 << lo) - 1) << (h - tau - 1 - lo)) \
        if lo <= h - tau - 1 else None
    if X is None:
        return True
    idx = t.add(t.mulc(X, 1 << (tau + 1)), C32((1 << tau) - 1))
    hs = [t.sym(32, f'hs{j},{tau},{o}', tau + 1, h - 1) for j in range(lo)] + [C32(b) for b in range(tau - 1, -1, -1)]
    ns = [((t.asym(f'N{j}'), 0, n),) for j in range(o)]
    st = inst(s, T_, idx, o, hs, ns, None)
    k0 = len(m.issues)
    out = m.run(T_.hb, T_.hb.name, st, 0)
    W = f'{W0}, leaf with {tau} trailing one bits, {o} nodes on the stack'
    # assignments
    tp = []
    import random
    rnd = random.Random(f'{tau},{o},{n},{h}')
    free = h - tau - 1
    for k in range(6 if lo else 1):
        bs = sorted(rnd.sample(range(free), lo), reverse=True) if k > 1 else \
            (list(range(free - 1, free - 1 - lo, -1)) if k else list(range(lo - 1, -1, -1)))
        xv = sum(1 << b for b in bs)
        iv = (xv << (tau + 1)) + (1 << tau) - 1
        vals = {hs[j]: bs[j] + tau + 1 for j in range(lo)}
        if lo:
            vals[X] = xv
        for v2 in s.points(iv, tau + 1):
            tp.append((vals | v2, {}))
    smp = Sampler(tp, 0, {*s.w, s.leaf} if isinstance(s, Setup) else set(s.w))
    for kind, where, msg, cond, guard in m.issues[k0:]:
        if not has_arb(cond):
            R.never('tree accesses', where, t.band(cond, *guard), msg, (), smp)
    del m.issues[k0:]
    if out is None or out.env.get('%__done') is not None:
        R.fail('iteration', s.fn.loc, f'{W}: the loop over the leaves ends early')
        return True
    s.confine(R, out, W, smp)
    cur = s.leafnode(idx)
    made = [(0, idx, cur)]
    for k in range(tau):
        cur = s.inner(ns[o - 1 - k] + cur, k, t.extract_shift(idx, k + 1) if hasattr(t, 'extract_shift') else t.lshrc(idx, k + 1))
        made.append((k + 1, t.lshrc(idx, k + 1), cur))
    ok = matches(R, s, T_, out, t.addc(idx, 1), lo + 1, hs[:lo] + [C32(tau)], ns[:lo] + [cur], W, smp, 'iteration')
    for rule, what, got, want in s.results(out, made):
        k1 = len(R.viol)
        R.same(rule, s.fn.loc, got, want, f'{W}: {what}', (), smp)
        if len(R.viol) > k1 and has_arb(got):
            del R.viol[k1:]
            ok = False
    return ok


def bitflip(x):
    return t.bitop('xor', x, C32(1))


def finish(R, s, T_, W0):
    """The last leaf, and what follows it up to the return."""
    p, n, h, m = s.p, s.p['n'], s.p['tree_height'], s.c.m
    top = (1 << h) - 1
    ns = [((t.asym(f'N{j}'), 0, n),) for j in range(h)]
    st = inst(s, T_, C32(top), h, [C32(b) for b in range(h - 1, -1, -1)], ns, None)
    k0 = len(m.issues)
    out = m.run(T_.hb, '<exit>', st, 0)
    W = f'{W0}, last leaf'
    smp = Sampler([(v, {}) for v in s.points(top, h)], 0, {*s.w, s.leaf} if isinstance(s, Setup) else set(s.w))
    for kind, where, msg, cond, guard in m.issues[k0:]:
        if not has_arb(cond):
            R.never('tree accesses', where, t.band(cond, *guard), msg, (), smp)
    del m.issues[k0:]
    if out is None or out.env.get('%__done') is None:
        R.fail('iteration', s.fn.loc, f'{W}: does not return')
        return True
    made = [(0, C32(top), s.leafnode(C32(top)))]
    for k in range(h):
        made.append((k + 1, C32(top >> (k + 1)), s.inner(ns[h - 1 - k] + made[-1][2], k, C32(top >> (k + 1)))))
    ok = True

    def same(rule, a, b, what):
        nonlocal ok
        k1 = len(R.viol)
        R.same(rule, s.fn.loc, a, t.norm(b) if isinstance(b, tuple) else b, f'{W}: {what}', (), smp)
        if len(R.viol) > k1 and has_arb(a):
            del R.viol[k1:]
            ok = False
    same('tree root', s.root(out), made[h][2], 'root')
    for rule, what, got, want in s.results(out, made):
        same(rule, got, want, what)
    for rule, what, got, want in s.final(out):
        same(rule, got, want, what)
    return ok
