"""Groups: one step of the stateful implementation's tree traversal, from an arbitrary well-formed state."""
import random
from . import term as t, spec, bds
from .term import const, c64
from .exec import AnalysisError
from .ir import program
from .models import Ctx, pick
from .mem import Content, Seg
from .report import Report, Sampler
from .g_basic import params_of
from .confine import confined

C32 = spec.c32
PARTS = {'stack': 'node stack', 'stacklevels': 'stack heights', 'auth': 'authentication path', 'keep': 'kept nodes',
         'retain': 'retained nodes'}


def make(n, h):
    p = dict(spec.make(0, n, 32, h, 1, False))
    p['bds_k'] = 0
    return p


class Inst:
    """One tree's state in memory of its own, and a call of one traversal operation."""

    def __init__(self, prog, kind, p, vals, ints=(), th=None, hook=None, tag=''):
        self.prog, self.p = prog, p
        self.o = o = bds.op(prog, kind)
        self.L = L = bds.lay(prog)
        self.fn = o.fn
        n = p['n']
        c = self.c = Ctx(prog, p, pick('gen_leaf_wots', 'thash_h', 'ull_to_bytes', 'bytes_to_ull'), limit=60000000, unroll=200)
        if hook is not None:
            c.m.opaque_fn = hook(self)
        self.seed, self.pub = t.asym('seed'), t.asym('pub')
        self.w = [t.sym(32, f'tw{i}') for i in range(3)]
        self.old = {}
        nl = bds.levels(p)
        sg, tg = Seg(), Seg()
        for f in bds.fields(p):
            k = bds.fsize(p, f)
            name = '.'.join(map(str, f))
            if f[0] in bds.STORE:
                off, w = (L.st if len(f) == 1 else L.th)[f[0]]
                v = vals.get(f)
                if v is None:
                    v = t.sym(8 * w, 'old.' + name, 0, bds.limits(p, f))
                else:
                    v = t.trunc(v, 8 * w) if v.w > 8 * w else t.zext(v, 8 * w)
                (sg if len(f) == 1 else tg).put(off + (f[1] * L.tsize if len(f) == 2 else 0), ((v, 0, w),))
            else:
                v = vals.get(f)
                v = ((t.asym('old.' + name), 0, k),) if v is None and k else tuple(v or ())
                rid = 'b.' + name
                c.buf(rid, k, v if k else None, desc=f'the {PARTS.get(f[0], "tree-hash node " + name[5:])}')
                if len(f) == 1:
                    sg.put(L.st[f[0]][0], ((t.ptr(rid, 0), 0, 8),))
                else:
                    tg.put(L.th['node'][0] + f[1] * L.tsize, ((t.ptr(rid, 0), 0, 8),))
            self.old[f] = v
        c.m.region('b.th', max(1, nl * L.tsize), Content(None, [tg], c.st.tok), state=c.st, desc='the tree-hash instances')
        sg.put(L.st['treehash'][0], ((t.ptr('b.th', 0), 0, 8),))
        c.m.region('b.state', L.ssize, Content(None, [sg], c.st.tok), state=c.st, desc='the traversal state')
        self.sp = t.ptr('b.state', 0)
        args = [None] * len(self.fn.params)
        args[o.params] = c.p
        args[o.state] = self.sp
        args[o.seed] = c.buf('seed', n, ((self.seed, 0, n),), ro=True, desc='the secret seed')
        args[o.pub] = c.buf('pub', n, ((self.pub, 0, n),), ro=True, desc='the public seed')
        args[o.addr] = c.addr('adr', self.w + [t.sym(32, f'tw{i}') for i in range(3, 8)])
        if o.node is not None:
            args[o.node] = c.buf('root', n, desc='the root buffer')
        if o.th is not None:
            args[o.th] = t.ptr('b.th', th * L.tsize)
        if o.level is not None:
            args[o.level] = const(self.fn.params[o.level][1].w, th)
        self.cell = None
        if o.count is not None:
            self.cell = args[o.count] = c.buf('count', 4, ((ints[0], 0, 4),), desc='the number of updates')
        for i, v in zip(o.ints, ints):
            w = self.fn.params[i][1].w
            args[i] = t.trunc(v, w) if v.w > w else t.zext(v, w)
        self.args = args
        self.view = bds.View(c.m, c.st, self.sp, p, L)

    def run(self):
        self.ret, self.out = self.c.m.call(self.fn, self.args, self.c.st)
        self.new = self.view.all(self.out) if self.out is not None else None
        if self.cell is not None and self.out is not None:
            self.ret = t.word_of(self.c.m.read(self.out, self.cell, 4), 4)
        return self.out is not None

    def confine(self, R, W, smp=None):
        confined(R, self.c.m, self.out, self.fn.loc, W, {'seed': [(0, self.p['n'])]}, smp, ('seed',), getattr(self, 'ret', None))

    def leaf(self, i):
        n = self.p['n']
        return spec.u_leaf(self.p, ((self.seed, 0, n),), ((self.pub, 0, n),), tuple(self.w) + (C32(1), i), tuple(self.w) + (C32(0), i))

    def H(self, kids, height, index):
        return spec.u_H(self.p, t.norm(kids), ((self.pub, 0, self.p['n']),), tuple(self.w) + (C32(2), C32(0), C32(height), index))

    def node(self, f, k):
        """k-th node of an old part."""
        n = self.p['n']
        return t.norm(t.bs_cut(t.bs_cut(self.old[f], k * n)[1], n)[0])


def compare(R, rule, s, want, W, smp, skip=()):
    """Every part of the new state; want: {field: value} for what changes; ('auth',): {index: node}."""
    n, p, loc = s.p['n'], s.p, s.fn.loc
    for f in bds.fields(p):
        if f in skip or not bds.fsize(p, f):
            continue
        got, w = s.new[f], want.get(f)
        nm = ' '.join(map(str, f))
        if f[0] in ('stack', 'auth', 'keep', 'retain', 'stacklevels'):
            w = w or {}
            u = 1 if f[0] == 'stacklevels' else n
            for k in range(bds.fsize(p, f) // u):
                if w.get(k, 0) is None:
                    continue
                b = t.norm(t.bs_cut(t.bs_cut(got, k * u)[1], u)[0])
                x = w[k] if k in w else t.norm(t.bs_cut(t.bs_cut(s.old[f], k * u)[1], u)[0])
                R.same(rule, loc, b, t.norm(x), f'{W}: {PARTS[f[0]]}, entry {k}', (), smp)
        elif f[0] in bds.STORE:
            x = w if w is not None else s.old[f]
            x = t.trunc(x, got.w) if x.w > got.w else t.zext(x, got.w)
            R.same(rule, loc, got, x, f'{W}: {nm}', (), smp)
        else:
            R.same(rule, loc, got, t.norm(w if w is not None else s.old[f]), f'{W}: {nm}', (), smp)


# ------------------------------------------------------------------ authentication path round
def g_round(n, h):
    R = Report(f'bds/round/{n},{h}')
    prog = program('fast')
    p = make(n, h)
    for tau in range(h):
        free = h - tau - 1
        X = t.sym(64, 'X', 0, (1 << free) - 1) if free else None
        leaf = t.concat(*([const(tau, (1 << tau) - 1)] if tau else []), const(1, 0), *([t.extract(X, 0, free)] if free else []),
                        const(64 - h, 0))
        s = Inst(prog, 'bds_round', p, {}, (leaf,))
        vs = sorted({0, 1, (1 << free) - 1, max(0, (1 << free) - 2), max(0, (1 << free) - 3), (1 << free) >> 1} |
                    {(1 << free) - (1 << i) for i in range(free)} | {1 << i for i in range(free)} |
                    {max(0, (1 << free) - (1 << i) - 1) for i in range(free)}) if free else [0]
        smp = Sampler([({X: v} if X is not None else {}, {}) for v in vs], 8)
        W = f'{s.fn.name} (n={n}, height {h}), leaf with {tau} trailing one bits'
        if not s.run():
            R.fail('path round', s.fn.loc, f'{W}: does not return')
            continue
        R.use(s.c.m)
        R.safe('traversal accesses', s.c.m, smp)
        s.confine(R, W, smp)
        l32 = t.zext(t.extract(leaf, 0, 32), 32)
        auth, keep, want = {}, {}, {}
        if tau < h - 1:
            even = t.eq(t.extract(leaf, tau + 1, 1), const(1, 0))
            keep[tau >> 1] = t.bs_ite(even, s.node(('auth',), tau), s.node(('keep',), tau >> 1))
        skip = set()
        if tau == 0:
            auth[0] = s.leaf(l32)
        else:
            auth[tau] = s.H(s.node(('auth',), tau - 1) + s.node(('keep',), (tau - 1) >> 1), tau - 1, t.lshrc(l32, tau))
            for i in range(tau):
                auth[i] = s.old['node', i]
                start = t.addc(leaf, 1 + 3 * (1 << i))
                g = t.ult(start, c64(1 << h))
                want['h', i] = t.ite(g, const(8, i), s.old['h', i])
                q = s.old['next_idx', i]
                want['next_idx', i] = t.ite(g, t.trunc(start, q.w) if q.w < 64 else start, q)
                for f, v in ((('completed', i), 0), (('stackusage', i), 0)):
                    q = s.old[f]
                    want[f] = t.ite(g, const(q.w, v), q)
        want['auth',], want['keep',] = auth, keep
        compare(R, 'path round', s, want, W, smp, skip)
    return R


# ------------------------------------------------------------------ one tree-hash update
def g_update(n, h, ks=None, quick=True):
    R = Report(f'bds/update/{n},{h}')
    prog = program('fast')
    p = make(n, h)
    for k in ks or range(h):
        for tau in range(k + 1):
            for own in ([tau] if tau == k else range(tau, k)):
                for o in sorted({own, own + 1, h - 1} if quick else set(range(own, h + 1))):
                    if own <= o <= h:
                        update(R, prog, p, k, tau, own, o)
    return R


def update(R, prog, p, k, tau, own, o):
    """Instance k with `own` nodes on a stack of o, tau of which merge with the next leaf."""
    n, h = p['n'], p['tree_height']
    free = h - tau - 1 if tau < k else h - tau
    X = t.sym(64, 'X', 0, (1 << free) - 1) if free else None
    mid = [] if tau == k else [const(1, 0)]
    idx = t.concat(*([const(tau, (1 << tau) - 1)] if tau else []), *mid, *([t.extract(X, 0, free)] if free else []), const(64 - h, 0))
    lv = [t.sym(8, f'lv{j}', 0, h) for j in range(o - own)] + \
         [t.sym(8, f'lv{j}', tau + 1, max(tau + 1, k - 1)) for j in range(o - own, o - tau)] + \
         [const(8, x) for x in range(tau - 1, -1, -1)]
    levels = tuple((v, 0, 1) for v in lv) + ((t.asym('old.lv'), 0, h + 1 - o),)
    s = Inst(prog, 'treehash_update', p,
             {('stackoffset',): C32(o), ('stacklevels',): t.norm(levels), ('h', k): const(8, k), ('stackusage', k): const(8, own),
              ('next_idx', k): idx, ('completed', k): const(8, 0)}, (), k)
    tp = []
    for v in sorted({0, 1, (1 << free) - 1, (1 << free) >> 1} if free else {0}):
        if free and v >= 1 << free:
            continue
        for c in (tau, 0, h):
            vals = {X: v} if X is not None else {}
            for j, x in enumerate(lv):
                if x.op == 'sym':
                    vals[x] = min(max(c, x.lo), x.hi)
            tp.append((vals, {}))
    smp = Sampler(tp, 4)
    W = f'{s.fn.name} (n={n}, height {h}), instance {k}, {own} of {o} nodes on the stack, {tau} merges'
    if not s.run():
        R.fail('tree-hash update', s.fn.loc, f'{W}: does not return')
        return
    R.use(s.c.m)
    R.safe('traversal accesses', s.c.m, smp)
    s.confine(R, W, smp)
    i32 = t.zext(t.extract(idx, 0, 32), 32)
    cur = s.leaf(i32)
    for j in range(tau):
        cur = s.H(s.node(('stack',), o - 1 - j) + cur, j, t.lshrc(i32, j + 1))
    want = {}
    top = o - tau
    skip = set()
    if tau == k:
        want['node', k] = cur
        want['completed', k] = const(8, 1)
        want['stackusage', k] = const(8, own - tau)
        want['stackoffset',] = C32(top)
        skip |= {('next_idx', k), ('h', k)}
    else:
        skip.add(('node', k))
        want['stack',] = {top: cur}
        want['stacklevels',] = {top: ((tau, 0, 1),)}
        want['stackusage', k] = const(8, own - tau + 1)
        want['stackoffset',] = C32(top + 1)
        want['next_idx', k] = t.addc(idx, 1)
        top += 1
    for f in ('stack', 'stacklevels'):
        want.setdefault((f,), {})
        for j in range(top, h + 1):
            want[f,][j] = None
    compare(R, 'tree-hash update', s, want, W, smp, skip)


# ------------------------------------------------------------------ growth of the next tree
def g_grow(n, h):
    R = Report(f'bds/grow/{n},{h}')
    prog = program('fast')
    p = make(n, h)
    for tau in range(h):
        for o in range(tau, h):
            grow(R, prog, p, tau, o)
    grow(R, prog, p, h, h)
    if keeps_complete(prog):
        complete(R, prog, p)
    else:
        from .g_fast import never_complete
        never_complete(R, prog)
    return R


def complete(R, prog, p):
    """The step on a tree that has all its leaves changes nothing."""
    n, h = p['n'], p['tree_height']
    s = Inst(prog, 'bds_state_update', p, {('next_leaf',): C32(1 << h), ('stackoffset',): C32(1)})
    W = f'{s.fn.name} (n={n}, height {h}), tree already complete'
    if not s.run():
        R.fail('next tree growth', s.fn.loc, f'{W}: does not return')
    else:
        R.use(s.c.m)
        R.safe('traversal accesses', s.c.m)
        s.confine(R, W)
        compare(R, 'next tree growth', s, {('stack',): {j: None for j in range(1, h + 1)},
                                           ('stacklevels',): {j: None for j in range(0, h + 1)}}, W, Sampler())


def keeps_complete(prog):
    """Does the growth step leave a tree that has all its leaves as it is?  If not, no caller may do it on one."""
    memo = prog.__dict__
    if '_keeps_complete' not in memo:
        T = Report('probe')
        complete(T, prog, make(32, 4))
        memo['_keeps_complete'] = not T.viol and not T.lost
    return memo['_keeps_complete']


def grow(R, prog, p, tau, o):
    n, h = p['n'], p['tree_height']
    lo = o - tau
    if tau == h:
        X, idx = None, C32((1 << h) - 1)
    elif lo == 0:
        X, idx = None, C32((1 << tau) - 1)
    elif lo > h - tau - 1:
        return
    else:
        X = t.sym(32, f'X{tau},{o}', (1 << lo) - 1, ((1 << lo) - 1) << (h - tau - 1 - lo))
        idx = t.add(t.mulc(X, 1 << (tau + 1)), C32((1 << tau) - 1))
    hs = [t.sym(8, f'hs{j},{tau},{o}', tau + 1, h - 1) for j in range(lo)]
    lv = hs + [const(8, b) for b in range(tau - 1, -1, -1)]
    levels = tuple((v, 0, 1) for v in lv) + ((t.asym('old.lv'), 0, h + 1 - o),)
    s = Inst(prog, 'bds_state_update', p, {('stackoffset',): C32(o), ('stacklevels',): t.norm(levels), ('next_leaf',): idx})
    tp, free = [], h - tau - 1
    rnd = random.Random(f'{tau},{o},{n},{h}')
    for k in range(6 if lo else 1):
        bs = sorted(rnd.sample(range(free), lo), reverse=True) if k > 2 else \
            ((list(range(free - 1, free - 1 - lo, -1)), list(range(lo - 1, -1, -1)),
              sorted({free - 1, *range(lo - 1)}, reverse=True))[k] if lo else [])
        if len(bs) != lo:
            continue
        vals = {hs[j]: bs[j] + tau + 1 for j in range(lo)}
        if X is not None:
            vals[X] = sum(1 << b for b in bs)
        tp.append((vals, {}))
    smp = Sampler(tp, 0, set(s.w))
    W = f'{s.fn.name} (n={n}, height {h}), next leaf with {tau} trailing one bits, {o} nodes on the stack'
    if not s.run():
        R.fail('next tree growth', s.fn.loc, f'{W}: does not return')
        return
    R.use(s.c.m)
    R.safe('traversal accesses', s.c.m, smp)
    s.confine(R, W, smp)
    cur = s.leaf(idx)
    want = {('auth',): {}}
    for k in range(tau):
        ix = t.lshrc(idx, k)
        want['auth',][k] = t.bs_ite(t.eq(ix, C32(1)), cur, s.node(('auth',), k))
        want['node', k] = t.bs_ite(t.eq(ix, C32(3)), cur, s.old['node', k])
        cur = s.H(s.node(('stack',), o - 1 - k) + cur, k, t.lshrc(idx, k + 1))
    want['stack',] = {j: None for j in range(lo + 1, h + 1)}
    want['stack',][lo] = cur
    want['stacklevels',] = {j: None for j in range(lo + 1, h + 1)}
    want['stacklevels',][lo] = ((tau, 0, 1),)
    want['stackoffset',] = C32(lo + 1)
    want['next_leaf',] = t.addc(idx, 1)
    compare(R, 'next tree growth', s, want, W, smp)
    gr = bds.grow_returns(prog)
    if gr:
        R.same('next tree growth', s.fn.loc, s.ret, gr[1], f'{W}: value returned', (), smp)


# ------------------------------------------------------------------ choice of the instance to update
class Choice:
    """Hook: a tree-hash update becomes an event and leaves every instance and the stack unknown."""

    def __init__(self, s, after):
        self.s, self.after, self.calls = s, after, []
        self.ops = bds.ops(s.prog)

    def __call__(self, m, fn, args, st, ins):
        from . import cg
        o = self.ops.get(cg.key(fn))
        if o is None or o.kind != 'treehash_update':
            return None
        s, p, L = self.s, self.s.p, self.s.L
        at = args[o.th] if o.th is not None else t.add(t.ptr('b.th', 0), t.mulc(t.zext(args[o.level], 64), L.tsize))
        tg = m.targets(at, st)
        none = [c for c, r, x in tg if r is None and x.op == 'const']
        tg = [(c, r, x) for c, r, x in tg if not (r is None and x.op == 'const')]
        if not tg or any(r != 'b.th' for _, r, _ in tg):
            raise AnalysisError(f'{m.where()}: updated instance could not be resolved')
        off = tg[-1][2]
        for c, _, x in tg[-2::-1]:
            off = t.ite(c, x, off)
        n = p['n']
        for c in none:
            m.issue('oob', 'an instance at no address is updated', c, st)
        m.issue('oob', f'instance beyond the {bds.levels(p)} there are is updated',
                t.bnot(t.ult(off, c64(L.tsize * bds.levels(p)))), st)
        from .models import words
        e = m.event('call', 'update', {
            'off': off, 'state': args[o.state], 'seed': t.norm(m.read(st, args[o.seed], n)),
            'pub': t.norm(m.read(st, args[o.pub], n)), 'w': words(m, st, args[o.addr], 3), 'cond': st}, st)
        e.args['before'] = s.view.all(st)
        i = len(self.calls)
        self.calls.append(e)
        for f in bds.fields(p):
            if not bds.fsize(p, f):
                continue
            w = s.view.width(f) if f[0] in bds.STORE else 0
            v = bds.fresh(p, f, w, f'u{i}')
            if f == ('stackoffset',):
                v = const(8 * w, self.after)
            elif f[0] == 'stackusage':
                v = t.sym(8 * w, f'u{i}.{f[0]}.{f[1]}', 0, self.after)
            s.view.put(st, f, v)
        return True


def urgent(s, vals, o):
    """(level or h, l_min) the rule picks: the lowest node still needed, the lowest instance among equals."""
    p, h = s.p, s.p['tree_height']
    lv = t.bs_cut(vals['stacklevels',], o)[0]
    byte = [t.word_of(t.norm(t.bs_cut(t.bs_cut(lv, j)[1], 1)[0]), 1) for j in range(o)]
    best, level = C32(h), C32(h)
    for i in range(bds.levels(p)):
        u, c = vals['stackusage', i], vals['completed', i]
        mn = C32(h)
        low = C32(i)
        for j in range(o):
            b = t.zext(byte[o - 1 - j], 32)
            mn = t.ite(t.ult(b, mn), b, mn)
            low = t.ite(t.eq(u, const(u.w, j + 1)), mn, low)
        low = t.ite(t.eq(c, const(c.w, 0)), low, C32(h))
        g = t.ult(low, best)
        level, best = t.ite(g, C32(i), level), t.ite(g, low, best)
    return level


def g_choice(n, h):
    R = Report(f'bds/choice/{n},{h}')
    prog = program('fast')
    p = make(n, h)
    for o in sorted({0, 1, 2, 3, h >> 1, h}):
        for budget in (0, 1, 2):
            if o > 3 and budget == 2 and h > 10:
                continue
            choice(R, prog, p, o, budget)
    return R


def choice(R, prog, p, o, budget):
    n, h = p['n'], p['tree_height']
    vals = {('stackoffset',): C32(o)}
    L = bds.lay(prog)
    lv = [t.sym(8, f'lv{j}', 0, h) for j in range(o)]    # h: the root of a promoted tree
    vals['stacklevels',] = t.norm(tuple((v, 0, 1) for v in lv) + ((t.asym('old.lv'), 0, h + 1 - o),))
    for i in range(bds.levels(p)):
        vals['stackusage', i] = t.sym(8, f'su{i}', 0, o)
    keep = []

    def hook(s):
        keep.append(Choice(s, max(0, o - 1)))
        return keep[0]
    s = Inst(prog, 'bds_treehash_update', p, vals, (C32(budget),), hook=hook)
    W = f'{s.fn.name} (n={n}, height {h}), {o} nodes on the stack, {budget} updates'
    rnd = random.Random(f'{h},{o},{budget}')
    tp = []
    for k in range(40):
        v = {}
        done = rnd.choice([0, 0.3, 0.7, 1])
        for i in range(bds.levels(p)):
            v[s.old['completed', i]] = int(rnd.random() < done)
            v[s.old['stackusage', i]] = rnd.choice([0, 0, rnd.randint(0, o)])
        for x in lv:
            v[x] = rnd.randint(0, h)
        tp.append((v, {}))
    smp = Sampler(tp, 30)
    if not s.run():
        R.fail('most urgent instance', s.fn.loc, f'{W}: does not return')
        return
    R.use(s.c.m)
    R.safe('traversal accesses', s.c.m, smp)
    s.confine(R, W, smp)
    cs = keep[0].calls
    rule = 'most urgent instance'
    used = C32(0)
    cur, oo, alive = s.old, o, t.TRUE
    for i in range(budget):
        lev = urgent(s, cur, oo)
        alive = t.band(alive, t.bnot(t.eq(lev, C32(h))))
        if i >= len(cs):
            R.never(rule, s.fn.loc, alive, f'{W}: update {i + 1} is missing', (), smp)
            break
        e = cs[i]
        g = tuple(e.guard)
        R.same(rule, e.loc, e.cond, alive, f'{W}: when update {i + 1} is done', (), smp)
        R.same(rule, e.loc, e.args['off'], t.mulc(t.zext(lev, 64), s.L.tsize), f'{W}: offset of the instance chosen for update {i + 1}',
               g + (alive,), smp)
        R.same(rule, e.loc, e.args['state'], s.sp, f'{W}: tree updated', g, smp)
        R.same(rule, e.loc, e.args['seed'], ((s.seed, 0, n),), f'{W}: secret seed for update {i + 1}', g, smp)
        R.same(rule, e.loc, e.args['pub'], ((s.pub, 0, n),), f'{W}: public seed for update {i + 1}', g, smp)
        for a, b, what in zip(e.args['w'], s.w, ('layer', 'tree (high word)', 'tree (low word)')):
            R.same(rule, e.loc, a, b, f'{W}: {what} for update {i + 1}', g, smp)
        for f in bds.fields(p):
            if bds.fsize(p, f):
                R.same(rule, e.loc, e.args['before'][f], cur[f], f'{W}: {" ".join(map(str, f))} before update {i + 1}', g + (alive,), smp)
        used = t.ite(alive, C32(i + 1), used)
        cur, oo = {f: _after(s, f, i, max(0, o - 1)) for f in bds.fields(p)}, max(0, o - 1)
    for e in cs[budget:]:
        R.never(rule, e.loc, e.cond, f'{W}: more updates than the budget', (), smp)
    for f in bds.fields(p):
        if not bds.fsize(p, f):
            continue
        v = s.old[f]
        for i, e in enumerate(cs[:budget]):
            a = _after(s, f, i, max(0, o - 1))
            v = t.ite(e.cond, t.zext(a, v.w) if a.w < v.w else t.trunc(a, v.w), v) if f[0] in bds.STORE else t.bs_ite(e.cond, tuple(a), tuple(v))
        R.same(rule, s.fn.loc, s.new[f], v, f'{W}: {" ".join(map(str, f))} besides the updates', (), smp)
    used_ = bds.returns_used(prog)
    R.same(rule, s.fn.loc, t.trunc(s.ret, 8) if s.ret.w > 8 else s.ret, t.trunc(used if used_ else t.sub(C32(budget), used), 8),
           f'{W}: updates {"done" if used_ else "left"}', (), smp)


def _after(s, f, i, o):
    if not bds.fsize(s.p, f):
        return ()
    w = s.view.width(f) if f[0] in bds.STORE else 0
    if f == ('stackoffset',):
        return const(8 * w, o)
    if f[0] == 'stackusage':
        return t.sym(8 * w, f'u{i}.{f[0]}.{f[1]}', 0, o)
    return bds.fresh(s.p, f, w, f'u{i}')


# ------------------------------------------------------------------ construction of a whole tree
class Build:
    """The initial tree construction as a tree routine: its outputs are nodes of the state."""

    def __init__(self, prog, p):
        n, h = p['n'], p['tree_height']
        self.p = p
        vals = {('stackoffset',): C32(0), ('next_leaf',): C32(0)}
        self.x = x = Inst(prog, 'treehash_init', p, vals, (C32(h), C32(0)))
        self.c, self.fn, self.args, self.w, self.seed, self.pub = x.c, x.fn, x.args, x.w, x.seed, x.pub
        self.leafnode = x.leaf
        self.inner = x.H
        self.c.m.unroll = 60

    def confine(self, R, out, W, smp):
        confined(R, self.c.m, out, self.fn.loc, W, {'seed': [(0, self.p['n'])]}, smp, ('seed',))

    def outs(self):
        return {'b.auth'} | {f'b.node.{k}' for k in range(bds.levels(self.p))}

    def renew(self, st, base):
        for rid in self.outs():
            seg = Seg()
            seg.put(0, ((t.asym('old' + rid), 0, self.c.m.regions[rid].size),))
            st.mem[rid] = Content(base.mem[rid].base, [seg], st.tok)

    def root(self, out):
        return t.norm(out.mem['root'].read(0, self.p['n'], 'root'))

    def points(self, iv, tau):
        yield {}

    def results(self, out, made):
        h, n = self.p['tree_height'], self.p['n']
        for k in range(h):
            for rid, off, ix, what in (('b.auth', k * n, 1, f'authentication path node at height {k}'),
                                       (f'b.node.{k}', 0, 3, f'tree-hash node at height {k}')):
                if ix >> (h - k):
                    continue
                got = t.norm(out.mem[rid].read(off, n, rid))
                want = old = ((t.asym('old' + rid), off, n),)
                for kk, i, nd in made:
                    if kk == k:
                        want = t.bs_ite(t.eq(i, C32(ix)), nd, old)
                yield 'tree construction', what, got, t.norm(want)


    def final(self, out):
        """Everything but the nodes built."""
        x = self.x
        for f in bds.fields(self.p):
            if f[0] in ('auth', 'node', 'next_idx') or not bds.fsize(self.p, f):
                continue
            got, want = x.view.get(out, f), x.old[f]
            if f[0] in ('h', 'completed', 'stackusage'):
                want = const(got.w, {'h': f[1], 'completed': 1, 'stackusage': 0}[f[0]])
            yield 'tree construction', ' '.join(map(str, f)), got, want


def g_build_full(n, h):
    """Every iteration analysed one by one."""
    R = Report(f'bds/build/{n},{h}')
    prog = program('fast')
    p = make(n, h)
    s = Build(prog, p)
    x = s.x
    W = f'{s.fn.name} (n={n}, height {h})'
    if not x.run():
        R.fail('tree construction', s.fn.loc, f'{W}: does not return')
        return R
    R.use(s.c.m)
    R.safe('traversal accesses', s.c.m)
    x.confine(R, W)
    lv = [[s.leafnode(C32(i)) for i in range(1 << h)]]
    for k in range(h):
        a = lv[-1]
        lv.append([s.inner(a[2 * i] + a[2 * i + 1], k, C32(i)) for i in range(len(a) // 2)])
    R.same('tree construction', s.fn.loc, s.root(x.out), lv[h][0], f'{W}: root')
    want = {('auth',): {k: lv[k][1] for k in range(h)}}
    for k in range(bds.levels(p)):
        want['node', k] = lv[k][3] if 3 < len(lv[k]) else ()
        want['h', k], want['completed', k], want['stackusage', k] = const(8, k), const(8, 1), const(8, 0)
    skip = {('node', k) for k in range(bds.levels(p)) if 3 >= len(lv[k])} | {('next_idx', k) for k in range(bds.levels(p))}
    compare(R, 'tree construction', x, want, W, Sampler(n=4), skip)
    return R


def g_build_step(n, h):
    from . import g_tree
    R = Report(f'bds/build/step/{n},{h}')
    prog = program('fast')
    p = make(n, h)
    g_tree.iterations(R, prog, p, [Build(prog, p)])
    return R
