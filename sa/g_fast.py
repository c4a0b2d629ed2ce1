"""Groups: signing with the stateful implementation (fresh parts, stored parts, state storage, tree scheduling)."""
from . import term as t, spec, bds
from .term import const, c64
from .ir import program
from .exec import AnalysisError
from .models import pick
from .report import Report, Sampler, contains
from .g_basic import params_of
from . import g_sign as gs
from .g_bds import keeps_complete

C32 = spec.c32


class FastRun(gs.Run):
    """A run of the stateful signer with the traversal operations as events."""

    def models(self):
        return pick('wots_sign', 'prf', 'hash_message', 'randombytes', 'thash_h', 'gen_leaf_wots', 'ull_to_bytes', 'bytes_to_ull')

    def hook(self):
        # self.p is set before the program is known here
        self.ev = bds.OpEvents(self.prog_, self.p)
        return self.ev

    def __init__(self, prog, p, fn, idx, ml, rest=None):
        self.prog_ = prog
        super().__init__(prog, p, fn, idx, ml, rest)

    def bds(self):
        return [e for e in self.m.events if e.name == 'bds']


class Layout:
    """Where the secret key keeps each part: {(slot, field): (offset, size)}, and the stored one-time signatures."""


def byte_at(x, arr):
    """Offset of the big-endian word x in the array (None when x is not such a word)."""
    at = [(y.a[1], y) for y in t.atoms(x) if y.op == 'byte' and y.a[0] is arr]
    offs = [o for o, y in at if isinstance(o, int)]
    if not offs:
        return None
    lo, hi = min(offs), max(offs)
    k = hi - lo + 1
    if k not in (1, 2, 4, 8):
        return None
    w = t.be_word(((arr, lo, k),), k, max(x.w, 8 * k))
    if t.trunc(w, x.w) is x if w.w > x.w else w is x:
        return lo, k
    return None


def learn(prog, p, fn, mt):
    """Observes a signing call on a key whose bytes are all unknown."""
    memo = prog.__dict__.setdefault('_fastlay', {})
    key = (p['n'], p['tree_height'], p['d'])
    if key in memo:
        return memo[key]
    ml = t.sym(64, 'mlen', 0, 2 ** 60)
    hi = (1 << p['full_height']) - 2
    idx = t.mulc(t.sym(64, 'lidx', 0, hi // 2), 2)
    x = FastRun(prog, p, fn, idx, ml)
    L = Layout()
    L.pos, L.bad, L.room = {}, [], {}
    sk = t.asym('sk')
    if x.ev.entry is None:
        raise AnalysisError(f'{fn}: no traversal operation on an ordinary signature')
    for j in range(2 * p['d'] - 1):
        v = x.ev.entry[j]
        for f in bds.fields(p):
            if f[0] in bds.STORE:
                r = byte_at(x.ev.initial[j][f], sk)
                if r is None:
                    L.bad.append((j, f, t.show(x.ev.initial[j][f])))
                else:
                    L.pos[j, f] = r
                    L.room[j, f] = (v.width(f), r[1])
            else:
                k = bds.fsize(p, f)
                q = v.at[f]
                if k == 0:
                    continue
                if q.op == 'ptr' and q.a[0] == 'sk' and q.a[1].op == 'const':
                    L.pos[j, f] = (q.a[1].a, k)
                else:
                    L.bad.append((j, f, t.show(q)))
    memo[key] = L
    return L


def body(p, L):
    """Secret key after the index: unknown bytes, counters of the stored trees in their ranges."""
    ib, n = p['index_bytes'], p['n']
    items = []
    for (j, f), (o, k) in L.pos.items():
        if f == ('next_leaf',) or f == ('stackoffset',):
            items.append((o, k, t.sym(8 * k, f'st{j}.{f[0]}', 0, bds.limits(p, f))))
    items.sort(key=lambda x: x[0])
    out, pos = (), ib
    for o, k, s in items:
        if o < pos or o + k > p['sk_bytes']:
            continue
        if o > pos:
            out += ((t.asym('sk'), pos, o - pos),)
        out += t.be_bytes(s, k)
        pos = o + k
    if pos < p['sk_bytes']:
        out += ((t.asym('sk'), pos, p['sk_bytes'] - pos),)
    return t.norm(out)


def name_of(j, d):
    return f'current tree of layer {j}' if j < d else f'next tree of layer {j - d}'


def layout(R, p, L, f, W):
    """All parts side by side inside the key."""
    n, ib, d = p['n'], p['index_bytes'], p['d']
    for j, fl, sh in L.bad:
        R.fail('state layout', f.loc, f'{W}: {fl[0]} of the {name_of(j, d)} is not loaded from one place of the secret key: {sh[:200]}')
    for (j, fl), (w, k) in L.room.items():
        top = bds.limits(p, fl) - (fl[0] == 'next_idx')
        R.check('state layout', f.loc, top >> (8 * min(w, k)) == 0,
                f'{W}: {" ".join(map(str, fl))} of the {name_of(j, d)} can be as large as {top}, but is kept in {w} and stored in {k} bytes')
    iv = sorted((o, o + k, j, fl) for (j, fl), (o, k) in L.pos.items())
    end, who = ib + 4 * n, 'the index, seeds and root'
    for a, b, j, fl in iv:
        me = f'{" ".join(map(str, fl))} of the {name_of(j, d)}'
        R.check('state layout', f.loc, a >= end, f'{W}: {me} (bytes {a} to {b}) overlaps {who}')
        if b > end:
            end, who = b, me
    R.check('state layout', f.loc, end <= p['sk_bytes'],
            f'{W}: {who} ends at byte {end}, beyond the secret key of {p["sk_bytes"]} bytes')


def slots(p, L, start):
    """Specification copy of the stored state in a key image."""
    out = {}
    for j in range(2 * p['d'] - 1):
        s = out[j] = {}
        for f in bds.fields(p):
            if (j, f) not in L.pos:
                s[f] = () if f[0] not in bds.STORE else const(32, 0)
                continue
            o, k = L.pos[j, f]
            b = t.norm(t.bs_cut(t.bs_cut(start, o)[1], k)[0])
            s[f] = t.be_word(b, k, 8 * k) if f[0] in bds.STORE else b
    return out


def exact_with(L):
    def exact(R, x, f, W, p, idx, msg, ml, guard, smp, rule='exact signature'):
        n, ib, h, d = p['n'], p['index_bytes'], p['tree_height'], p['d']
        seed, kp, root, pub = x.key()
        pos = 0

        def part(k, want, what, ru=rule):
            nonlocal pos
            a = x.c.get('sm', pos, k)
            pos = t.addc(c64(pos), k).a if isinstance(k, int) else None
            if want is not None:
                R.same(ru, f.loc, a, want, f'{W}: {what}', guard, smp)
            return t.norm(a)
        part(ib, t.be_bytes(idx, ib), 'index in the signature')
        r = spec.u_prf(p, kp, t.be_bytes(idx, 32))
        part(n, r, 'randomiser')
        dig = spec.u_hmsg(p, r, root, idx, msg)
        w = spec.tree_words(0, t.zext(t.extract(idx, h, 64 - h), 64))
        leaf = t.zext(t.extract(idx, 0, h), 32)
        part(p['wots_sig_bytes'], spec.u_wotssig(p, dig, seed, pub, w + (C32(0), leaf)), 'one-time signature of layer 0')
        first = not hasattr(L, 'wots')
        if first:
            L.wots = {}
        for l in range(d):
            if l and l in L.wots:
                part(p['wots_sig_bytes'], t.norm(t.bs_cut(t.bs_cut(x.start, L.wots[l])[1], p['wots_sig_bytes'])[0]),
                     f'one-time signature of layer {l}', 'stored signature')
            elif l:
                a = part(p['wots_sig_bytes'], None, '')
                okp = len(a) == 1 and a[0][0] is t.asym('sk') and isinstance(a[0][1], int)
                R.check('stored signature', f.loc, okp,
                        f'{W}: one-time signature of layer {l} is not one stretch of the secret key as it was: {t.show(a)[:300]}')
                if okp:
                    L.wots[l] = a[0][1]
            o, k = L.pos.get((l, ('auth',)), (None, None))
            want = t.bs_cut(t.bs_cut(x.start, o)[1], k)[0] if o is not None else None
            part(n * h, want, f'authentication path of layer {l}', 'stored path')
        part(ml, msg, 'message after the signature')
        # the stored signatures must be clear of everything else
        used = [(o, o + k, f'{" ".join(map(str, fl))} of the {name_of(j, d)}') for (j, fl), (o, k) in L.pos.items()]
        used.append((0, ib + 4 * n, 'the index, seeds and root'))
        for l, o in L.wots.items():
            used.append((o, o + p['wots_sig_bytes'], f'stored signature of layer {l}'))
        used.sort()
        for (a, b, u), (a2, b2, u2) in zip(used, used[1:]):
            R.check('state layout', f.loc, b <= a2, f'{W}: {u2} (from byte {a2}) overlaps {u} (to byte {b})')
        R.check('state layout', f.loc, used[-1][1] <= p['sk_bytes'], f'{W}: {used[-1][2]} ends beyond the secret key')
    return exact


def classes(p):
    """[(boundaries, index term, free symbol values to try)]: how many layers are at the end of their tree."""
    h, H, d = p['tree_height'], p['full_height'], p['d']
    out = []
    for b in range(d):
        hi_bits = H - h * (b + 1)
        lo = t.sym(64, f'lo{b}', 0, (1 << h) - 2)
        hi = t.sym(64, f'hi{b}', 0, (1 << hi_bits) - 1) if hi_bits else None
        parts = [const(64 - h * (b + 1), 0) if hi is None else t.extract(hi, 0, 64 - h * (b + 1)), t.extract(lo, 0, h)]
        if b:
            parts.append(const(h * b, (1 << (h * b)) - 1))
        idx = t.concat(*reversed(parts))
        out.append((b, idx, lo, hi, hi_bits))
    return out


def class_sampler(p, b, lo, hi, bits, ml, k=12):
    h = p['tree_height']
    los = [0, 1, 2, (1 << h) - 2, (1 << h) - 3, (1 << (h - 1)) - 1, 1 << (h - 1)]
    his = sorted({0, 1, (1 << bits) - 1, (1 << bits) - 2, *[(1 << i) for i in range(bits)], *[(1 << i) - 1 for i in range(bits)],
                  *[(1 << bits) - (1 << i) for i in range(bits)], *[max(0, (1 << bits) - 1 - (1 << i)) for i in range(bits)]}) if bits else [0]
    his = [v for v in his if 0 <= v < max(1, 1 << bits)]
    mls = [0, 1, 33, p['sig_bytes'], 2 ** 32 + 3, 1000]
    tp = []
    for i in range(max(len(los), len(his))):
        v = {lo: los[i % len(los)], ml: mls[i % len(mls)]}
        if hi is not None:
            v[hi] = his[i % len(his)]
        tp.append((v, {}))
    return Sampler(tp, k)


def g_fast(name, mt, oid):
    R = Report(f'sign/fast/{name}')
    prog = program('fast')
    p = params_of(prog, mt, oid)
    fn = 'xmssmt_core_sign' if mt else 'xmss_core_sign'
    f = prog.func(fn)
    bds.require(prog, 'bds_round', 'bds_treehash_update', *(['bds_state_update'] if p['d'] > 1 else []))
    W = f'{fn} ({name})'
    ml = t.sym(64, 'mlen', 0, 2 ** 60)
    L = learn(prog, p, fn, mt)
    layout(R, p, L, f, W)
    ex = exact_with(L)
    rest = body(p, L)
    for b, idx, lo, hi, bits in classes(p):
        smp = class_sampler(p, b, lo, hi, bits, ml)
        x = FastRun(prog, p, fn, idx, ml, rest)
        W2 = W + (f', {b} tree boundaries' if b else '')
        if gs.in_range(R, x, f, W2, idx, smp, ml, ex):
            schedule(R, x, f, W2, p, L, b, idx, smp)
    gs.ends(R, prog, p, f, fn, W, ml, FastRun, ex)
    return R


def schedule(R, x, f, W, p, L, b, idx, smp):
    """The operations on the trees, and the state left in the key."""
    n, h, H, d, ib = p['n'], p['tree_height'], p['full_height'], p['d'], p['index_bytes']
    seed, kp, root, pub = x.key()
    ev = {}
    for e in x.bds():
        ev.setdefault(e.args['slot'], []).append(e)
    st = slots(p, L, x.start)
    tree = lambda i: t.zext(t.extract(idx, h * (i + 1), 64 - h * (i + 1)), 64)
    leaf = lambda i: t.zext(t.extract(idx, h * i, h), 64)
    nlev = bds.levels(p)
    keeps = d == 1 or keeps_complete(x.prog_)
    sig = [e for e in x.signs()]

    def op(rule, slot, kind, layer, tr, guard=None, ints=()):
        """Consume the next operation on a tree."""
        q = ev.get(slot, [])
        who = name_of(slot, d)
        while q and q[0].args['kind'] != kind:
            e = q.pop(0)
            R.never(rule, e.loc, e.cond, f'{W}: {e.args["kind"]} on the {who} where {kind} is due', (), smp)
        if not q:
            R.never(rule, f.loc, guard if guard is not None else t.TRUE, f'{W}: {kind} on the {who} is missing', (), smp)
            return None
        e = q.pop(0)
        more = ()
        if kind == 'bds_state_update':
            # on a tree that has all its leaves it may be done or not, if it then changes nothing
            nl = e.args['before']['next_leaf',]
            full = t.eq(nl, const(nl.w, 1 << h))
            more = (t.bnot(full),)
            if not keeps:
                R.never(rule, e.loc, t.band(e.cond, full), f'{W}: {kind} on the {who} with all its leaves done', (), smp)
        R.same(rule, e.loc, e.cond, guard if guard is not None else t.TRUE, f'{W}: when {kind} is done on the {who}', more, smp)
        g = tuple(e.guard)
        R.same(rule, e.loc, e.args['seed'], seed, f'{W}: secret seed given to {kind}', g, smp)
        R.same(rule, e.loc, e.args['pub'], pub, f'{W}: public seed given to {kind}', g, smp)
        for a, w, what in zip(e.args['w'], spec.tree_words(layer, tr), ('layer', 'tree (high word)', 'tree (low word)')):
            R.same(rule, e.loc, a, w, f'{W}: {what} under which {kind} works on the {who}', g, smp)
        for a, w in zip(e.args['ints'], ints):
            if w is not None:
                R.same(rule, e.loc, a, w if w.w == a.w else t.zext(w, a.w) if w.w < a.w else t.trunc(w, a.w),
                       f'{W}: number given to {kind} on the {who}', g, smp)
        for fl in bds.fields(p):
            store(st[slot], fl, e.args['after'][fl], e.cond)
        return e

    def store(s, fl, v, c):
        if fl[0] in bds.STORE:
            v = t.trunc(v, s[fl].w) if v.w > s[fl].w else v
            s[fl] = t.ite(c, v, s[fl])
        elif s[fl]:
            s[fl] = t.norm(t.bs_ite(c, tuple(v), tuple(s[fl])))
    budget = C32(nlev >> 1)
    exists = lambda i: t.ult(t.addc(tree(i), 1), c64(1 << (H - h * (i + 1))))
    wsig = {l: t.norm(t.bs_cut(t.bs_cut(x.start, o)[1], p['wots_sig_bytes'])[0]) for l, o in getattr(L, 'wots', {}).items()}
    if d > 1:
        op('next tree steps', d, 'bds_state_update', 0, t.addc(tree(0), 1), exists(0))
    # the message signature comes first in the list of one-time signatures; the others sign roots
    rsig = [e for e in sig if not (len(e.args['w']) and e.args['w'][0] is C32(0))]
    wrapped = False
    for i in range(d):
        if i < b:
            st[i], st[d + i] = st[d + i], st[i]
            nxt = t.addc(idx, 1)
            w = spec.tree_words(i + 1, t.lshrc(nxt, (i + 2) * h) if (i + 2) * h < 64 else c64(0))
            lf = t.zext(t.extract(t.lshrc(nxt, (i + 1) * h), 0, h), 32)
            rt = t.bs_cut(st[i]['stack',], n)[0]
            e = rsig.pop(0) if rsig else None
            if e is None:
                R.fail('root signed', f.loc, f'{W}: the root of the new tree of layer {i} is not signed')
            else:
                R.holds('root signed', e.loc, e.cond, f'{W}: when the root of the new tree of layer {i} is signed', (), smp)
                R.same('root signed', e.loc, e.args['msg'], rt, f'{W}: what is signed as root of the new tree of layer {i}', (), smp)
                R.same('root signed', e.loc, e.args['seed'], seed, f'{W}: secret seed for signing the root of layer {i}', (), smp)
                R.same('root signed', e.loc, e.args['pub'], pub, f'{W}: public seed for signing the root of layer {i}', (), smp)
                for a, v, what in zip(e.args['w'], w + (C32(0), lf), ('layer', 'tree (high word)', 'tree (low word)', 'type', 'leaf')):
                    R.same('root signed', e.loc, a, v, f'{W}: {what} under which the root of the new tree of layer {i} is signed', (), smp)
                wsig[i + 1] = spec.u_wotssig(p, rt, seed, pub, w + (C32(0), lf))
            st[d + i]['stackoffset',] = C32(0)
            st[d + i]['next_leaf',] = C32(0)
            for k in range(nlev):
                st[i]['completed', k] = const(8, 1)
            if budget.op == 'const' and budget.a == 0:
                wrapped = True           # more is done than the schedule asks for
            budget = t.addc(budget, (1 << 32) - 1)
            continue
        if i == b:
            op('current tree steps', i, 'bds_round', i, tree(i), None, (leaf(i),))
        e = op('current tree steps', i, 'bds_treehash_update', i, tree(i), None, (None if wrapped else budget,))
        if e is not None:
            r = e.args['ret']
            r = t.sext(r, 32) if r.w < 32 else t.trunc(r, 32)
            budget = t.sub(budget, r) if bds.returns_used(x.prog_) else r
        if i > 0 and i < d - 1:
            nl = st[d + i]['next_leaf',]
            # a tree that has all its leaves costs nothing, or the layers above never get their share
            g = t.band(exists(i), t.bnot(t.eq(budget, C32(0))), t.bnot(t.eq(nl, const(nl.w, 1 << h))))
            op('next tree steps', d + i, 'bds_state_update', i, t.addc(tree(i), 1), g)
            budget = t.ite(g, t.addc(budget, (1 << 32) - 1), budget)
    for slot, q in ev.items():
        for e in q:
            R.never('current tree steps' if slot < d else 'next tree steps', e.loc, e.cond,
                    f'{W}: {e.args["kind"]} on the {name_of(slot, d)} is not due', (), smp)
    for e in rsig:
        R.never('root signed', e.loc, e.cond, f'{W}: a one-time signature above layer 0 is not due', (), smp)
    # what is left in the key
    end = x.sk()
    for j in range(2 * d - 1):
        for fl in bds.fields(p):
            if (j, fl) not in L.pos:
                continue
            o, k = L.pos[j, fl]
            if o + k > p['sk_bytes']:
                continue
            got = t.norm(t.bs_cut(t.bs_cut(end, o)[1], k)[0])
            v = st[j][fl]
            want = t.be_bytes(v if v.w >= 8 * k else t.zext(v, 8 * k), k) if fl[0] in bds.STORE else v
            moved = j < b or d <= j < d + b
            R.same('promotion' if moved else 'state stored', f.loc, got, want,
                   f'{W}: {" ".join(map(str, fl))} of the {name_of(j, d)} in the key after the call', (), smp)
    for l, o in getattr(L, 'wots', {}).items():
        got = t.norm(t.bs_cut(t.bs_cut(end, o)[1], p['wots_sig_bytes'])[0])
        R.same('root signed' if l <= b else 'state stored', f.loc, got, wsig.get(l, got),
               f'{W}: stored one-time signature of layer {l} after the call', (), smp)


def never_complete(R, prog, mt_oids=(1, 2, 4)):
    """Callers of a growth step that does not check itself whether the tree has all its leaves."""
    fn = 'xmssmt_core_sign'
    f = prog.func(fn)
    for oid in mt_oids:
        p = params_of(prog, True, oid)
        ml = t.sym(64, 'mlen', 0, 2 ** 60)
        L = learn(prog, p, fn, True)
        for b, idx, lo, hi, bits in classes(p):
            x = FastRun(prog, p, fn, idx, ml, body(p, L))
            smp = class_sampler(p, b, lo, hi, bits, ml)
            for e in x.bds():
                if e.args['kind'] == 'bds_state_update':
                    nl = e.args['before']['next_leaf',]
                    R.never('next tree growth', e.loc, t.band(e.cond, t.eq(nl, const(nl.w, 1 << p['tree_height']))),
                            f'{fn} (parameter set {oid}), {b} tree boundaries: a leaf is added to the '
                            f'{name_of(e.args["slot"], p["d"])}, which has all its leaves', (), smp)
