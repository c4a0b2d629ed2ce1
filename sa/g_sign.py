"""Groups: signing with the compact implementation (index handling, exhaustion, last signature, exact output)."""
from . import term as t, spec, trees
from .term import const, c64
from .ir import program
from .models import Ctx, pick
from .report import Report, Sampler
from .g_basic import params_of
from .confine import confined, settled

C32 = spec.c32


def spec_sig(p, key, idx, msg, mlen):
    """The RFC's signature for index idx (64-bit term); key: (seed, prf key, root, public seed)."""
    n, ib, h = p['n'], p['index_bytes'], p['tree_height']
    seed, kp, root, pub = key
    out = t.be_bytes(idx, ib)
    r = spec.u_prf(p, kp, t.be_bytes(idx, 32))
    out = out + r
    node = spec.u_hmsg(p, r, root, idx, msg)
    rest = idx
    for layer in range(p['d']):
        leaf = t.zext(t.extract(rest, 0, h), 32)
        rest = t.zext(t.extract(rest, h, 64 - h), 64)
        w = spec.tree_words(layer, rest)
        out = out + spec.u_wotssig(p, node, seed, pub, w + (C32(0), leaf))
        out = out + trees.u_path(p, seed, pub, w, leaf)
        node = trees.u_root(p, seed, pub, w)
    return out + tuple(msg)


class Run:
    """One abstract run of the signer; idx: 64-bit term, rest: bytes after the index."""

    def __init__(self, prog, p, fn, idx, ml, rest=None):
        n, ib = p['n'], p['index_bytes']
        self.p = p
        c = self.c = Ctx(prog, p, self.models())
        skb = p['sk_bytes']
        body = rest if rest is not None else ((t.asym('sk'), ib, skb - ib),)
        self.body = body
        self.start = t.norm(t.be_bytes(idx, ib) + tuple(body))
        c.buf('sk', skb, self.start, desc='the secret key')
        c.buf('sm', t.addc(ml, p['sig_bytes']), desc='the signature buffer')
        c.buf('smlen', 8, desc='the signature length')
        c.buf('m', ml, ro=True, desc='the message')
        c.m.regions['sk'].watch = True
        c.m.regions['sm'].watch = True
        c.m.opaque_fn = self.hook()
        c.m.on_event = None
        self.snaps = {}
        ev0 = c.m.event

        def event(kind, name, args, st):
            e = ev0(kind, name, args, st)
            if name == 'wots_sign':
                self.snaps[e.seq] = t.norm(c.m.content(st, 'sk').read(0, ib, 'sk'))
            return e
        c.m.event = event
        self.ret, self.out = c.call(fn, [c.p, t.ptr('sk', 0), t.ptr('sm', 0), t.ptr('smlen', 0), t.ptr('m', 0), ml])
        self.m = c.m

    def models(self):
        return pick('wots_sign', 'prf', 'hash_message', 'randombytes', 'thash_h', 'gen_leaf_wots')

    def hook(self):
        return trees.hook(self.p)

    def signs(self):
        return [e for e in self.m.events if e.name == 'wots_sign']

    def sk(self):
        return self.c.get('sk', 0, self.p['sk_bytes'])

    def key(self, body=None):
        b, out = body or self.body, []
        for i in range(4):
            x, b = t.bs_cut(b, self.p['n'])
            out.append(tuple(x))
        return out


def secret(R, x, f, W, smp):
    ib, n = x.p['index_bytes'], x.p['n']
    confined(R, x.m, x.out, f.loc, W, {'sk': [(ib, ib + 2 * n)]}, smp, ret=x.ret)
    settled(R, x.m, x.out, f.loc, W, smp, ret=x.ret)


def idx_templates(p, idx, lo, hi):
    """Index values at which arithmetic may go wrong: ends, and all carries."""
    h, hh = p['tree_height'], p['full_height']
    vs = {lo, hi, (lo + hi) // 2}
    for k in range(0, 64):
        for v in ((1 << k) - 1, 1 << k, (1 << k) + 1, (1 << hh) - (1 << k), (1 << hh) - 1 - (1 << k)):
            if lo <= v <= hi:
                vs.add(v)
    for i in range(1, p['d']):
        for v in ((1 << h * i) - 2, (3 << h * i) - 1, (5 << h * i)):
            if lo <= v <= hi:
                vs.add(v)
    return sorted(vs)


def sampler(p, idx, lo, hi, ml, arrs=None, k=16):
    mls = [0, 1, 32, 33, p['sig_bytes'], 2 ** 32 + 3, 2 ** 60, 1000]
    if idx.op == 'const':
        return Sampler([({ml: v}, dict(arrs or {})) for v in mls], k)
    tp = [({idx: v, ml: mls[i % len(mls)]}, dict(arrs or {})) for i, v in enumerate(idx_templates(p, idx, lo, hi))]
    return Sampler(tp, k)


def g_sign(name, mt, oid, variant='ref', runner=Run, prefix=None):
    R = Report(f'sign/{variant}/{name}')
    prog = program(variant)
    p = params_of(prog, mt, oid)
    fn = 'xmssmt_core_sign' if mt else 'xmss_core_sign'
    f = prog.func(fn)
    W = f'{fn} ({name})'
    ml = t.sym(64, 'mlen', 0, 2 ** 60)
    top = (1 << p['full_height']) - 1
    idx = t.sym(64, 'idx', 0, top - 1)
    in_range(R, runner(prog, p, fn, idx, ml), f, W, idx, sampler(p, idx, 0, top - 1, ml), ml, exact)
    ends(R, prog, p, f, fn, W, ml, runner, exact)
    return R


def in_range(R, x, f, W, idx, smp, ml, exact):
    """An index before the last one."""
    p = x.p
    ib = p['index_bytes']
    R.use(x.m)
    if x.out is None:
        R.fail('index in range signs', f.loc, f'{W}: does not return')
        return False
    R.safe('signing accesses', x.m, smp)
    R.same('index in range signs', f.loc, x.ret, const(32, 0), f'{W}: result for an index in range', (), smp)
    R.check('index in range signs', f.loc, bool(x.signs()), f'{W}: no one-time signature is made')
    nxt = t.be_bytes(t.addc(idx, 1), ib)
    msg = ((t.asym('m'), 0, ml),)
    R.same('signature index', f.loc, x.c.get('sm', 0, ib), t.be_bytes(idx, ib), f'{W}: index in the signature', (), smp)
    R.same('signature length', f.loc, t.word_of(x.c.get('smlen', 0, 8), 8), t.addc(ml, p['sig_bytes']),
           f'{W}: reported length', (), smp)
    exact(R, x, f, W, p, idx, msg, ml, (), smp)
    R.same('index advanced', f.loc, t.norm(t.bs_cut(x.sk(), ib)[0]), nxt, f'{W}: index left in the secret key', (), smp)
    fixed(R, x, f, W, p, smp)
    secret(R, x, f, W, smp)
    for e in x.signs():
        R.same('advanced before signing', e.loc, x.snaps[e.seq], nxt,
               f'{W}: index in the key when {e.fn} makes a one-time signature', tuple(e.guard), smp)
    writes_after(R, x, W, ib, nxt, smp)
    return True


def ends(R, prog, p, f, fn, W, ml, runner, exact):
    """The last index, larger ones, and a deleted key."""
    n, ib, hh = p['n'], p['index_bytes'], p['full_height']
    top, big = (1 << hh) - 1, (1 << 8 * ib) - 1
    ones = t.norm(((255, 0, ib),))
    msg = ((t.asym('m'), 0, ml),)
    if hh < 64:
        last = c64(top)
        live = alive(p)
        arrs = [{}, {'sk': lambda k: 0x80 if k == ib else 0}, {'sk': lambda k: 1 if k == ib + 4 * n - 1 else 0},
                {'sk': lambda k: 1 if k == ib + 2 * n else 0}]
        smp2 = Sampler([({ml: v}, a) for v in (0, 77) for a in arrs], 12)
        x = runner(prog, p, fn, last, ml)
        R.use(x.m)
        if x.out is None:
            R.fail('last signature', f.loc, f'{W}: does not return for the last index')
        else:
            g = (live,)
            R.safe('signing accesses', x.m, smp2)
            R.same('last index signs', f.loc, x.ret, const(32, 0), f'{W}: result for the last index', g, smp2)
            exact(R, x, f, W, p, last, msg, ml, g, smp2, 'last signature')
            R.same('last signature', f.loc, t.word_of(x.c.get('smlen', 0, 8), 8), t.addc(ml, p['sig_bytes']),
                   f'{W}: length of the last signature', g, smp2)
            secret(R, x, f, f'{W}, last index', smp2)
            after = x.sk()
            aidx, arest = t.bs_cut(after, ib)
            R.same('key destroyed', f.loc, arest, ((0, 0, p['sk_bytes'] - ib),),
                   f'{W}: secret key after the last signature (beyond the index)', (), smp2)
            R.same('key destroyed', f.loc, aidx, ones, f'{W}: index after the last signature', (), smp2)
            for e in x.signs():
                # the index must already be one that no later call signs with: beyond the last, or all ones
                w = t.be_word(x.snaps[e.seq], ib, 64)
                okv = t.bor(t.ult(last, w), t.eq(w, c64(big)))
                R.holds('advanced before signing', e.loc, okv,
                        f'{W}: the key is not yet used up when {e.fn} makes the last one-time signature', tuple(e.guard), smp2)
    cases = []
    if hh < 8 * ib:
        cases.append(('a larger index', t.sym(64, 'bigidx', top + 1, big), None))
    if hh < 64:
        cases.append(('a deleted key', c64(big), ((0, 0, p['sk_bytes'] - ib),)))
    for what, ix, rest in cases:
        x = runner(prog, p, fn, ix, ml, rest)
        R.use(x.m)
        if x.out is None:
            R.fail('exhausted key refused', f.loc, f'{W}: does not return for {what}')
            continue
        smp3 = sampler(p, ix, top + 1, big, ml)
        R.safe('signing accesses', x.m, smp3)
        R.never('exhausted key refused', f.loc, t.eq(x.ret, const(32, 0)), f'{W}: returns success for {what}', (), smp3)
        for e in x.signs():
            R.never('exhausted key refused', e.loc, e.cond, f'{W}: makes a one-time signature with {what}', (), smp3)
        secret(R, x, f, f'{W}, {what}', smp3)
        R.same('exhausted key wiped', f.loc, x.sk(), ((255, 0, ib), (0, 0, p['sk_bytes'] - ib)),
               f'{W}: secret key after refusing {what}', (), smp3)


def alive(p):
    """The four key parts are not all zero."""
    return t.bor(*[t.bnot(t.eq(t.byte(t.asym('sk'), p['index_bytes'] + i), const(8, 0))) for i in range(4 * p['n'])])


def exact(R, x, f, W, p, idx, msg, ml, guard, smp, rule='exact signature'):
    want = t.norm(spec_sig(p, x.key(), idx, msg, ml))
    n, ib = p['n'], p['index_bytes']
    parts = [('index in the signature', ib), ('randomiser', n)]
    for l in range(p['d']):
        parts.append((f'one-time signature of layer {l}', p['wots_sig_bytes']))
        parts.append((f'authentication path of layer {l}', n * p['tree_height']))
    pos = 0
    for what, k in parts:
        b, want = t.bs_cut(want, k)
        R.same(rule, f.loc, x.c.get('sm', pos, k), b, f'{W}: {what}', guard, smp)
        pos += k
    R.same(rule, f.loc, x.c.get('sm', pos, ml), want, f'{W}: message after the signature', guard, smp)


def fixed(R, x, f, W, p, smp):
    """Everything but the index (and the stored tree state) stays as it was."""
    n, ib = p['n'], p['index_bytes']
    a = t.bs_cut(t.bs_cut(x.sk(), ib)[1], 4 * n)[0]
    b = t.bs_cut(x.body, 4 * n)[0]
    R.same('key parts kept', f.loc, a, b, f'{W}: seeds and root in the secret key after signing', (), smp)
    if p['sk_bytes'] == ib + 4 * n:
        return


def writes_after(R, x, W, ib, nxt, smp):
    """No later write to the index field puts anything but the advanced index there."""
    first = min([e.seq for e in x.signs()], default=None)
    if first is None:
        return
    for mode, rid, off, k, g, where, seq in x.m.watch_log:
        if mode != 'w' or rid != 'sk' or seq <= first:
            continue
        R.holds('never undone', where, t.bnot(t.ult(off, c64(ib))),
                f'{W}: writes to the index field of the key after a one-time signature', tuple(g), smp)
