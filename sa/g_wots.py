"""Groups: WOTS+ key generation, signing, recovery; leaf computation."""
from . import term as t, spec
from .term import const, c64
from .ir import program
from .models import Ctx, pick
from .report import Report, Sampler
from .g_basic import params_of, FIELDS, fresh
from .confine import confined, settled


def wots_params(n, w, base):
    lw = w.bit_length() - 1
    l1 = 8 * n // lw
    l2 = ((l1 * (w - 1)).bit_length() - 1) // lw + 1
    return dict(base, n=n, wots_w=w, wots_log_w=lw, wots_len1=l1, wots_len2=l2, wots_len=l1 + l2,
                wots_sig_bytes=(l1 + l2) * n)


def digits(p, msg):
    """Base-w digits (terms of 32 bits) of the message and of its checksum; msg: array of n bytes."""
    lw = p['wots_log_w']
    per = 8 // lw
    ds = []
    for i in range(p['wots_len1']):
        b = t.byte(msg, i // per)
        sh = 8 - lw * (i % per + 1)
        ds.append(t.zext(t.extract(b, sh, lw), 32))
    cs = const(32, 0)
    for d in ds:
        cs = t.add(cs, t.sub(const(32, p['wots_w'] - 1), d))
    tot = p['wots_len2'] * lw
    for i in range(p['wots_len2']):
        ds.append(t.zext(t.extract(cs, tot - lw * (i + 1), lw), 32))
    return ds


def nest(conds, vals):
    """vals[0] unless conds[0], then vals[1] unless conds[1], ..."""
    r = vals[-1]
    for c, v in zip(reversed(conds), reversed(vals[:-1])):
        r = t.bs_ite(c, r, v)
    return r


def sk_chain(p, seed, pub, w4, i):
    a = spec.addr_bytes(tuple(w4) + (spec.c32(i), spec.c32(0), spec.c32(0)))
    return spec.u_prfkg(p, seed, tuple(pub) + a)


def chains(p, starts, ds, pub, w4, mode):
    out = ()
    W = p['wots_w']
    for i, x in enumerate(starts):
        d = ds[i] if ds else None
        vals, conds = [x], []
        for j in range(W - 1):
            if mode == 'pk':
                w6 = spec.c32(j)
            elif mode == 'sign':
                w6 = spec.c32(j)
                conds.append(t.ult(spec.c32(j), d))
            else:
                w6 = t.addc(d, j)
                conds.append(t.ult(t.addc(d, j), spec.c32(W - 1)))
            vals.append(spec.u_F(p, vals[-1], pub, tuple(w4) + (spec.c32(i), w6)))
        out += tuple(vals[-1]) if mode == 'pk' else tuple(nest(conds, vals))
    return out


def msgs(p):
    """Messages that drive the checksum to its extremes and through its carries."""
    n = p['n']
    lw = p['wots_log_w']
    out = [lambda k: 0, lambda k: 255]
    for b in [17 * i for i in range(1, 15)] + [1, 0x0f, 0x10, 0x80, 0x7f, 0xf0, 0x0e]:
        out.append(lambda k, b=b: b)
    for m in range(0, n, max(1, n // 8)):
        out.append(lambda k, m=m: 255 if k < m else 0)
        out.append(lambda k, m=m: 0 if k < m else 255)
        out.append(lambda k, m=m: (k * 37 + m) & 255)
    out.append(lambda k: 1 if k == n - 1 else 0)
    out.append(lambda k: 255 if k == 0 else 0)
    return Sampler([({}, {'msg': f}) for f in out], 30)


def g_wots(n, w, variant='ref'):
    R = Report(f'wots/{n},{w}')
    prog = program(variant)
    base = next(p for k, p in spec.combos().items() if k[0] == n)
    p = wots_params(n, w, base)
    name = f'n={n}, w={w}'
    L = p['wots_len']
    a = [t.sym(32, f'a{i}') for i in range(8)]
    w4 = tuple(a[:5])
    seed, pub = ((t.asym('seed'), 0, n),), ((t.asym('pub'), 0, n),)
    mk = lambda: Ctx(prog, p, pick('prf_keygen', 'thash_f'))
    tail = 8

    def done(c, fn, ret, out, size, want, what, smp=None):
        f = prog.func(fn)
        R.use(c.m)
        if out is None:
            R.fail(what, f.loc, f'{fn} does not return ({name})')
            return
        R.safe('one-time signature accesses', c.m)
        if 'seed' in c.m.regions:
            confined(R, c.m, out, f.loc, f'{fn} ({name})', {'seed': [(0, n)]}, smp, ('seed',))
        settled(R, c.m, out, f.loc, f'{fn} ({name})', smp)
        got = c.get('out', 0, size)
        want = t.norm(want)
        for i in range(L):
            x, got = t.bs_cut(got, n)
            y, want = t.bs_cut(want, n)
            R.same(what, f.loc, x, y, f'{fn} ({name}), chain {i}', (), smp)
        R.same('output length', f.loc, c.get('out', size, tail), ((t.asym('out'), size, tail),),
               f'{fn} ({name}): bytes after the output')
        R.same('address kept', f.loc, c.get('addr', 0, 20), tuple((x, 0, 4) for x in w4),
               f'{fn} ({name}): address words 0-4 afterwards')
    size = p['wots_sig_bytes']
    starts = [sk_chain(p, seed, pub, w4, i) for i in range(L)]
    c = mk()
    c.addr('addr', a), c.buf('seed', n, ro=True), c.buf('pub', n, ro=True), c.buf('out', size + tail)
    ret, out = c.call('wots_pkgen', [c.p, t.ptr('out', 0), t.ptr('seed', 0), t.ptr('pub', 0), t.ptr('addr', 0)])
    done(c, 'wots_pkgen', ret, out, size, chains(p, starts, None, pub, w4, 'pk'), 'one-time public key')
    ds = digits(p, t.asym('msg'))
    smp = msgs(p)
    if w == 256 and L > 0:
        # chains of up to 255 links: every digit class by a fixed message instead of a gated one
        for k, (vals, arrs) in enumerate(smp.templates[:4]):
            m = [arrs['msg'](i) & 255 for i in range(n)]
            dd = m + [0] * p['wots_len2']
            cs = sum(255 - x for x in m)
            for i in range(p['wots_len2']):
                dd[p['wots_len1'] + i] = (cs >> (8 * (p['wots_len2'] - 1 - i))) & 255
            fixed(R, prog, p, name, mk, bytes(m), dd, a, w4, seed, pub, size, tail)
        return R
    c = mk()
    c.addr('addr', a), c.buf('seed', n, ro=True), c.buf('pub', n, ro=True), c.buf('out', size + tail)
    c.buf('msg', n, ro=True)
    ret, out = c.call('wots_sign', [c.p, t.ptr('out', 0), t.ptr('msg', 0), t.ptr('seed', 0), t.ptr('pub', 0),
                                    t.ptr('addr', 0)])
    done(c, 'wots_sign', ret, out, size, chains(p, starts, ds, pub, w4, 'sign'), 'one-time signature', smp)
    c = mk()
    c.addr('addr', a), c.buf('pub', n, ro=True), c.buf('out', size + tail)
    c.buf('msg', n, ro=True), c.buf('sig', size, ro=True)
    ret, out = c.call('wots_pk_from_sig', [c.p, t.ptr('out', 0), t.ptr('sig', 0), t.ptr('msg', 0), t.ptr('pub', 0),
                                           t.ptr('addr', 0)])
    st = [((t.asym('sig'), i * n, n),) for i in range(L)]
    done(c, 'wots_pk_from_sig', ret, out, size, chains(p, st, ds, pub, w4, 'rec'), 'recovered public key', smp)
    return R


def fixed(R, prog, p, name, mk, m, dd, a, w4, seed, pub, size, tail):
    n, L, W = p['n'], p['wots_len'], p['wots_w']
    for fn in ('wots_sign', 'wots_pk_from_sig'):
        c = mk()
        c.addr('addr', a), c.buf('seed', n, ro=True), c.buf('pub', n, ro=True), c.buf('out', size + tail)
        c.buf('msg', n, t.lit(m), ro=True), c.buf('sig', size, ro=True)
        if fn == 'wots_sign':
            ret, out = c.call(fn, [c.p, t.ptr('out', 0), t.ptr('msg', 0), t.ptr('seed', 0), t.ptr('pub', 0), t.ptr('addr', 0)])
        else:
            ret, out = c.call(fn, [c.p, t.ptr('out', 0), t.ptr('sig', 0), t.ptr('msg', 0), t.ptr('pub', 0), t.ptr('addr', 0)])
        f = prog.func(fn)
        R.use(c.m)
        if out is None:
            R.fail('one-time signature', f.loc, f'{fn} does not return ({name})')
            continue
        R.safe('one-time signature accesses', c.m)
        confined(R, c.m, out, f.loc, f'{fn} ({name})', {'seed': [(0, n)]}, None, ('seed',))
        settled(R, c.m, out, f.loc, f'{fn} ({name})')
        for i in range(L):
            if fn == 'wots_sign':
                x = sk_chain(p, seed, pub, w4, i)
                rg = range(0, dd[i])
            else:
                x = ((t.asym('sig'), i * n, n),)
                rg = range(dd[i], W - 1)
            for j in rg:
                x = spec.u_F(p, x, pub, tuple(w4) + (spec.c32(i), spec.c32(j)))
            R.same('one-time signature' if fn == 'wots_sign' else 'recovered public key', f.loc,
                   c.get('out', i * n, n), x, f'{fn} ({name}), chain {i}, message {m[:4].hex()}..')


def g_wots_params():
    """Derived Winternitz parameters for every supported w and n."""
    R = Report('wots/params')
    prog = program('ref')
    f = prog.func('xmss_xmssmt_initialize_params')
    base = next(iter(spec.combos().values()))
    for n in (24, 32, 64):
        for w in (4, 16, 256):
            p = wots_params(n, w, base)
            c = fresh(prog, dict(func=0, n=n, padding_len=p['padding_len'], wots_w=w, full_height=10, d=1, bds_k=0))
            ret, out = c.call('xmss_xmssmt_initialize_params', [t.ptr('params', 0)])
            R.use(c.m)
            if out is None:
                R.fail('derived parameter', f.loc, f'does not return for w={w}')
                continue
            for k in ('wots_log_w', 'wots_len1', 'wots_len2', 'wots_len', 'wots_sig_bytes'):
                o, s = c.m.layout[k]
                v = t.word_of(c.get('params', o, s), s)
                R.same('derived parameter', f.loc, v, const(v.w, p[k]), f'n={n}, w={w}: {k}')
    return R


def g_leaf(n, variant='ref'):
    R = Report(f'leaf/{n}')
    prog = program(variant)
    p = next(p for k, p in spec.combos().items() if k[0] == n)
    f = prog.func('gen_leaf_wots')
    c = Ctx(prog, p, pick('wots_pkgen', 'thash_h'))
    lw = [t.sym(32, f'l{i}') for i in range(8)]
    ow = [t.sym(32, f'o{i}') for i in range(8)]
    c.addr('lt', lw), c.addr('ots', ow)
    c.buf('seed', n, ro=True), c.buf('pub', n, ro=True), c.buf('leaf', n + 8)
    ret, out = c.call('gen_leaf_wots', [c.p, t.ptr('leaf', 0), t.ptr('seed', 0), t.ptr('pub', 0), t.ptr('lt', 0),
                                        t.ptr('ots', 0)])
    R.use(c.m)
    if out is None:
        R.fail('leaf', f.loc, 'gen_leaf_wots does not return')
        return R
    R.safe('leaf accesses', c.m)
    confined(R, c.m, out, f.loc, f'gen_leaf_wots (n={n})', {'seed': [(0, n)]}, None, ('seed',))
    settled(R, c.m, out, f.loc, f'gen_leaf_wots (n={n})')
    seed, pub = ((t.asym('seed'), 0, n),), ((t.asym('pub'), 0, n),)
    pk = spec.u_wotspk(p, seed, pub, ow)
    parts = []
    rest = pk
    for i in range(p['wots_len']):
        x, rest = t.bs_cut(rest, n)
        parts.append(tuple(x))
    want = spec.l_tree(p, parts, pub, lw[:5])
    R.same('leaf', f.loc, c.get('leaf', 0, n), want, f'leaf (n={n})')
    R.same('output length', f.loc, c.get('leaf', n, 8), ((t.asym('leaf'), n, 8),), 'bytes after the leaf')
    R.same('address kept', f.loc, c.get('lt', 0, 20), tuple((x, 0, 4) for x in lw[:5]), 'L-tree address words 0-4')
    R.same('address kept', f.loc, c.get('ots', 0, 20), tuple((x, 0, 4) for x in ow[:5]), 'OTS address words 0-4')
    return R
