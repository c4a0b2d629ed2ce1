"""Groups: signature verification (acceptance, delivery of the message, memory)."""
from . import term as t, spec
from .term import const, c64
from .ir import program
from .models import Ctx, pick
from .report import Report, Sampler
from .g_basic import params_of
from .confine import settled

C32 = spec.c32
NOTE = {}


def combos():
    """[(name, mt, oid)]: one registered identifier per (n, h, d), hash families rotating."""
    out, seen = [], {}
    for mt, tab in ((False, spec.XMSS_T), (True, spec.XMSSMT_T)):
        for o, (nm, p) in tab.items():
            seen.setdefault((p['n'], p['full_height'], p['d']), []).append((nm, mt, o))
    for i, (k, v) in enumerate(seen.items()):
        out.append(v[i % len(v)])
    return out


def everyset():
    return [(nm, mt, o) for mt, tab in ((False, spec.XMSS_T), (True, spec.XMSSMT_T)) for o, (nm, p) in tab.items()]


def compute_root(p, leaf, leafidx, path, seed, w):
    """RFC 8391 algorithm 13, second half: leaf to root along the authentication path (list of n-byte strings)."""
    node = leaf
    for k in range(p['tree_height']):
        bit = t.extract(leafidx, k, 1)
        kids = t.bs_ite(t.eq(bit, const(1, 1)), tuple(path[k]) + tuple(node), tuple(node) + tuple(path[k]))
        node = spec.u_H(p, t.norm(kids), seed, tuple(w[:3]) + (C32(2), C32(0), C32(k), t.zext(t.extract(leafidx, k + 1, 31 - k), 32)))
    return node


def spec_root(p, sm, pk, mlen):
    """The root the RFC's verification recomputes; sm, pk: arrays."""
    n, ib, h = p['n'], p['index_bytes'], p['tree_height']
    S = lambda o, k: ((sm, o, k),)
    idx = t.be_word(S(0, ib), ib, 64)
    node = spec.u_hmsg(p, S(ib, n), ((pk, 0, n),), idx, S(p['sig_bytes'], mlen))
    seed = ((pk, n, n),)
    pos = ib + n
    for layer in range(p['d']):
        leaf = t.zext(t.extract(idx, 0, h), 32)
        idx = t.zext(t.extract(idx, h, 64 - h), 64)
        tw = spec.tree_words(layer, idx)
        rec = spec.u_wotsrec(p, S(pos, p['wots_sig_bytes']), node, seed, tw + (C32(0), leaf))
        pos += p['wots_sig_bytes']
        parts, rest = [], rec
        for i in range(p['wots_len']):
            x, rest = t.bs_cut(rest, n)
            parts.append(tuple(x))
        lf = spec.l_tree(p, parts, seed, tw + (C32(1), leaf))
        path = [S(pos + k * n, n) for k in range(h)]
        node = compute_root(p, lf, leaf, path, seed, tw)
        pos += h * n
    return node


def g_verify(name, mt, oid, variant='ref'):
    R = Report(f'verify/{name}')
    prog = program(variant)
    p = params_of(prog, mt, oid)
    fn = 'xmssmt_core_sign_open' if mt else 'xmss_core_sign_open'
    f = prog.func(fn)
    n, sb = p['n'], p['sig_bytes']
    W = f'{fn} ({name})'

    def run(smlen):
        c = Ctx(prog, p, pick('wots_pk_from_sig', 'thash_h', 'hash_message'))
        size = smlen
        c.buf('sm', size, ro=True, desc='the signed message')
        c.buf('m', size, desc='the output buffer')
        c.buf('pk', 2 * n, ro=True, desc='the public key')
        c.buf('mlen', 8, desc='the output length')
        ret, out = c.call(fn, [c.p, t.ptr('m', 0), t.ptr('mlen', 0), t.ptr('sm', 0), smlen, t.ptr('pk', 0)])
        R.use(c.m)
        return c, ret, out
    # shorter than a signature
    x = t.sym(64, 'smlen', 0, sb - 1)
    smp = Sampler([({x: v}, {}) for v in (0, 1, 3, p['index_bytes'], sb // 2, sb - 1)], 12)
    c, ret, out = run(x)
    if out is None:
        R.fail('short input', f.loc, f'{W}: does not return for an input shorter than a signature')
    else:
        R.safe('verification accesses', c.m, smp)
        settled(R, c.m, out, f.loc, W, smp, (), ret)
        R.never('short input', f.loc, t.eq(ret, const(32, 0)), f'{W}: accepts an input shorter than a signature', (), smp)
        R.same('short input', f.loc, t.word_of(c.get('mlen', 0, 8), 8), c64(0),
               f'{W}: message length reported for an input shorter than a signature', (), smp)
    # at least a signature
    ml = t.sym(64, 'mlen', 0, 2 ** 60)
    c, ret, out = run(t.addc(ml, sb))
    sm, pk = t.asym('sm'), t.asym('pk')
    root = spec_root(p, sm, pk, ml)
    same = [t.eq(t.src_byte(root[0][0], i), t.byte(pk, i)) for i in range(n)]
    acc = t.band(*same)
    ra = root[0][0]
    tpl = []
    mls = [0, 1, 32, sb - 1, sb, sb + 1, 3 * sb, 2 ** 32 + 3, 2 ** 60]
    bit = lambda k: (k * 29 + 7) & 255
    for i in range(len(mls)):
        tpl.append(({ml: mls[i]}, {'pk': bit, ra: bit}))
        tpl.append(({ml: mls[i]}, {}))
    for j in range(n):
        for d in (1, 0x80):
            tpl.append(({}, {'pk': bit, ra: lambda k, j=j, d=d: bit(k) ^ (d if k == j else 0)}))
    for j in range(n):
        tpl.append(({}, {'pk': bit, ra: lambda k, j=j: bit(k) if k == j else bit(k) ^ 0x55}))
    smp = Sampler(tpl, 16)
    if out is None:
        R.fail('acceptance', f.loc, f'{W}: does not return')
        return R
    R.safe('verification accesses', c.m, smp)
    settled(R, c.m, out, f.loc, W, smp, (), ret)
    R.same('acceptance', f.loc, t.eq(ret, const(32, 0)), acc, f'{W}: acceptance', (), smp)
    ok = t.eq(ret, const(32, 0))
    no = t.bnot(ok)
    lenw = t.word_of(c.get('mlen', 0, 8), 8)
    R.same('length when accepted', f.loc, lenw, ml, f'{W}: message length when accepted', (ok,), smp)
    R.same('length when rejected', f.loc, lenw, c64(0), f'{W}: message length when rejected', (no,), smp)
    got = c.get('m', 0, ml)
    R.same('message when accepted', f.loc, got, ((sm, sb, ml),), f'{W}: message when accepted', (ok,), smp)
    R.same('nothing when rejected', f.loc, got, ((0, 0, ml),), f'{W}: leading part of the output buffer when rejected', (no,), smp)
    return R
