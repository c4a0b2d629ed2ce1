"""The specification side, written from RFC 8391, SP 800-208 and FIPS 202."""
from . import term as t
from .models import htag, wtag

SHA2, SHAKE128, SHAKE256 = 0, 1, 2


def _w(n):
    l1 = 8 * n // 4
    # len_2 = floor(log2(len_1 * 15) / 4) + 1
    l2 = (l1 * 15).bit_length() - 1
    l2 = l2 // 4 + 1
    return l1, l2


def make(func, n, pad, h, d, mt):
    l1, l2 = _w(n)
    ib = (h + 7) // 8 if mt else 4
    p = dict(func=func, n=n, padding_len=pad, wots_w=16, wots_log_w=4, wots_len1=l1, wots_len2=l2, wots_len=l1 + l2,
             wots_sig_bytes=(l1 + l2) * n, full_height=h, tree_height=h // d, d=d, index_bytes=ib,
             sig_bytes=ib + n + d * (l1 + l2) * n + h * n, pk_bytes=2 * n)
    return p


def tables():
    """({xmss oid: (name, params)}, {xmssmt oid: (name, params)})"""
    xm, mt = {}, {}
    fam = [('SHA2', 256, SHA2, 32, 32), ('SHA2', 512, SHA2, 64, 64), ('SHAKE', 256, SHAKE128, 32, 32),
           ('SHAKE', 512, SHAKE256, 64, 64), ('SHA2', 192, SHA2, 24, 4), ('SHAKE256', 256, SHAKE256, 32, 32),
           ('SHAKE256', 192, SHAKE256, 24, 4)]
    o = 1
    for nm, bits, f, n, pad in fam:
        for h in (10, 16, 20):
            xm[o] = (f'XMSS-{nm}_{h}_{bits}', make(f, n, pad, h, 1, False))
            o += 1
    o = 1
    for nm, bits, f, n, pad in fam:
        for h, d in ((20, 2), (20, 4), (40, 2), (40, 4), (40, 8), (60, 3), (60, 6), (60, 12)):
            mt[o] = (f'XMSSMT-{nm}_{h}/{d}_{bits}', make(f, n, pad, h, d, True))
            o += 1
    return xm, mt


XMSS_T, XMSSMT_T = tables()


def combos(which='all'):
    """Representative parameter sets: dict (n,h,d) -> params (func of the first registered)."""
    out = {}
    for tab in (XMSS_T, XMSSMT_T):
        for o, (nm, p) in tab.items():
            k = (p['n'], p['full_height'], p['d'])
            if k not in out:
                q = dict(p)
                q['name'] = nm
                q['oid'] = o
                q['mt'] = tab is XMSSMT_T
                out[k] = q
    return out


def hash_combos():
    out = {}
    for tab in (XMSS_T, XMSSMT_T):
        for o, (nm, p) in tab.items():
            out.setdefault((p['n'], p['func'], p['padding_len']), dict(p, name=nm))
    return out


# ------------------------------------------------------------------ hash-level specification
def core(p, bs):
    """First n bytes of the selected hash of bs, as pieces."""
    bs = t.norm(bs)
    n = p['n']
    if p['func'] == SHA2:
        a = t.auf('SHA512' if n == 64 else 'SHA256', (bs,), 64 if n == 64 else 32)
    elif p['func'] == SHAKE128:
        a = t.auf('shake128', (bs,), None)
    else:
        a = t.auf('shake256', (bs,), None)
    return ((a, 0, n),)


def pad(p, k):
    return t.be_bytes(t.c64(k), p['padding_len'])


def addr_bytes(ws):
    out = ()
    for w in ws:
        out += t.be_bytes(w, 4)
    return out


def PRF(p, key, x):
    return core(p, pad(p, 3) + tuple(key) + tuple(x))


def PRFKG(p, key, x):
    return core(p, pad(p, 4) + tuple(key) + tuple(x))


def HMSG(p, R, root, idx, msg):
    return core(p, pad(p, 2) + tuple(R) + tuple(root) + t.be_bytes(idx, p['n']) + tuple(msg))


def xor(a, b):
    """Bytewise xor of two strings of the same concrete length."""
    out = []
    a, b = list(a), list(b)
    while a:
        k = min(a[0][2], b[0][2])
        pa, a = t.bs_cut(a, k)
        pb, b = t.bs_cut(b, k)
        for i in range(k):
            out.append((t.bitop('xor', t.src_byte(pa[0][0], pa[0][1] + i), t.src_byte(pb[0][0], pb[0][1] + i)), 0, 1))
    return tuple(out)


def F(p, x, seed, w):
    """w: words 0..6"""
    k = lambda v: addr_bytes(tuple(w[:7]) + (t.const(32, v),))
    key = PRF(p, seed, k(0))
    bm = PRF(p, seed, k(1))
    return core(p, pad(p, 0) + key + xor(x, bm))


def H(p, x, seed, w):
    k = lambda v: addr_bytes(tuple(w[:7]) + (t.const(32, v),))
    key = PRF(p, seed, k(0))
    bm = PRF(p, seed, k(1)) + PRF(p, seed, k(2))
    return core(p, pad(p, 1) + key + xor(x, bm))


# ------------------------------------------------------------------ summaries (same terms as the models)
def u_prf(p, key, x):
    return ((t.auf('prf' + htag(p), (t.norm(key), t.norm(x)), p['n']), 0, p['n']),)


def u_prfkg(p, key, x):
    return ((t.auf('prfkg' + htag(p), (t.norm(key), t.norm(x)), p['n']), 0, p['n']),)


def u_hmsg(p, R, root, idx, msg):
    return ((t.auf('hmsg' + htag(p), (t.norm(R), t.norm(root), idx, t.norm(msg)), p['n']), 0, p['n']),)


def u_F(p, x, seed, w):
    return ((t.auf('F' + htag(p), (t.norm(x), t.norm(seed)) + tuple(w[:7]), p['n']), 0, p['n']),)


def u_H(p, x, seed, w):
    return ((t.auf('H' + htag(p), (t.norm(x), t.norm(seed)) + tuple(w[:7]), p['n']), 0, p['n']),)


def u_wotspk(p, seed, pub, w):
    return ((t.auf('wotspk' + wtag(p), (t.norm(seed), t.norm(pub)) + tuple(w[:5]), p['wots_sig_bytes']), 0,
             p['wots_sig_bytes']),)


def u_wotssig(p, msg, seed, pub, w):
    return ((t.auf('wotssig' + wtag(p), (t.norm(msg), t.norm(seed), t.norm(pub)) + tuple(w[:5]),
                   p['wots_sig_bytes']), 0, p['wots_sig_bytes']),)


def u_wotsrec(p, sig, msg, pub, w):
    return ((t.auf('wotsrec' + wtag(p), (t.norm(sig), t.norm(msg), t.norm(pub)) + tuple(w[:5]),
                   p['wots_sig_bytes']), 0, p['wots_sig_bytes']),)


def u_leaf(p, seed, pub, lw, ow):
    return ((t.auf('leaf' + wtag(p), (t.norm(seed), t.norm(pub)) + tuple(lw[:5]) + tuple(ow[:5]), p['n']), 0, p['n']),)


def c32(v):
    return t.const(32, v)


def tree_words(layer, tree):
    """Words 0..2 for a layer (int) and a tree index (64-bit term)."""
    return (c32(layer), t.extract(tree, 32, 32), t.extract(tree, 0, 32))


def l_tree(p, pk, seed, w4):
    """RFC 8391 Algorithm 8 on pk (list of n-byte strings); w4: words 0..4 of the L-tree address."""
    nodes = list(pk)
    height = 0
    while len(nodes) > 1:
        nxt = []
        for i in range(len(nodes) // 2):
            nxt.append(u_H(p, nodes[2 * i] + nodes[2 * i + 1], seed, tuple(w4) + (c32(height), c32(i))))
        if len(nodes) & 1:
            nxt.append(nodes[-1])
        nodes = nxt
        height += 1
    return nodes[0]
