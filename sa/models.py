"""Summaries of the library's own hash-level functions (each verified separately against its specification),
and of the few external functions the library uses."""
from . import term as t
from .term import c64, const
from .exec import Machine, State, Region, NOTHANDLED, LIBC, AnalysisError
from .mem import Content, Seg, _u, _l
from .ir import struct_members, sizeof


def fields(prog):
    """Layout of xmss_params from debug information."""
    for u in prog.units:
        m = struct_members(u, 'xmss_params')
        if m:
            return m
    raise AnalysisError('xmss_params not found')


def read_params(m, st, p):
    """Field values of the parameter struct at p: dict of ints."""
    lay = m.layout
    if p.op == 'ptr' and p.a[0] == 'params' and p.a[1].op == 'const' and p.a[1].a == 0 and m.pcache is not None:
        return m.pcache
    end = max(o + s for o, s in lay.values())
    bs = m.read(st, p, end)
    out = {}
    for k, (o, s) in lay.items():
        piece = t.bs_cut(t.bs_cut(bs, o)[1], s)[0]
        v = t.word_of(piece, s)
        out[k] = v.a if v.op == 'const' else None
    if p.op == 'ptr' and p.a[0] == 'params':
        m.pcache = out
    return out


class Model:
    def __init__(self, name, sig, f):
        self.name, self.sig, self.f = name, sig, f

    def fits(self, fn):
        if len(fn.params) != len(self.sig):
            return False
        for (nm, ty), s in zip(fn.params, self.sig):
            if s == 'p' and ty.k != 'ptr':
                return False
            if s != 'p' and (ty.k != 'int' or ty.w != s):
                return False
        return True

    def __call__(self, m, args, st):
        return self.f(m, args, st)


def words(m, st, p, n):
    bs = m.read(st, p, 4 * n)
    out = []
    for i in range(n):
        a, bs = t.bs_cut(bs, 4)
        out.append(t.word_of(a, 4))
    return tuple(out)


def havoc_words(m, st, p, lo, hi, tag):
    for i in range(lo, hi):
        m.write(st, t.add(p, c64(4 * i)), ((t.sym(32, f'{tag}.w{i}'), 0, 4),))


def need(pr, *ks):
    for k in ks:
        if pr.get(k) is None:
            return False
    return True


HK = ('n', 'func', 'padding_len')
WK = HK + ('wots_w', 'wots_log_w', 'wots_len1', 'wots_len2', 'wots_len', 'wots_sig_bytes')


def htag(pr):
    return f"/{pr['n']},{pr['func']},{pr['padding_len']}"


def wtag(pr):
    return htag(pr) + ',' + ','.join(str(pr[k]) for k in WK[3:])


def prf(m, a, st):
    pr = read_params(m, st, a[0])
    if not need(pr, *HK):
        return NOTHANDLED
    n = pr['n']
    x = t.norm(m.read(st, a[2], 32))
    k = t.norm(m.read(st, a[3], n))
    e = m.event('call', 'prf', {'out': a[1], 'in': x, 'key': k}, st)
    e.res = t.auf('prf' + htag(pr), (k, x), n)
    m.write(st, a[1], ((e.res, 0, n),))
    return const(32, 0)


def prf_keygen(m, a, st):
    pr = read_params(m, st, a[0])
    if not need(pr, *HK):
        return NOTHANDLED
    n = pr['n']
    x = t.norm(m.read(st, a[2], 32 + n))
    k = t.norm(m.read(st, a[3], n))
    e = m.event('call', 'prf_keygen', {'out': a[1], 'in': x, 'key': k}, st)
    e.res = t.auf('prfkg' + htag(pr), (k, x), n)
    m.write(st, a[1], ((e.res, 0, n),))
    return const(32, 0)


def hash_message(m, a, st):
    pr = read_params(m, st, a[0])
    if not need(pr, *HK):
        return NOTHANDLED
    n = pr['n']
    R = t.norm(m.read(st, a[2], n))
    root = t.norm(m.read(st, a[3], n))
    idx, pre, ln = a[4], a[5], a[6]
    k = pr['padding_len'] + 3 * n
    msg = t.norm(m.read(st, t.add(pre, c64(k)), _u(ln)))
    # the prefix area receives padding, R, root and index
    m.write(st, pre, ((t.auf('hmprefix' + htag(pr), (R, root, idx), k), 0, k),))
    e = m.event('call', 'hash_message', {'out': a[1], 'R': R, 'root': root, 'idx': idx, 'msg': msg, 'len': ln,
                                         'pre': pre}, st)
    e.res = t.auf('hmsg' + htag(pr), (R, root, idx, msg), n)
    m.write(st, a[1], ((e.res, 0, n),))
    return const(32, 0)


def _thash(name, uf, k):
    def f(m, a, st):
        pr = read_params(m, st, a[0])
        if not need(pr, *HK):
            return NOTHANDLED
        n = pr['n']
        x = t.norm(m.read(st, a[2], k * n))
        s = t.norm(m.read(st, a[3], n))
        w = words(m, st, a[4], 7)
        e = m.event('call', name, {'out': a[1], 'in': x, 'seed': s, 'w': w, 'inp': a[2]}, st)
        e.res = t.auf(uf + htag(pr), (x, s) + w, n)
        havoc_words(m, st, a[4], 7, 8, 'scratch')
        m.write(st, a[1], ((e.res, 0, n),))
        return const(32, 0)
    return f


def wots_pkgen(m, a, st):
    pr = read_params(m, st, a[0])
    if not need(pr, *WK):
        return NOTHANDLED
    n = pr['n']
    seed = t.norm(m.read(st, a[2], n))
    pub = t.norm(m.read(st, a[3], n))
    w = words(m, st, a[4], 5)
    e = m.event('call', 'wots_pkgen', {'out': a[1], 'seed': seed, 'pub': pub, 'w': w}, st)
    L = pr['wots_sig_bytes']
    e.res = t.auf('wotspk' + wtag(pr), (seed, pub) + w, L)
    havoc_words(m, st, a[4], 5, 8, 'scratch')
    m.write(st, a[1], ((e.res, 0, L),))


def wots_sign(m, a, st):
    pr = read_params(m, st, a[0])
    if not need(pr, *WK):
        return NOTHANDLED
    n = pr['n']
    msg = t.norm(m.read(st, a[2], n))
    seed = t.norm(m.read(st, a[3], n))
    pub = t.norm(m.read(st, a[4], n))
    w = words(m, st, a[5], 5)
    e = m.event('call', 'wots_sign', {'out': a[1], 'msg': msg, 'seed': seed, 'pub': pub, 'w': w}, st)
    L = pr['wots_sig_bytes']
    e.res = t.auf('wotssig' + wtag(pr), (msg, seed, pub) + w, L)
    havoc_words(m, st, a[5], 5, 8, 'scratch')
    m.write(st, a[1], ((e.res, 0, L),))


def wots_pk_from_sig(m, a, st):
    pr = read_params(m, st, a[0])
    if not need(pr, *WK):
        return NOTHANDLED
    n = pr['n']
    L = pr['wots_sig_bytes']
    sig = t.norm(m.read(st, a[2], L))
    msg = t.norm(m.read(st, a[3], n))
    pub = t.norm(m.read(st, a[4], n))
    w = words(m, st, a[5], 5)
    e = m.event('call', 'wots_pk_from_sig', {'out': a[1], 'sig': sig, 'msg': msg, 'pub': pub, 'w': w}, st)
    e.res = t.auf('wotsrec' + wtag(pr), (sig, msg, pub) + w, L)
    havoc_words(m, st, a[5], 5, 8, 'scratch')
    m.write(st, a[1], ((e.res, 0, L),))


def gen_leaf_wots(m, a, st):
    pr = read_params(m, st, a[0])
    if not need(pr, *WK):
        return NOTHANDLED
    n = pr['n']
    seed = t.norm(m.read(st, a[2], n))
    pub = t.norm(m.read(st, a[3], n))
    lw = words(m, st, a[4], 5)
    ow = words(m, st, a[5], 5)
    e = m.event('call', 'gen_leaf_wots', {'out': a[1], 'seed': seed, 'pub': pub, 'lw': lw, 'ow': ow}, st)
    e.res = t.auf('leaf' + wtag(pr), (seed, pub) + lw + ow, n)
    havoc_words(m, st, a[4], 5, 8, 'scratch')
    havoc_words(m, st, a[5], 5, 8, 'scratch')
    m.write(st, a[1], ((e.res, 0, n),))


def ull_to_bytes(m, a, st):
    ln = a[1]
    if ln.op != 'const' or ln.a > 4096:
        return NOTHANDLED
    m.write(st, a[0], t.be_bytes(a[2], ln.a), 'write', ln.a)


def bytes_to_ull(m, a, st):
    ln = a[1]
    if ln.op != 'const' or ln.a > 8:
        return NOTHANDLED
    if ln.a == 0:
        return c64(0)
    return t.be_word(m.read(st, a[0], ln.a), ln.a, 64)


def _shake(name):
    def f(m, a, st):
        ol, il = _u(a[1]), _u(a[3])
        x = t.norm(m.read(st, a[2], il)) if not (isinstance(il, int) and il == 0) else ()
        e = m.event('call', name, {'out': a[0], 'outlen': a[1], 'in': x, 'inlen': a[3]}, st)
        e.res = t.auf(name, (x,), None)
        m.write(st, a[0], ((e.res, 0, ol),), 'write', ol)
    return f


def randombytes(m, a, st):
    n = _u(a[1])
    e = m.event('call', 'randombytes', {'out': a[0], 'len': a[1]}, st)
    m.nrand = getattr(m, 'nrand', 0) + 1
    e.res = t.asym(f'rand{m.nrand}')
    m.write(st, a[0], ((e.res, 0, n),), 'write', n)


MODELS = {
    'prf': Model('prf', ['p'] * 4, prf),
    'prf_keygen': Model('prf_keygen', ['p'] * 4, prf_keygen),
    'hash_message': Model('hash_message', ['p', 'p', 'p', 'p', 64, 'p', 64], hash_message),
    'thash_h': Model('thash_h', ['p'] * 5, _thash('thash_h', 'H', 2)),
    'thash_f': Model('thash_f', ['p'] * 5, _thash('thash_f', 'F', 1)),
    'wots_pkgen': Model('wots_pkgen', ['p'] * 5, wots_pkgen),
    'wots_sign': Model('wots_sign', ['p'] * 6, wots_sign),
    'wots_pk_from_sig': Model('wots_pk_from_sig', ['p'] * 6, wots_pk_from_sig),
    'gen_leaf_wots': Model('gen_leaf_wots', ['p'] * 6, gen_leaf_wots),
    'ull_to_bytes': Model('ull_to_bytes', ['p', 32, 64], ull_to_bytes),
    'bytes_to_ull': Model('bytes_to_ull', ['p', 32], bytes_to_ull),
    'shake128': Model('shake128', ['p', 64, 'p', 64], _shake('shake128')),
    'shake256': Model('shake256', ['p', 64, 'p', 64], _shake('shake256')),
    'randombytes': Model('randombytes', ['p', 64], randombytes),
}


def pick(*names):
    return {k: MODELS[k] for k in names}


# ------------------------------------------------------------------ external hash functions
def _sha(name, outlen):
    def f(m, a, st, ins):
        il = _u(a[1])
        x = t.norm(m.read(st, a[0], il)) if not (isinstance(il, int) and il == 0) else ()
        e = m.event('call', name, {'out': a[2], 'in': x, 'inlen': a[1]}, st)
        e.res = t.auf(name, (x,), outlen)
        m.write(st, a[2], ((e.res, 0, outlen),), 'write')
        return a[2]
    return f


def _sha_init(name):
    def f(m, a, st, ins):
        m.sha = getattr(m, 'sha', {})
        m.sha[a[0]] = (name, ())
        return const(32, 1)
    return f


def _sha_update(name):
    def f(m, a, st, ins):
        s = getattr(m, 'sha', {}).get(a[0])
        if s is None or s[0] != name or st.guard and False:
            raise AnalysisError('hash context not initialised here')
        ln = _u(a[2])
        bs = m.read(st, a[1], ln) if not (isinstance(ln, int) and ln == 0) else ()
        m.sha[a[0]] = (name, t.norm(tuple(s[1]) + tuple(bs)))
        return const(32, 1)
    return f


def _sha_final(name, outlen):
    def f(m, a, st, ins):
        s = getattr(m, 'sha', {}).get(a[1])
        if s is None or s[0] != name:
            raise AnalysisError('hash context not initialised here')
        r = t.auf(name, (s[1],), outlen)
        e = m.event('call', name, {'out': a[0], 'in': s[1], 'inlen': _l(t.bs_len(s[1]))}, st)
        e.res = r
        m.write(st, a[0], ((r, 0, outlen),))
        del m.sha[a[1]]
        return const(32, 1)
    return f


LIBC['SHA256'] = _sha('SHA256', 32)
LIBC['SHA512'] = _sha('SHA512', 64)
LIBC['SHA384'] = _sha('SHA384', 48)
LIBC['SHA224'] = _sha('SHA224', 28)
LIBC['SHA1'] = _sha('SHA1', 20)
for _n, _o in (('SHA256', 32), ('SHA512', 64)):
    LIBC[_n + '_Init'] = _sha_init(_n)
    LIBC[_n + '_Update'] = _sha_update(_n)
    LIBC[_n + '_Final'] = _sha_final(_n, _o)


# ------------------------------------------------------------------ context
class Ctx:
    """A machine with a state holding the parameter struct of one parameter set."""

    def __init__(self, prog, params=None, models=None, limit=30000000, unroll=5000):
        self.prog = prog
        self.m = Machine(prog, models or {}, limit, unroll)
        self.m.layout = fields(prog)
        self.m.pcache = None
        self.st = State()
        self.p = None
        if params is not None:
            self.set_params(params)

    def set_params(self, params):
        """params: dict field -> int."""
        lay = self.m.layout
        size = max(o + s for o, s in lay.values())
        seg = Seg()
        for k, (o, s) in sorted(lay.items(), key=lambda x: x[1]):
            v = params.get(k)
            if v is not None:
                seg.put(o, ((const(8 * s, v), 0, s),))
        self.p = self.m.region('params', (size + 7) // 8 * 8, Content(None, [seg], self.st.tok), ro=True,
                               state=self.st, desc='the parameter set')
        self.params = params

    def buf(self, name, size, content=None, ro=False, desc=None):
        """An input or output buffer; content: A, byte string, or None for unknown initial bytes."""
        if content is None:
            c = Content(t.asym(name), [], self.st.tok)
        elif isinstance(content, t.A):
            c = Content(content, [], self.st.tok)
        else:
            seg = Seg()
            seg.put(0, content)
            c = Content(t.asym(name), [seg], self.st.tok)
        return self.m.region(name, size, c, ro=ro, state=self.st, desc=desc or f'buffer {name}')

    def addr(self, name, ws=None):
        """A hash address of eight words (terms)."""
        ws = ws or [t.sym(32, f'{name}{i}') for i in range(8)]
        return self.buf(name, 32, tuple((w, 0, 4) for w in ws))

    def call(self, name, args, unit=None):
        fn = self.prog.find(unit, name) if unit is not None else self.prog.func(name)
        if fn is None:
            fn = self.prog.func(name)
        if len(fn.params) != len(args):
            raise AnalysisError(f'{name}: {len(fn.params)} parameters, {len(args)} expected')
        aa = []
        for (nm, ty), v in zip(fn.params, args):
            if isinstance(v, int):
                v = const(ty.w, v)
            if v.w != ty.w:
                v = t.zext(v, ty.w) if v.w < ty.w else t.trunc(v, ty.w)
            aa.append(v)
        ret, out = self.m.call(fn, aa, self.st)
        self.ret = ret
        self.out = out
        return ret, out

    def get(self, rid, off, n, st=None):
        st = st or self.out
        return t.norm(self.m.content(st, rid).read(off, n, rid))
