"""Groups: SHAKE-128/256 against FIPS 202 (permutation round by round, sponge block by block)."""
from . import term as t, spec
from .term import const, c64, T
from .ir import program, AnalysisError
from .models import Ctx, Model, pick
from .report import Report, Sampler, SEED
import random

RATE = {'shake128': 168, 'shake256': 136}


# ------------------------------------------------------------------ FIPS 202, section 3
def _rc():
    """Round constants from the LFSR of FIPS 202, algorithm 5."""
    def rc(k):
        if k % 255 == 0:
            return 1
        R = [1, 0, 0, 0, 0, 0, 0, 0]
        for _ in range(k % 255):
            R = [0] + R
            R[0] ^= R[8]
            R[4] ^= R[8]
            R[5] ^= R[8]
            R[6] ^= R[8]
            R = R[:8]
        return R[0]
    out = []
    for ir in range(24):
        v = 0
        for j in range(7):
            if rc(j + 7 * ir):
                v |= 1 << (2 ** j - 1)
        out.append(v)
    return out


def _rot():
    """Rotation offsets of rho (FIPS 202, algorithm 2), keyed by (x, y)."""
    off = {(0, 0): 0}
    x, y = 1, 0
    for k in range(24):
        off[(x, y)] = (k + 1) * (k + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return off


M64 = (1 << 64) - 1
RC, ROT = _rc(), _rot()


def crot(v, k):
    return (v << k | v >> (64 - k)) & M64 if k else v


class Lanes:
    """Value numbering of 64-bit lane arithmetic: a value is a constant xor a set of atoms; an atom is a rotated input
    symbol, a conjunction of two values, or a shifted value awaiting its other half."""

    def __init__(self, seeds=4):
        self.form = {}      # sym -> (frozenset, const)
        self.val = {}       # sym -> concrete values under the random inputs
        self.back = {}      # form -> sym
        self.cuts = {}      # form -> sym standing for it
        self.hit = set()
        self.k = seeds
        self.n = 0

    def atom(self, name, vals):
        s = t.sym(64, name)
        self.form[s] = (frozenset([('s', s, 0)]), 0)
        self.val[s] = tuple(vals)
        return s

    # ---- forms
    @staticmethod
    def xor(f, g):
        return f[0] ^ g[0], f[1] ^ g[1]

    def rot(self, f, k):
        k %= 64
        if not k:
            return f
        out = set()
        for a in f[0]:
            if a[0] == 's':
                out.add(('s', a[1], (a[2] + k) % 64))
            elif a[0] == 'and':
                x, y = tuple(a[1]) if len(a[1]) == 2 else tuple(a[1]) * 2
                out.add(('and', frozenset([self.rot(x, k), self.rot(y, k)])))
            else:
                return None
        return frozenset(out), crot(f[1], k)

    def conj(self, f, g):
        if f == g:
            return f
        for x, y in ((f, g), (g, f)):
            if not x[0]:
                if x[1] == 0:
                    return frozenset(), 0
                if x[1] == M64:
                    return y
                if not y[0]:
                    return frozenset(), x[1] & y[1]
        if f[1] == M64:
            return self.xor(g, self.conj((f[0], 0), g))
        if g[1] == M64:
            return self.xor(f, self.conj(f, (g[0], 0)))
        return frozenset([('and', frozenset([f, g]))]), 0

    def depth(self, f, memo={}):
        d = memo.get(f)
        if d is None:
            d = 0
            for a in f[0]:
                if a[0] == 'and':
                    d = max(d, 1 + max(self.depth(x) for x in a[1]))
                elif a[0] in ('shl', 'lshr'):
                    d = max(d, self.depth(a[1]))
            memo[f] = d
        return d

    # ---- the domain's view of terms
    def get(self, x):
        f = self.form.get(x)
        if f is not None:
            return f, self.val[x]
        if x.op == 'const':
            return (frozenset(), x.a), (x.a,) * self.k
        if x.op == 'cat' and len(x.a) == 2:
            (s1, l1, n1), (s2, l2, n2) = x.a
            if s1 is s2 and s1 in self.form and l2 == 0 and l1 == n2 and n1 + n2 == 64:
                r = self.rot(self.form[s1], n1)
                if r is not None:
                    return r, tuple(crot(v, n1) for v in self.val[s1])
        return None

    def put(self, f, v):
        c = self.cuts.get(f)
        if c is not None:
            self.hit.add(c)
            return c
        if not f[0]:
            return const(64, f[1])
        s = self.back.get(f)
        if s is None:
            self.n += 1
            s = t.sym(64, f'v{self.n}')
            if len(f[0]) > 80 or self.depth(f) > 1:
                self.form[s] = (frozenset([('s', s, 0)]), 0)
            else:
                self.form[s] = f
            self.val[s] = v
            self.back[f] = s
        return s

    def cut(self, op, x, y):
        if x.w != 64:
            return None
        fx, fy = self.get(x), self.get(y)
        if fx is None or fy is None or x.op == 'const' and y.op == 'const':
            return None
        (f, u), (g, v) = fx, fy
        if op in ('xor', 'or', 'add'):
            # two disjoint halves of one value make a rotation
            if len(f[0]) == 1 and len(g[0]) == 1 and not f[1] and not g[1]:
                a, b = next(iter(f[0])), next(iter(g[0]))
                if {a[0], b[0]} == {'shl', 'lshr'} and a[1] == b[1] and a[2] + b[2] == 64:
                    k = a[2] if a[0] == 'shl' else b[2]
                    r = self.rot(a[1], k)
                    if r is not None:
                        return self.put(r, tuple(p | q for p, q in zip(u, v)))
        if op == 'xor':
            return self.put(self.xor(f, g), tuple(p ^ q for p, q in zip(u, v)))
        if op == 'and':
            return self.put(self.conj(f, g), tuple(p & q for p, q in zip(u, v)))
        if op == 'or':
            return self.put(self.xor(self.xor(f, g), self.conj(f, g)), tuple(p | q for p, q in zip(u, v)))
        if op in ('shl', 'lshr') and y.op == 'const' and 0 <= y.a < 64:
            if y.a == 0:
                return x
            w = tuple((p << y.a) & M64 if op == 'shl' else p >> y.a for p in u)
            return self.put((frozenset([(op, f, y.a)]), 0), w)
        return None


def spec_round(D, A, ir):
    """One round on forms; A: list of 25 forms, index x + 5y."""
    C = []
    for x in range(5):
        c = A[x]
        for y in range(1, 5):
            c = D.xor(c, A[x + 5 * y])
        C.append(c)
    th = [D.xor(C[(x - 1) % 5], D.rot(C[(x + 1) % 5], 1)) for x in range(5)]
    B = [None] * 25
    for x in range(5):
        for y in range(5):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = D.rot(D.xor(A[x + 5 * y], th[x]), ROT[(x, y)])
    E = [None] * 25
    ones = (frozenset(), M64)
    for x in range(5):
        for y in range(5):
            E[x + 5 * y] = D.xor(B[x + 5 * y], D.conj(D.xor(B[(x + 1) % 5 + 5 * y], ones), B[(x + 2) % 5 + 5 * y]))
    E[0] = D.xor(E[0], (frozenset(), RC[ir]))
    return E


def spec_round_c(A, ir):
    """One round on integers."""
    C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
    th = [C[(x - 1) % 5] ^ crot(C[(x + 1) % 5], 1) for x in range(5)]
    B = [None] * 25
    for x in range(5):
        for y in range(5):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = crot(A[x + 5 * y] ^ th[x], ROT[(x, y)])
    E = [B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & M64 & B[(x + 2) % 5 + 5 * y]) for y in range(5) for x in range(5)]
    E[0] ^= RC[ir]
    return E


def permutation(prog):
    """The Keccak permutation of the SHAKE translation unit."""
    f = prog.func('shake128')
    u = f.unit
    names = [g.name for g in u.globals.values() if not g.external and getattr(g.ty, 'k', None) == 'arr'
             and g.ty.n == 24] if hasattr(u, 'globals') else []
    cand = []
    for fn in u.funcs.values():
        if fn.name in RATE or len(fn.params) != 1 or fn.params[0][1].k != 'ptr' or not fn.blocks:
            continue
        n = sum(1 for b in fn.blocks.values() for i in b.insts if i.op in ('xor', 'and'))
        cand.append((n, fn))
    cand.sort(key=lambda x: -x[0])
    if 'KeccakF1600_StatePermute' in u.funcs and len(u.funcs['KeccakF1600_StatePermute'].params) == 1:
        return u.funcs['KeccakF1600_StatePermute']
    if not cand or cand[0][0] < 4:
        raise AnalysisError('Keccak permutation not found')
    return cand[0][1]


def g_keccak(variant='ref'):
    R = Report('keccak-f')
    prog = program(variant)
    f = permutation(prog)
    D = Lanes()
    rnd = random.Random(SEED)
    vals = [[rnd.getrandbits(64) for _ in range(25)] for _ in range(D.k)]
    S = [[D.atom(f'S0.{i}', [v[i] for v in vals]) for i in range(25)]]
    for r in range(24):
        E = spec_round(D, [D.form[x] for x in S[-1]], r)
        vals = [spec_round_c(v, r) for v in vals]
        S.append([D.atom(f'S{r + 1}.{i}', [v[i] for v in vals]) for i in range(25)])
        for i in range(25):
            D.cuts[E[i]] = S[-1][i]
    c = Ctx(prog)
    c.m.cut = D.cut
    c.buf('state', 200, tuple((x, 0, 8) for x in S[0]))
    ret, out = c.call(f.name, [t.ptr('state', 0)], unit=f.unit)
    R.use(c.m)
    if out is None:
        R.fail('permutation', f.loc, f'{f.name} does not return')
        return R
    R.safe('permutation accesses', c.m)
    bad = []
    for i in range(25):
        v = t.word_of(c.get('state', 8 * i, 8), 8)
        if v is S[24][i]:
            R.ok('permutation lane')
            continue
        g = D.get(v)
        if g is None:
            raise AnalysisError(f'{f.name}: lane {i} could not be resolved: {t.show(v)[:200]}')
        if g[1] == D.val[S[24][i]]:
            R._ok('permutation lane', 'sampled')
        else:
            bad.append(i)
    miss = {r: [i for i in range(25) if S[r][i] not in D.hit] for r in range(1, 25)}
    for r in range(1, 25):
        if not miss[r]:
            R.ok('permutation round')
    if bad:
        r = next((r for r in range(1, 25) if miss[r]), 24)
        R.fail('permutation lane', f.loc, f'{f.name}: {len(bad)} lanes differ from Keccak-f[1600]; round {r - 1} is the '
               f'first whose specified lanes are not computed (lanes '
               + ', '.join(f'({i % 5},{i // 5})' for i in miss[r][:6]) + ')')
    return R


# ------------------------------------------------------------------ FIPS 202, sections 4 and 6
def perm(bs):
    return t.auf('keccakf', (t.norm(bs),), 200)


def absorb_block(state, block, rate):
    out = ()
    st, bl = list(state), list(block)
    for i in range(rate // 8):
        a, st = t.bs_cut(st, 8)
        b, bl = t.bs_cut(bl, 8)
        out += ((t.bitop('xor', t.word_of(a, 8), t.word_of(b, 8)), 0, 8),)
    return t.norm(out + tuple(st))


def spec_sponge(rate, inlen, outlen, name='in'):
    """(output, list of the permutation's inputs)."""
    arr = t.asym(name)
    st = ((0, 0, 200),)
    pos = 0
    perms = []
    while inlen - pos >= rate:
        st = absorb_block(st, ((arr, pos, rate),), rate)
        perms.append(st)
        st = ((perm(st), 0, 200),)
        pos += rate
    k = inlen - pos
    last = ((arr, pos, k),) if k else ()
    z = rate - k - 1
    tail = [0x1f] + [0] * z
    tail[-1] |= 0x80
    last += tuple((const(8, v), 0, 1) for v in tail)
    st = absorb_block(st, t.norm(last), rate)
    out = ()
    while outlen > 0:
        perms.append(st)
        st = ((perm(st), 0, 200),)
        n = min(rate, outlen)
        out += tuple(t.bs_cut(st, n)[0])
        outlen -= n
    return t.norm(out), perms


class Enough(Exception):
    pass


def run_sponge(prog, fn, inlen, outlen, stop=None):
    pf = permutation(prog)
    log = []

    def model(m, a, st):
        bs = t.norm(m.read(st, a[0], 200))
        if stop is not None and len(log) >= stop:
            c.last = st
            raise Enough
        log.append(bs)
        m.event('call', pf.name, {'in': bs}, st)
        m.write(st, a[0], ((perm(bs), 0, 200),))
        return const(32, 0)
    c = Ctx(prog, models={pf.name: Model(pf.name, ['p'], model)}, unroll=400)
    c.buf('in', inlen, ro=True), c.buf('out', outlen + 8)
    try:
        ret, out = c.call(fn, [t.ptr('out', 0), c64(outlen), t.ptr('in', 0), c64(inlen)])
    except Enough:
        return c, log, 'stopped'
    return c, log, out


def g_sponge(fn, cases, variant='ref'):
    """cases: list of (inlen, outlen)."""
    R = Report(f'sponge/{fn}')
    prog = program(variant)
    f = prog.func(fn)
    rate = RATE[fn]
    for inlen, outlen in cases:
        c, log, out = run_sponge(prog, fn, inlen, outlen)
        R.use(c.m)
        nm = f'{fn}, {inlen} bytes in, {outlen} bytes out'
        if out is None:
            R.fail('sponge', f.loc, f'{nm}: does not return')
            continue
        R.safe('sponge accesses', c.m)
        want, _ = spec_sponge(rate, inlen, outlen)
        if outlen:
            R.same('sponge', f.loc, c.get('out', 0, outlen), want, nm, (), Sampler([({}, {})], 6))
        R.same('output length', f.loc, c.get('out', outlen, 8), ((t.asym('out'), outlen, 8),), f'{nm}: bytes after')
    return R


BIG = (2 ** 31 - 1, 2 ** 31 + 5, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 33 + 17, 2 ** 40 + 1, 2 ** 48 + 7, 2 ** 60)


def g_sponge_long(fn, variant='ref'):
    """Lengths beyond every narrower integer type: the first blocks are absorbed and squeezed as specified and the
    sponge goes on."""
    R = Report(f'sponge/{fn}/long')
    prog = program(variant)
    f = prog.func(fn)
    rate = RATE[fn]
    for n in BIG + tuple(rate * 2 ** b + k for b in (8, 16, 31, 32) for k in (0, 5, rate + 5)):
        for which in ('in', 'out'):
            k = 4
            inlen, outlen = (n, 32) if which == 'in' else (7, n)
            c, log, out = run_sponge(prog, fn, inlen, outlen, stop=k)
            R.use(c.m)
            nm = f'{fn}, {inlen} bytes in, {outlen} bytes out'
            if out != 'stopped':
                R.fail('long lengths', f.loc, f'{nm}: only {len(log)} permutation calls')
                continue
            R.safe('sponge accesses', c.m)
            if which == 'in':
                _, perms = spec_sponge(rate, rate * k + 1, 32)
            else:
                _, perms = spec_sponge(rate, inlen, rate * k)
            for i in range(k):
                R.same('long lengths', f.loc, log[i], perms[i], f'{nm}: permutation input {i}')
            if which == 'out':
                want, _ = spec_sponge(rate, inlen, rate * (k - 1))
                try:
                    got = c.get('out', 0, rate * (k - 1), c.last)
                except AnalysisError:
                    continue
                R.same('long lengths', f.loc, got, want, f'{nm}: first blocks')
    return R


def cases(fn, tier):
    r = RATE[fn]
    cs = []
    for k in range(r):
        cs += [(k, 32), (r + k, 32)]
        if tier == 'thorough' or k in (0, 1, 2, 7, 8, r // 2, r - 9, r - 8, r - 2, r - 1):
            cs += [(2 * r + k, 64), (3 * r + k, 24)]
    hi = 2 * r + 9 if tier == 'thorough' else r + 9
    for o in range(0, hi):
        cs.append((96, o))
    for o in (2 * r - 1, 2 * r, 2 * r + 1, 3 * r - 1, 3 * r, 3 * r + 1):
        cs += [(5, o), (r, o)]
    for i in (r - 1, r, r + 1):
        for o in (24, 64, r - 1, r, r + 1):
            cs.append((i, o))
    return sorted(set(cs))
