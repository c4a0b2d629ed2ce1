"""Groups: key generation of both implementations."""
from . import term as t, spec, trees, bds
from .term import const, c64
from .exec import AnalysisError
from .ir import program
from .models import Ctx, pick
from .report import Report, Sampler
from .g_basic import params_of
from .confine import confined
from . import g_fast as gf

C32 = spec.c32


class Keygen:
    """One abstract run of key generation into buffers of unknown content."""

    def __init__(self, prog, p, fn, models, hook, seed=None):
        self.p = p
        c = self.c = Ctx(prog, p, models)
        c.buf('pk', 2 * p['n'], desc='the public key')
        c.buf('sk', p['sk_bytes'], desc='the secret key')
        c.m.opaque_fn = hook
        args = [c.p, t.ptr('pk', 0), t.ptr('sk', 0)]
        if seed:
            args.append(c.buf('seed', seed, desc='the seed'))
        self.ret, self.out = c.call(fn, args)
        self.m = c.m

    def part(self, buf, off, k):
        return t.norm(self.c.get(buf, off, k))

    def keys(self):
        n, ib = self.p['n'], self.p['index_bytes']
        return [self.part('sk', ib + i * n, n) for i in range(4)]


def fresh(R, x, f, W, only=None):
    """Secret seed, PRF key and public seed are disjoint pieces of what was drawn."""
    p, n = x.p, x.p['n']
    drawn = {e.res: e for e in x.m.events if e.name == 'randombytes'}
    seed, prf, root, pub = x.keys()
    got = []
    for what, b in (('secret seed', seed), ('PRF key', prf), ('public seed', pub)):
        one = len(b) == 1 and isinstance(b[0][1], int) and b[0][2] == n
        if only is not None:
            ok = one and b[0][0] is only
            R.check('fresh seeds', f.loc, ok, f'{W}: the {what} is not one piece of the given seed: {t.show(b)[:300]}')
        else:
            ok = one and b[0][0] in drawn
            R.check('fresh seeds', f.loc, ok,
                    f'{W}: the {what} is not {n} bytes drawn from the random source in this call: {t.show(b)[:300]}')
            if ok:
                e = drawn[b[0][0]]
                R.holds('fresh seeds', e.loc, e.cond, f'{W}: whether the random source is asked for the {what}', ())
        if ok:
            for w2, s2, o2 in got:
                R.check('fresh seeds', f.loc, s2 is not b[0][0] or abs(o2 - b[0][1]) >= n,
                        f'{W}: the {what} and the {w2} are drawn from the same random bytes')
            got.append((what, b[0][0], b[0][1]))


def common(R, x, f, W):
    """What both implementations owe; returns False when nothing was produced."""
    p, n, ib = x.p, x.p['n'], x.p['index_bytes']
    R.use(x.m)
    if x.out is None:
        R.fail('key generation result', f.loc, f'{W}: does not return')
        return False
    R.safe('key generation accesses', x.m)
    R.same('key generation result', f.loc, x.ret, const(32, 0), f'{W}: result')
    R.same('index zero', f.loc, x.part('sk', 0, ib), ((0, 0, ib),), f'{W}: index in the secret key')
    seed, prf, root, pub = x.keys()
    R.same('keys agree', f.loc, x.part('pk', n, n), pub, f'{W}: public seed in the public key')
    where = {}
    for b in (seed, prf):
        for s, o, k in b:
            if isinstance(s, t.A) and s.op == 'asym' and isinstance(o, int) and isinstance(k, int):
                where.setdefault(s.a, []).append((o, o + k))
    confined(R, x.m, x.out, f.loc, W, where, own=('sk', 'seed'), ret=x.ret)
    R.same('keys agree', f.loc, x.part('pk', 0, n), root, f'{W}: root in the public key')
    return True


def top(p):
    return spec.tree_words(p['d'] - 1, c64(0))


def g_keygen_ref(name, mt, oid):
    R = Report(f'keygen/ref/{name}')
    prog = program('ref')
    p = params_of(prog, mt, oid)
    models = pick('wots_sign', 'prf', 'hash_message', 'randombytes', 'thash_h', 'gen_leaf_wots')
    fn = 'xmssmt_core_keypair' if mt else 'xmss_core_keypair'
    f = prog.func(fn)
    x = Keygen(prog, p, fn, models, trees.hook(p))
    W = f'{fn} ({name})'
    if common(R, x, f, W):
        fresh(R, x, f, W)
        seed, prf, root, pub = x.keys()
        R.same('root of the top tree', f.loc, root, trees.u_root(p, seed, pub, top(p)), f'{W}: root')
    seeded = [g for g in prog.all_funcs() if not g.internal and g.name.endswith('_core_seed_keypair') and len(g.params) == 4]
    for g in seeded:
        if ('xmssmt' in g.name) != mt and len(seeded) > 1:
            continue
        x = Keygen(prog, p, g.name, models, trees.hook(p), 3 * p['n'])
        W = f'{g.name} ({name})'
        if common(R, x, g, W):
            fresh(R, x, g, W, t.asym('seed'))
            seed, prf, root, pub = x.keys()
            R.same('root of the top tree', g.loc, root, trees.u_root(p, seed, pub, top(p)), f'{W}: root')
    return R


class Init(bds.OpEvents):
    """The tree construction leaves the stack and leaf counters as its analysis says."""

    def __init__(self, prog, p):
        super().__init__(prog, p)
        self.keeps = counters(prog, p['n'])

    def after(self, o, f, before, new):
        if o.kind == 'treehash_init' and f in self.keeps:
            k = self.keeps[f]
            return before if k is None else const(new.w, k)
        return new


def counters(prog, n):
    """{('stackoffset',): None when kept as it was, or the constant it is set to}."""
    from .g_bds import make, Inst
    s = Inst(prog, 'treehash_init', make(n, 2), {}, (C32(2), C32(0)))
    if not s.run():
        raise AnalysisError('the tree construction does not return')
    out = {}
    for f in (('stackoffset',), ('next_leaf',)):
        if s.new[f] is s.old[f]:
            out[f] = None
        elif s.new[f].op == 'const':
            out[f] = s.new[f].a
    return out


def g_keygen_fast(name, mt, oid):
    R = Report(f'keygen/fast/{name}')
    prog = program('fast')
    p = params_of(prog, mt, oid)
    n, h, d, ib = p['n'], p['tree_height'], p['d'], p['index_bytes']
    fn = 'xmssmt_core_keypair' if mt else 'xmss_core_keypair'
    f = prog.func(fn)
    bds.require(prog, 'treehash_init', 'bds_round', 'bds_treehash_update', *(['bds_state_update'] if p['d'] > 1 else []))
    W = f'{fn} ({name})'
    L = gf.learn(prog, p, 'xmssmt_core_sign' if mt else 'xmss_core_sign', mt)
    ev = Init(prog, p)
    x = Keygen(prog, p, fn, pick('wots_sign', 'prf', 'hash_message', 'randombytes', 'thash_h', 'gen_leaf_wots',
                                 'ull_to_bytes', 'bytes_to_ull'), ev)
    if not common(R, x, f, W):
        return R
    fresh(R, x, f, W)
    seed, prf, root, pub = x.keys()
    built = {}
    for e in x.m.events:
        if e.name != 'bds':
            continue
        j = e.args['slot']
        who = gf.name_of(j, d)
        if e.args['kind'] != 'treehash_init' or j >= d or j in built:
            R.never('tree built', e.loc, e.cond, f'{W}: {e.args["kind"]} on the {who} is not due')
            continue
        built[j] = e
        R.holds('tree built', e.loc, e.cond, f'{W}: whether the {who} is built')
        R.same('tree built', e.loc, e.args['seed'], seed, f'{W}: secret seed for building the {who}')
        R.same('tree built', e.loc, e.args['pub'], pub, f'{W}: public seed for building the {who}')
        for a, w, what in zip(e.args['w'], spec.tree_words(j, c64(0)), ('layer', 'tree (high word)', 'tree (low word)')):
            R.same('tree built', e.loc, a, w, f'{W}: {what} under which the {who} is built')
        for a, w, what in zip(e.args['ints'], (h, 0), ('height', 'first leaf')):
            R.same('tree built', e.loc, a, const(a.w, w), f'{W}: {what} given when the {who} is built')
        for fl in (('stackoffset',), ('next_leaf',)):
            v = e.args['after'][fl]
            R.same('tree built', e.loc, v, const(v.w, 0), f'{W}: {fl[0]} of the {who} once built')
    for j in range(d):
        R.check('tree built', f.loc, j in built, f'{W}: the {gf.name_of(j, d)} is not built')
    if len(built) < d:
        return R
    R.same('root of the top tree', f.loc, root, ((built[d - 1].res, 0, n),), f'{W}: root')
    # stored state
    for j in range(2 * d - 1):
        for fl in bds.fields(p):
            if (j, fl) not in L.pos:
                continue
            o, k = L.pos[j, fl]
            if o + k > p['sk_bytes']:
                continue
            got = x.part('sk', o, k)
            if j < d:
                v = built[j].args['after'][fl]
                want = t.be_bytes(v if v.w >= 8 * k else t.zext(v, 8 * k), k) if fl[0] in bds.STORE else v
                if fl[0] in bds.STORE and v.w > 8 * k:
                    want = t.be_bytes(v, k)
            elif fl in (('stackoffset',), ('next_leaf',)):
                want = ((0, 0, k),)
            else:
                continue
            R.same('state stored', f.loc, got, t.norm(want), f'{W}: {" ".join(map(str, fl))} of the {gf.name_of(j, d)} in the key')
    if d > 1:
        at = stored_at(prog, p, mt, L)
        for l in range(1, d):
            got = x.part('sk', at[l], p['wots_sig_bytes'])
            want = spec.u_wotssig(p, ((built[l - 1].res, 0, n),), seed, pub, spec.tree_words(l, c64(0)) + (C32(0), C32(0)))
            R.same('root signed', f.loc, got, want, f'{W}: stored one-time signature of layer {l}')
    return R


def stored_at(prog, p, mt, L):
    """Where the signer takes the stored one-time signatures from."""
    if not hasattr(L, 'wots'):
        R = Report('layout')
        ml = t.sym(64, 'mlen', 0, 2 ** 60)
        b, idx, lo, hi, bits = gf.classes(p)[0]
        fn = 'xmssmt_core_sign' if mt else 'xmss_core_sign'
        x = gf.FastRun(prog, p, fn, idx, ml, gf.body(p, L))
        ex = gf.exact_with(L)
        ex(R, x, prog.func(fn), '', p, idx, ((t.asym('m'), 0, ml),), ml, x.c.get('sm', 0, t.addc(ml, p['sig_bytes'])), (),
           gf.class_sampler(p, b, lo, hi, bits, ml, 1))
    for l in range(1, p['d']):
        if l not in L.wots:
            raise AnalysisError(f'place of the stored one-time signature of layer {l} not recognised')
    return L.wots
