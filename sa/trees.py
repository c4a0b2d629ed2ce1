"""Tree-hash routines of the compact implementation: finding them in the call graph, learning what each parameter is for,
and a summary of their effect to be used at call sites."""
from . import term as t, spec, cg
from .term import const, c64
from .exec import AnalysisError, State
from .models import Ctx, pick, words, wtag, read_params
from .mem import Content

SIGNERS = {'wots_sign', 'hash_message', 'randombytes'}


def is_tree(prog, fn):
    """Builds nodes from leaves, and does nothing else a signer does."""
    memo = prog.__dict__.setdefault('_istree', {})
    k = cg.key(fn)
    if k not in memo:
        r = cg.reach_names(prog, fn)
        memo[k] = fn.internal and 'gen_leaf_wots' in r and fn.name != 'gen_leaf_wots' and not (r & SIGNERS)
    return memo[k]


def is_routine(prog, fn):
    """Does the whole of a tree: the function with the loop over the leaves, or the one that starts the recursion."""
    if not is_tree(prog, fn) or cg.recursive(prog, fn):
        return False
    return cg.has_loop(fn) or any(is_tree(prog, g) and cg.recursive(prog, g) for g in cg.callees(prog, fn) if not isinstance(g, str))


class Roles:
    """Parameter positions: root, path, seed, pub, addr as (position, offset); leaf: position; scratch: words of addr written."""
    def __init__(self):
        self.root = self.path = self.seed = self.pub = self.addr = None
        self.leaf = None
        self.addr_written = False


SMALL = 2


def learn(prog, fn, p):
    """Runs the analysis on a tree of four leaves with distinct unknown arguments."""
    memo = prog.__dict__.setdefault('_roles', {})
    mk = (cg.key(fn), p['n'])
    if mk in memo:
        return memo[mk]
    n = p['n']
    ints = [i for i, (nm, ty) in enumerate(fn.params) if ty.k == 'int']
    err = None
    for fixed in [None] + ints:
        try:
            r = _learn(prog, fn, p, fixed)
            memo[mk] = r
            return r
        except AnalysisError as e:
            err = e
    raise AnalysisError(f'{fn.name}: cannot tell the roles of its parameters ({err})')


def _learn(prog, fn, p, fixed):
    n = p['n']
    q = dict(p, tree_height=SMALL)
    c = Ctx(prog, q, pick('gen_leaf_wots', 'thash_h'), limit=400000, unroll=40)
    args, regs, syms = [], {}, {}
    for i, (nm, ty) in enumerate(fn.params):
        if ty.k == 'ptr':
            if fn.ptypes and fn.ptypes[i] and 'params' in fn.ptypes[i] or (not fn.ptypes and i == 0):
                args.append(c.p)
                continue
            rid = f'arg{i}'
            c.buf(rid, None)
            regs[i] = rid
            args.append(t.ptr(rid, 0))
        elif fixed == i:
            args.append(const(ty.w, SMALL))
        else:
            s = t.sym(ty.w, f'arg{i}')
            syms[i] = s
            args.append(s)
    for i, rid in regs.items():
        c.m.regions[rid].watch = True
    ret, out = c.m.call(fn, args, c.st)
    if out is None:
        raise AnalysisError('does not return')
    leaf = [e for e in c.m.events if e.name == 'gen_leaf_wots']
    if not leaf:
        raise AnalysisError('computes no leaf')
    R = Roles()
    e = leaf[0]
    byasym = {t.asym(rid): i for i, rid in regs.items()}

    def where(bs):
        bs = t.norm(bs)
        if len(bs) == 1 and bs[0][0] in byasym and bs[0][2] == n and isinstance(bs[0][1], int):
            return byasym[bs[0][0]], bs[0][1]
        return None
    R.seed, R.pub = where(e.args['seed']), where(e.args['pub'])
    lw = e.args['ow'][:3]
    written = {}
    for mode, rid, off, k, g, w, _ in c.m.watch_log:
        if mode == 'w':
            written.setdefault(int(rid[3:]), []).append((off, k))
    for i, rid in regs.items():
        a = t.asym(rid)
        for o in range(0, 96, 4):
            if all(lw[j] is t.word_of(((a, o + 4 * j, 4),), 4) for j in range(3)):
                R.addr = (i, o)
                break
    outs = []
    for i in written:
        if R.addr and i == R.addr[0]:
            R.addr_written = True
            continue
        outs.append(i)
    # the path holds one node per level, the root a single one
    ext = {}
    for i in outs:
        his = []
        for off, k in written[i]:
            if off.op != 'const' or not isinstance(k, int):
                raise AnalysisError('result at an unknown place')
            his.append((off.a, off.a + k))
        ext[i] = (min(x for x, _ in his), max(y for _, y in his))
    if len(outs) != 2:
        raise AnalysisError(f'{len(outs)} results instead of root and path')
    outs.sort(key=lambda i: ext[i][1] - ext[i][0])
    R.root, R.path = (outs[0], ext[outs[0]][0]), (outs[1], ext[outs[1]][0])
    cand = []
    body = t.norm(out.mem[regs[R.path[0]]].read(R.path[1], SMALL * n, regs[R.path[0]]))
    from .report import contains
    for i in syms:
        if contains(body, lambda y: y is syms[i]):
            cand.append(i)
    if len(cand) == 1:
        R.leaf = cand[0]
    elif len(syms) == 1:
        R.leaf = next(iter(syms))
    if None in (R.seed, R.pub, R.addr, R.leaf):
        raise AnalysisError('unrecognised parameters')
    return R


def summary(m, fn, args, st, p):
    """Effect of a tree-hash routine: root and path as uninterpreted functions of its inputs."""
    R = learn(m.prog, fn, p)
    n, h = p['n'], p['tree_height']
    at = lambda ro: t.add(args[ro[0]], c64(ro[1]))
    seed = t.norm(m.read(st, at(R.seed), n))
    pub = t.norm(m.read(st, at(R.pub), n))
    w = words(m, st, at(R.addr), 3)
    leaf = args[R.leaf]
    leaf = t.extract(leaf, 0, 32) if leaf.w > 32 else t.zext(leaf, 32)
    e = m.event('call', 'treehash', {'fn': fn.name, 'seed': seed, 'pub': pub, 'w': w, 'leaf': leaf}, st)
    if R.addr_written:
        for k in range(3, 8):
            m.write(st, t.add(at(R.addr), c64(4 * k)), ((t.sym(32, f'scratch.w{k}'), 0, 4),))
    m.write(st, at(R.root), u_root(p, seed, pub, w))
    m.write(st, at(R.path), u_path(p, seed, pub, w, leaf))
    return e


def u_root(p, seed, pub, w):
    return ((t.auf('mroot' + wtag(p) + f",{p['tree_height']}", (t.norm(seed), t.norm(pub)) + tuple(w), p['n']), 0, p['n']),)


def u_path(p, seed, pub, w, leaf):
    k = p['n'] * p['tree_height']
    return ((t.auf('mpath' + wtag(p) + f",{p['tree_height']}", (t.norm(seed), t.norm(pub)) + tuple(w) + (leaf,), k), 0, k),)


def hook(p):
    def f(m, fn, args, st, ins):
        if not is_routine(m.prog, fn):
            return None                 # a wrapper is looked through
        e = summary(m, fn, args, st, p)
        return const(ins.ty.w, 0) if ins.dst else True
    return f
