"""The stateful implementation's traversal state: its structs, the operations on it, and a specification-level copy of it."""
from . import term as t, cg
from .term import const, c64
from .exec import AnalysisError
from .ir import struct_members, struct_names
from .models import words
from .mem import _u

OPS = ('treehash_init', 'treehash_update', 'bds_treehash_update', 'bds_state_update', 'bds_round')
SIGNERS = {'wots_sign', 'hash_message', 'randombytes'}


STATE = {'stack': 1, 'stackoffset': 0, 'stacklevels': 1, 'auth': 1, 'keep': 1, 'treehash': 2, 'retain': 1, 'next_leaf': 0}
INST = {'h': 0, 'next_idx': 0, 'stackusage': 0, 'completed': 0, 'node': 1}      # 0: number, 1: bytes, 2: instances


def shaped(u, want, usual, inst):
    """({member: (offset, size)}, type name) of a struct of the known members; renamed ones by kind and order."""
    names = struct_names(u)
    best = None
    for nm in ([usual] if usual in names else []) + [x for x in names if x != usual]:
        types = {}
        mem = struct_members(u, nm, types)
        if not mem:
            continue
        known = [k for k in want if k in mem]
        if len(known) < len(want) and len(mem) != len(want):
            continue
        out = {k: mem[k] for k in known}
        ok = True
        for kind in (0, 1, 2):
            new = [k for k in want if k not in mem and want[k] == kind]
            ms = [k for k in mem if k not in want and
                  (2 if types[k].rstrip('*') in inst else 1 if types[k].endswith('*') else 0) == kind]
            if new and len(new) != len(ms):
                ok = False
                break
            out.update((a, mem[b]) for a, b in zip(new, ms))
        if ok and (best is None or len(known) > best[0]):
            best = len(known), out, nm
    return (best[1], best[2]) if best else (None, None)


class Lay:
    """Field offsets of the state structs, from debug information."""

    def __init__(self, prog):
        self.st = None
        for u in prog.units:
            b, bn = shaped(u, INST, 'treehash_inst', ())
            a, an = shaped(u, STATE, 'bds_state', (bn,)) if b else (None, None)
            if a and b:
                self.st, self.th, self.unit, self.stname, self.thname = a, b, u, an, bn
        if self.st is None:
            raise AnalysisError('the traversal state structs were not found')
        up = lambda d: -(-max(o + s for o, s in d.values()) // 8) * 8
        self.ssize, self.tsize = up(self.st), up(self.th)


def lay(prog):
    if '_baylay' not in prog.__dict__:
        prog.__dict__['_baylay'] = Lay(prog)
    return prog.__dict__['_baylay']


def sizes(p):
    """Bytes of each memory part of a tree's state."""
    n, h, k = p['n'], p['tree_height'], p.get('bds_k', 0)
    return {'stack': (h + 1) * n, 'stacklevels': h + 1, 'auth': h * n, 'keep': (h >> 1) * n,
            'retain': ((1 << k) - k - 1) * n}


def levels(p):
    return p['tree_height'] - p.get('bds_k', 0)


def passed_on(prog, fn, name, deep=4):
    """{argument index of `name`: {parameters of fn handed on to it as they are, through further functions}}."""
    memo = prog.__dict__.setdefault('_passed', {})
    k = cg.key(fn), name
    if k in memo:
        return memo[k]
    memo[k] = out = {}
    if deep <= 0:
        return out
    mine = {nm: i for i, (nm, ty) in enumerate(fn.params)}
    for b in fn.blocks.values():
        for ins in b.insts:
            if ins.op != 'call' or not isinstance(ins.x, str):
                continue
            g = prog.find(fn.unit, ins.x)
            fwd = {j: {j} for j in range(len(ins.a))} if ins.x == name else \
                passed_on(prog, g, name, deep - 1) if g is not None else {}
            for j, froms in fwd.items():
                for q in froms:
                    x = ins.a[q][1] if q < len(ins.a) else None
                    if isinstance(x, str) and x in mine:
                        out.setdefault(j, set()).add(mine[x])
    return out


class Op:
    """A function that advances a tree's state: what it is and what its parameters are."""

    def __init__(self, prog, fn):
        self.fn = fn
        pt = fn.ptypes or []
        one = lambda s: next((i for i, x in enumerate(pt) if x.startswith(s)), None)
        self.params, self.state, self.th = one('xmss_params'), one(lay(prog).stname), one(lay(prog).thname)
        ints = [i for i, (nm, ty) in enumerate(fn.params) if ty.k == 'int']
        ptrs = [i for i, (nm, ty) in enumerate(fn.params) if ty.k == 'ptr' and i not in (self.params, self.state, self.th)]
        leaf, sub = passed_on(prog, fn, 'gen_leaf_wots'), passed_on(prog, fn, 'copy_subtree_addr')

        def role(m, j, pick):
            """The parameter the callee gets as its j-th argument; by type, name and place where the code does not say."""
            q = m.get(j, set()) & set(ptrs)
            if len(q) == 1:
                i = q.pop()
            elif q:
                return None
            else:
                i = pick([i for i in ptrs])
            if i is not None:
                ptrs.remove(i)
            return i
        is_word = lambda i: pt[i].startswith('uint32_t') or pt[i].startswith('unsigned int*') or pt[i].startswith('int*')
        only = lambda q: q[0] if len(q) == 1 else None
        nm = lambda q, s: only([i for i in q if s in fn.pnames[i]])
        self.addr = role(sub, 1, lambda q: only([i for i in q if is_word(i)]) or nm(q, 'addr'))
        self.pub = role(leaf, 3, lambda q: nm(q, 'pub'))
        self.seed = role(leaf, 2, lambda q: nm(q, 'seed'))
        self.node = self.count = None
        rest = list(ptrs)
        if fn.name in OPS:
            self.kind = fn.name
        elif self.th is not None:
            self.kind = 'treehash_update'
        elif len(ints) == 2:
            self.kind = 'treehash_init'
        elif len(ints) == 1:
            self.kind = 'bds_treehash_update' if fn.ret.k == 'int' else 'bds_round'
        else:
            self.kind = 'bds_state_update'
        ok = None not in (self.params, self.state, self.addr, self.seed, self.pub)
        self.level = None            # a tree-hash instance may be given by its number
        if self.kind == 'treehash_init':
            ok = ok and len(rest) == 1 and len(ints) <= 2
            if ok:
                self.node = rest.pop()
            if len(ints) == 2 and 'index' in fn.pnames[ints[0]] + '' and 'height' in fn.pnames[ints[1]]:
                ints.reverse()
        elif self.kind == 'treehash_update':
            if self.th is None and len(ints) == 1:
                self.level, ints = ints[0], []
            ok = ok and (self.th is not None or self.level is not None) and not ints
        elif self.kind == 'bds_treehash_update':
            if len(ints) == 0 and len(rest) == 1 and is_word(rest[0]):
                self.count = rest.pop()      # the number of updates left is kept with the caller
                ok = ok and fn.ret.k != 'int'
            else:
                ok = ok and len(ints) == 1 and fn.ret.k == 'int'
        elif self.kind == 'bds_round':
            ok = ok and len(ints) == 1
        else:
            ok = ok and not ints
        self.ints = ints
        self.ok = ok and not rest and (self.kind == 'treehash_update' or self.th is None)


def ops(prog):
    """{key: Op} of the operations, by name where the names are known, else by shape."""
    memo = prog.__dict__.setdefault('_bdsops', None)
    if memo is None:
        named, other = {}, {}
        st = lay(prog).stname
        for f in prog.all_funcs():
            if not f.internal or not any(x.startswith(st) for x in (f.ptypes or [])):
                continue
            r = cg.reach_names(prog, f)
            if 'gen_leaf_wots' not in r or r & SIGNERS:
                continue
            (named if f.name in OPS else other)[cg.key(f)] = f
        memo = {}
        for k, f in named.items():
            o = Op(prog, f)
            if o.ok:
                memo[k] = o
        have = {o.kind for o in memo.values()}
        for k, f in other.items():
            o = Op(prog, f)
            if o.ok and o.kind not in have:
                memo[k] = o
        prog.__dict__['_bdsops'] = memo
    return memo


def require(prog, *kinds):
    """Without these operations the callers cannot be told apart from them."""
    for k in kinds:
        op(prog, k)


def returns_used(prog):
    """Does the update of instances return how many updates it did, instead of how many are left?"""
    memo = prog.__dict__
    if '_returns_used' not in memo:
        from .g_bds import make, Inst
        p = make(32, 4)
        s = Inst(prog, 'bds_treehash_update', p, {('completed', k): const(8, 1) for k in range(levels(p))}, (const(32, 1),))
        memo['_returns_used'] = s.cell is None and s.run() and s.ret.op == 'const' and s.ret.a == 0
    return memo['_returns_used']


def grow_returns(prog):
    """What the growth step returns for a tree that has all its leaves and for another one, where these are constants."""
    memo = prog.__dict__
    if '_grow_returns' not in memo:
        from .g_bds import make, Inst
        memo['_grow_returns'] = None
        p = make(32, 4)
        r = []
        try:
            for leaf, off in ((16, 1), (0, 0), (1, 1), (2, 1), (7, 3)):
                v = {('next_leaf',): const(32, leaf), ('stackoffset',): const(32, off)}
                if leaf < 16:
                    v['stacklevels',] = t.norm(tuple((const(8, x), 0, 1) for x in range(off - 1, -1, -1)) + ((t.asym('old.lv'), 0, 5 - off),))
                s = Inst(prog, 'bds_state_update', p, v)
                if not s.run():
                    return None
                r.append(s.ret)
        except AnalysisError:
            return None
        if all(x is not None and x.op == 'const' for x in r) and len({(x.w, x.a) for x in r[1:]}) == 1:
            memo['_grow_returns'] = (r[0], r[1])
    return memo['_grow_returns']


def op(prog, kind):
    for o in ops(prog).values():
        if o.kind == kind:
            return o
    raise AnalysisError(f'no function of the shape of {kind} found')


# ------------------------------------------------------------------ state as values
SCAL = ('stackoffset', 'next_leaf')
TSCAL = ('h', 'next_idx', 'stackusage', 'completed')
STORE = {'stackoffset': 4, 'next_leaf': 4, 'h': 1, 'next_idx': 4, 'stackusage': 1, 'completed': 1}


def fields(p):
    """Names of all parts: ('stack',), ..., ('node', k)."""
    out = [('stack',), ('stackoffset',), ('stacklevels',), ('auth',), ('keep',), ('retain',), ('next_leaf',)]
    for k in range(levels(p)):
        out += [(x, k) for x in TSCAL] + [('node', k)]
    return out


def fsize(p, f):
    if f[0] == 'node':
        return p['n']
    return STORE.get(f[0]) or sizes(p).get(f[0], 0)


def load(m, st, ptr, off, size):
    return t.word_of(m.read(st, t.add(ptr, c64(off)), size, 'read'), size)


class View:
    """One state struct in memory: where its parts are."""

    def __init__(self, m, st, ptr, p, L):
        self.m, self.p, self.L, self.ptr = m, p, L, ptr
        self.at = {}
        g = lambda k: load(m, st, ptr, L.st[k][0], 8)
        for k in ('stack', 'stacklevels', 'auth', 'keep', 'retain'):
            self.at[k,] = g(k)
        for k in SCAL:
            self.at[k,] = t.add(ptr, c64(L.st[k][0]))
        th = g('treehash')
        for i in range(levels(p)):
            b = t.add(th, c64(i * L.tsize))
            for k in TSCAL:
                self.at[k, i] = t.add(b, c64(L.th[k][0]))
            self.at['node', i] = load(m, st, b, L.th['node'][0], 8)
        self.th = th

    def width(self, f):
        return (self.L.st if len(f) == 1 else self.L.th)[f[0]][1]

    def get(self, st, f):
        if f[0] in STORE:
            w = self.width(f)
            return t.word_of(self.m.read(st, self.at[f], w), w)
        k = fsize(self.p, f)
        return t.norm(self.m.read(st, self.at[f], k)) if k else ()

    def put(self, st, f, v):
        if f[0] in STORE:
            self.m.write(st, self.at[f], ((v, 0, self.width(f)),))
        elif fsize(self.p, f):
            self.m.write(st, self.at[f], tuple(v))

    def all(self, st):
        return {f: self.get(st, f) for f in fields(self.p)}


def limits(p, f):
    """Largest value of a counter in a well-formed state."""
    h = p['tree_height']
    return {'stackoffset': h + 1, 'next_leaf': 1 << h, 'h': h, 'next_idx': (1 << h), 'stackusage': h + 1, 'completed': 1}[f[0]]


def fresh(p, f, w, tag):
    nm = f'{tag}.' + '.'.join(map(str, f))
    if f[0] in STORE:
        return t.sym(8 * w, nm, 0, limits(p, f))
    return ((t.asym(nm), 0, fsize(p, f)),)


class OpEvents:
    """Hook: every operation becomes an event and leaves its tree's state unknown."""

    def __init__(self, prog, p, inside=()):
        self.prog, self.p, self.L = prog, p, lay(prog)
        self.ops = ops(prog)
        self.count = 0
        self.inside = set(inside)
        self.entry = None
        self.nslots = 2 * p['d'] - 1

    def after(self, o, f, before, new):
        return new

    def __call__(self, m, fn, args, st, ins):
        o = self.ops.get(cg.key(fn))
        if o is None or o.kind in self.inside:
            return None
        p, n = self.p, self.p['n']
        sp = args[o.state]
        tg = m.targets(sp, st)
        if len(tg) != 1 or tg[0][1] is None or tg[0][2].op != 'const':
            raise AnalysisError(f'{m.where()}: operation on a state that depends on the input')
        _, rid, off = tg[0]
        off = off.a
        if off % self.L.ssize:
            raise AnalysisError(f'{m.where()}: misplaced state pointer')
        slot = off // self.L.ssize
        if slot >= self.nslots or off >> 63:
            m.issue('oob', f'state {slot if off >> 63 == 0 else "before the first"} of {self.nslots} is used', t.TRUE, st)
            return None
        if self.entry is None:
            self.entry = {j: View(m, st, t.ptr(rid, j * self.L.ssize), p, self.L) for j in range(self.nslots)}
            self.initial = {j: v.all(st) for j, v in self.entry.items()}
            self.rid = rid
        v = View(m, st, sp, p, self.L)
        self.count += 1
        cell = args[o.count] if o.count is not None else None
        given = [args[i] for i in o.ints] if cell is None else [t.word_of(m.read(st, cell, 4), 4)]
        if o.kind == 'treehash_init':
            given = (given + [const(32, p['tree_height']), const(32, 0)][len(given):])
        a = {'kind': o.kind, 'slot': slot, 'seed': t.norm(m.read(st, args[o.seed], n)),
             'pub': t.norm(m.read(st, args[o.pub], n)), 'w': words(m, st, args[o.addr], 3),
             'ints': given}
        e = m.event('call', 'bds', a, st)
        e.args['before'] = v.all(st)
        tag = f'op{self.count}'
        new = {}
        for f in fields(p):
            new[f] = self.after(o, f, e.args['before'][f], fresh(p, f, v.width(f) if f[0] in STORE else 0, tag))
            v.put(st, f, new[f])
        e.args['after'] = new
        if o.node is not None:
            e.res = t.asym(f'{tag}.root')
            m.write(st, args[o.node], ((e.res, 0, n),))
        if cell is not None:
            r = t.sym(32, f'{tag}.ret', 0, given[0].hi if given[0].hi < 2 ** 32 - 1 else None)
            m.write(st, cell, ((r, 0, 4),))
            e.args['ret'] = r
        elif ins.dst:
            hi = None
            if o.kind == 'bds_treehash_update':
                arg = args[o.ints[0]]
                hi = arg.hi if arg.hi <= 127 else None
            r = t.sym(ins.ty.w, f'{tag}.ret', 0, hi)
            if o.kind == 'bds_state_update' and grow_returns(self.prog):
                full, other = grow_returns(self.prog)
                nl = e.args['before']['next_leaf',]
                r = t.ite(t.eq(nl, const(nl.w, 1 << p['tree_height'])), full, other)
            e.args['ret'] = r
            return r
        return True
