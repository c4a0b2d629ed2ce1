"""Group: the random source, against an operating system that answers reads in every possible way."""
import random
from . import term as t
from .term import const, c64
from .ir import program, AnalysisError
from .exec import State, Frame
from .mem import Content
from .paths import PathMachine, Explorer, End, cstring, dominates
from .direct import directed, satisfy
from .report import Report, SEED

DEVICES = ('/dev/urandom', '/dev/random')
LENS = [0, 1, 2, 3, 5, 32, 64, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 1048575, 1048576, 1048577, 2097152,
        2097153, 3 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 33) + 3000000000, (1 << 40) - 9, 1 << 40]


class World:
    """The operating system of one path."""

    def __init__(self, prog, ex, opens, reads):
        self.m = PathMachine(prog, self.models(), ex, limit=200000)
        self.st = State()
        self.opens, self.reads = opens, reads
        self.handles = []
        self.obl = []                # (rule, where, kind, term or flag, message, guard)
        self.steps = []              # what was answered, in order, for the sampler
        self.calls = []
        self.m.on_header = self.header
        self.m.loop_hook = self.branch
        self.conds = []              # branches taken on undecided conditions: (depth, function, block, condition)
        self.seen = {}
        self.jumped = 0
        self.must = None             # the loop that has to go on: (depth, function, header, its blocks)
        for g in prog_statics(prog):
            self.m.static(self.st, g.unit, g.name)

    def models(self):
        errno = lambda m, a, st: self.errno(m, st)
        nop = lambda m, a, st: const(32, 0)
        return {'open': self.open, 'open64': self.open, 'read': self.read, 'getrandom': self.getrandom,
                'getentropy': self.getentropy, 'sleep': nop, 'usleep': nop, 'nanosleep': nop, 'sched_yield': nop,
                'close': self.close, '__errno_location': errno, 'perror': nop, 'fprintf': nop, 'fputs': nop,
                'exit': self.exit, '_exit': self.exit, 'abort': self.exit, 'fcntl': nop}

    def errno(self, m, st):
        if 'errno' not in m.regions:
            m.region('errno', 4, None, state=st)
        self.nerr = getattr(self, 'nerr', 0) + 1
        st.mem['errno'] = Content(None, [], st.tok)
        m.store(st, 'errno', c64(0), 4, ((t.sym(32, f'errno{self.nerr}', 1, 200), 0, 4),))
        return t.ptr('errno', 0)

    def exit(self, m, a, st):
        raise End('exit')

    def close(self, m, a, st):
        fd = t.trunc(a[0], 32)
        self.handles = [h for h in self.handles if h is not fd]
        return const(32, 0)

    def open(self, m, a, st):
        e = m.event('call', 'open', {}, st)
        self.must = None
        path = cstring(m, st, a[0])
        self.obl.append(('random device', e.loc, 'flag', path in DEVICES, f'opens {path!r}, which is not the system random device', st.guard))
        if self.opens <= 0 or m.choose(2, 'open') == 0:
            h = t.sym(32, f'fd{len(self.handles)}_{len(m.events)}', 0, 2 ** 31 - 1)
            self.handles.append(h)
            return h
        self.opens -= 1
        return const(32, -1)

    def take(self, m, st, buf, n, kinds):
        e = m.event('call', 'read', {}, st)
        self.must = None
        if self.reads <= 0:
            raise End('cut')
        self.reads -= 1
        rid, L, R = self.rid, self.L, self.R
        if buf.op != 'ptr' or buf.a[0] != rid:
            self.obl.append(('filled in order', e.loc, 'lost', None, f'reads into {t.show(buf)}, not into the buffer', st.guard))
        else:
            self.obl.append(('filled in order', e.loc, 'same', (buf.a[1], R),
                             'the next bytes are not stored right after the ones delivered so far', st.guard))
            self.obl.append(('inside the buffer', e.loc, 'never', t.ult(t.sub(L, R), n),
                             'asks for more bytes than the buffer has room for', st.guard))
        out = kinds[m.choose(len(kinds), 'read')]
        if out == 'fail':
            self.steps.append(('fail',))
            return const(64, -1)
        if out == 'none':
            self.steps.append(('none',))
            return const(64, 0)
        k = t.sym(64, f'k{len(self.steps)}', 1, 0x7ffff000)          # no Linux read delivers more
        m.fact(t.ult(n, k), False, st)
        self.steps.append(('got', k, n))
        self.R = t.add(R, k)
        return k

    def read(self, m, a, st):
        fd = t.trunc(a[0], 32)
        f = m.frames[-1]
        ok = any(fd is h for h in self.handles)
        if not ok:
            self.obl.append(('random device', m.where(), 'never' if fd.op != 'const' else 'flag',
                             t.TRUE if fd.op != 'const' else False,
                             f'reads from a descriptor that is not an open random device: {t.show(fd)}', st.guard))
        return self.take(m, st, a[1], a[2], ('some', 'none', 'fail'))

    def getrandom(self, m, a, st):
        return self.take(m, st, a[0], a[1], ('some', 'fail'))

    def getentropy(self, m, a, st):
        if m.choose(2, 'getentropy'):
            return const(32, -1)
        e = m.event('call', 'read', {}, st)
        self.must = None
        self.steps.append(('all', a[1]))
        self.obl.append(('filled in order', e.loc, 'same', (a[0], t.ptr(self.rid, self.R)),
                         'the next bytes are not stored right after the ones delivered so far', st.guard))
        self.obl.append(('inside the buffer', e.loc, 'never', t.ult(t.sub(self.L, self.R), a[1]),
                         'asks for more bytes than the buffer has room for', st.guard))
        self.obl.append(('inside the buffer', e.loc, 'never', t.ult(c64(256), a[1]), 'getentropy gives at most 256 bytes', st.guard))
        self.R = t.add(self.R, a[1])
        return const(32, 0)

    # ---- loops
    def branch(self, m, blk, arms, st):
        n = len(st.guard)
        r = m._branch(m, blk, arms, st)
        f = m.frames[-1].fn if m.frames else None
        self.conds += [(len(m.frames), f, blk.name, c) for c in r[1].guard[n:]]
        return r

    def header(self, m, fn, b, visit, st, prev):
        if self.must is not None:
            depth, f, h, body = self.must
            if len(m.frames) < depth or (len(m.frames) == depth and b not in body):
                # the states in which the loop ends are reached by a last round from one of those in which it goes on
                raise End('left')
            if len(m.frames) == depth and b == h:
                self.must = None
        if visit > 1 and not dominates(fn, b, prev):
            return
        phis = fn.blocks[b].phis
        key = (len(m.frames), fn.name, b)
        vals = {ph.dst: st.env[ph.dst] for ph in phis}
        vals.update(self.cells(st))
        if visit == 1:
            self.seen[key] = (vals, self.R, len(self.steps), False, len(self.conds))
            return
        if key not in self.seen:
            return
        old, R0, n0, acc, c0 = self.seen[key]
        self.seen[key] = (vals, self.R, len(self.steps), acc, len(self.conds))
        if acc or visit > 2:
            return
        got = [s for s in self.steps[n0:] if s[0] == 'got']
        if len(got) > 1:
            return
        new = {}
        K = t.sym(64, f'K{len(self.steps)}', 0, 2 ** 62) if got else None
        N = t.sym(64, f'N{len(self.steps)}', 0, 2 ** 20)
        change = data = False
        for dst in vals:
            a, v = old.get(dst), vals[dst]
            if a is None:
                return
            if a is v:
                continue
            if a.op == 'ptr' and v.op == 'ptr':
                if a.a[0] != v.a[0]:
                    return
                d = t.sub(v.a[1], a.a[1])
                mk = lambda x, v=v: t.ptr(v.a[0], t.add(v.a[1], x))
                w = 64
            elif a.op == 'ptr' or v.op == 'ptr' or a.w != v.w:
                return
            else:
                d = t.sub(v, a)
                mk = lambda x, v=v: t.add(v, x)
                w = v.w
            fit = lambda x: x if w == 64 else t.trunc(x, w)
            if d.op == 'const':
                new[dst] = mk(fit(t.mulc(N, t.sgn(d.a, w) if w == 64 else d.a)))
                change = True
                continue
            if got:
                for c in (1, -1):
                    if d is fit(t.mulc(got[0][1], c)):
                        new[dst] = mk(fit(t.mulc(K, c)))
                        data = change = True
                        break
                else:
                    return
                continue
            return
        if not change or bool(got) != data or self.jumped >= 1 or m.choose(2, 'repeat') == 0:
            return
        self.jumped += 1
        # any number of further rounds of the same kind
        self.steps.append(('rounds', K, N))
        if got:
            m.fact(t.ult(t.sub(self.L, self.R), K), False, st)
            m.fact(t.ult(K, N), False, st)
            self.R = t.add(self.R, K)
            body = loop_of(fn, b)
            for depth, f, blk, c in self.conds[c0:]:
                if depth == len(m.frames) and f is fn and blk in body and any(x not in body for x in fn.blocks[blk].succs):
                    # the loop goes on for the same reason as after the first round
                    m.fact(t.subst(c, {got[0][1]: t.add(got[0][1], K)}), True, st)
        for dst, v in new.items():
            if isinstance(dst, tuple):
                m.store(st, dst[1], c64(0), v.w // 8, ((v, 0, v.w // 8),))
            else:
                st.env[dst] = v
        self.seen[key] = (new and {**vals, **new} or vals, self.R, len(self.steps), True, len(self.conds))
        self.must = (len(m.frames), fn.name, b, loop_of(fn, b))

    def cells(self, st):
        """Small variables kept in memory."""
        out = {}
        for rid, r in self.m.regions.items():
            if r.size in (1, 2, 4, 8) and rid in st.mem and rid not in (self.rid, 'errno'):
                v = t.word_of(st.mem[rid].read(0, r.size, rid), r.size)
                out['cell', rid] = v
        return out

    def call(self, fn, rid, L):
        m, st = self.m, self.st
        self.rid, self.L, self.R = rid, L, c64(0)
        self.steps.append(('len', L))
        m.region(rid, L, Content(t.asym(rid), [], st.tok), state=st, desc='the buffer')
        m.regions[rid].watch = True
        w0, e0 = len(m.watch_log), len(m.events)
        args = []
        for (nm, ty), v in zip(fn.params, (t.ptr(rid, 0), L)):
            args.append(v if v.w == ty.w else t.trunc(v, ty.w))
        ret, out = m.call(fn, args, st)
        if out is None:
            raise End('dead')
        self.st = out
        self.obl.append(('complete', fn.loc, 'same', (self.R, L), 'returns before every byte has been delivered', out.guard))
        for mode, r, off, n, guard, where, seq in m.watch_log[w0:]:
            if mode == 'w' and r == rid:
                self.obl.append(('only delivered bytes', where, 'same' if self.R.op != 'const' else 'none', (t.TRUE, t.FALSE),
                                 'writes to the buffer itself', guard))


def loop_of(fn, h):
    """Blocks of the loop with header h: those it dominates and that lead back to it."""
    pred = {}
    for n, b in fn.blocks.items():
        for s in b.succs:
            pred.setdefault(s, []).append(n)
    body, todo = {h}, [p for p in pred.get(h, ()) if dominates(fn, h, p)]
    while todo:
        x = todo.pop()
        if x not in body:
            body.add(x)
            todo += pred.get(x, ())
    return body


def prog_statics(prog):
    f = prog.func('randombytes')
    return [g for g in f.unit.globals.values() if not g.const and not g.external]


class Walk:
    """Assignments consistent with the answers of one path."""

    def __init__(self, w, n):
        self.w, self.n = w, n

    paths = True

    def __iter__(self):
        return self.gen({})

    def aimed(self, impl, spec, guard=()):
        """Then again with requested lengths and read sizes that the conditions compare with."""
        bases = []
        for I in self:
            if len(bases) < 2:
                bases.append(I)
            yield I
        free = {s[1] for s in self.w.steps if s[0] in ('len', 'got')} | {x for s in self.w.steps if s[0] == 'rounds' for x in s[1:] if x is not None}
        done = []
        near = [J for J in (satisfy(guard, I, free) for I in bases) if J is not None] if guard else []
        for J in near + list(directed(impl, spec, bases + near, free, 24)):
            for I in bases:
                f = {k: v for k, v in J.vals.items() if k in free and I.vals.get(k) != v}
                if f and f not in done:
                    done.append(f)
                    yield from self.gen(f, 8)

    def gen(self, forced, n=None):
        for i in range(n or self.n):
            rnd = random.Random((SEED, i, len(self.w.steps)).__hash__() if False else SEED * 1000003 + i * 7919 + len(self.w.steps))
            vals = {}
            I = lambda: t.Interp((SEED, 'w', i), dict(vals), {})
            style = i % 4
            done = 0
            nxt = [s for s in self.w.steps]
            for j, s in enumerate(nxt):
                if s[0] == 'len':
                    if s[1] in forced:
                        vals[s[1]] = forced[s[1]]
                    elif s[1].op == 'sym':
                        vals[s[1]] = LENS[i % len(LENS)] if i < 2 * len(LENS) else rnd.choice([rnd.randrange(1, 70), rnd.randrange(1 << 21), rnd.randrange(1 << 33)])
                    L, done = I().ev(s[1]), 0
                elif s[0] == 'got':
                    n = max(1, min(I().ev(s[2]), 0x7ffff000))
                    later = any(x[0] in ('got', 'rounds') for x in nxt[j + 1:j + 4])
                    k = n if style == 0 or (style == 1 and not later) else rnd.choice([1, n, rnd.randrange(1, n + 1), max(1, n - 1)])
                    k = max(1, min(n, forced.get(s[1], k)))
                    vals[s[1]] = k
                    done += k
                elif s[0] == 'rounds':
                    left = max(0, L - done)
                    if s[1] is not None and s[1] in forced:
                        vals[s[1]] = k = min(left, forced[s[1]])
                        done += k
                    elif s[1] is not None:
                        k = rnd.choice([left, max(0, left - 1), rnd.randrange(left + 1), left // 2])
                        vals[s[1]] = k
                        done += k
                    top = min(vals.get(s[1], 1 << 20), 1 << 20) if s[1] is not None else 1 << 20
                    vals[s[2]] = min(top, forced[s[2]] if s[2] in forced else rnd.choice([0, 1, 5, 20, rnd.randrange(200), rnd.randrange(1 << 20), top]))
            yield I()


def g_random(calls=2, opens=2, reads=3):
    R = Report(f'randombytes/{calls},{opens},{reads}')
    prog = program('ref')
    fn = prog.func('randombytes')
    ex = Explorer(limit=8000)
    ends = {}
    loops = False
    seen = set()
    for _ in ex.all():
        w = World(prog, ex, opens, reads)
        why = 'returned'
        try:
            for i in range(calls):
                w.reads = reads if i == 0 else min(2, reads)
                w.call(fn, f'x{i}', t.sym(64, f'len{i}', 0, 2 ** 62))
        except End as e:
            why = e.why
        ends[why] = ends.get(why, 0) + 1
        w.m.stats['branches'] += ex.pos
        R.use(w.m)
        smp = Walk(w, 80)
        for rule, where, kind, x, msg, guard in w.obl:
            W = f'randombytes, {describe(w)}: {msg}'
            key = (rule, where, kind, msg, x, guard)
            if key in seen:
                R.ok(rule)
                continue
            seen.add(key)
            if kind == 'flag':
                if x:
                    R.ok(rule)
                else:
                    R.same(rule, where, t.FALSE, t.TRUE, W, guard, smp) if guard else R.fail(rule, where, W)
            elif kind == 'same':
                R.same(rule, where, x[0], x[1], W, guard, smp)
            elif kind == 'never':
                R.never(rule, where, x, W, guard, smp)
            elif kind == 'lost':
                R.unresolved(rule, W)
        R.safe('inside the buffer', w.m, smp)
        if len(R.viol) >= 8:
            break                     # enough to report
    if not ex.full:
        R.unresolved('complete', f'randombytes: more than {ex.paths} paths')
    R.notes.append(f'{ex.paths} paths: ' + ', '.join(f'{v} {k}' for k, v in sorted(ends.items())))
    return R


def describe(w):
    out = []
    for s in w.steps:
        if s[0] == 'got':
            out.append('a read')
        elif s[0] in ('fail', 'none'):
            out.append('a failed read' if s[0] == 'fail' else 'an empty read')
        elif s[0] == 'rounds':
            out.append('any number of further rounds')
        elif s[0] == 'len' and out:
            out.append('another request')
    return 'after ' + ', '.join(out) if out else 'at first'
