"""Path-wise abstract runs: every undecided branch and every outcome of an external call is a choice point, and all
combinations are analysed one after another (no merging), with the conditions of each path kept as facts."""
import time
from . import term as t
from .term import const, c64
from .ir import AnalysisError, sizeof
from .exec import Machine, State, NOTHANDLED
from .mem import Content, Seg


class End(Exception):
    """The path ends here (process exit, cut)."""

    def __init__(self, why, value=None):
        super().__init__(why)
        self.why, self.value = why, value


class PathMachine(Machine):
    """Machine that takes one path; which one is given by the choices of its Explorer."""

    def __init__(self, prog, models, ex, **k):
        super().__init__(prog, models, **k)
        self.ex = ex
        self.loop_hook = self._branch
        self.visits = {}
        self.on_header = None

    def choose(self, k, label=''):
        return self.ex.choose(k, label)

    def _branch(self, m, blk, arms, st):
        i = self.choose(len(arms), 'branch')
        c, b = arms[i]
        st.guard = st.guard + (c,)
        self.assume(c, True, st)
        return (blk.name, b), st

    def call(self, fn, args, st):
        self.visits[len(self.frames)] = {}
        return super().call(fn, args, st)

    def enter(self, fn, b, prev, st):
        super().enter(fn, b, prev, st)
        d = self.visits[len(self.frames) - 1]
        d[b] = d.get(b, 0) + 1
        if self.on_header is not None:
            self.on_header(self, fn, b, d[b], st, prev)

    def fact(self, c, v, st):
        """Adds c == v to the path condition."""
        if c.op == 'const':
            return
        st.guard = st.guard + (c if v else t.bnot(c),)
        self.assume(c, v, st)

    def static(self, st, unit, name):
        """Gives a writable global the content of its initialiser (the state before the first call)."""
        gl = self.prog.find_global(unit, name)
        rid = f'g:{gl.unit.src}:{gl.name}'
        from .exec import Region
        self.regions[rid] = Region(rid, sizeof(gl.ty), f'global {gl.name}')
        c = st.mem[rid] = Content(0, [Seg()], st.tok)
        self._init(c, 0, gl.ty, gl.init, gl.unit, st)
        return rid


class Explorer:
    """Depth-first enumeration of choice sequences."""

    def __init__(self, limit=4000, depth=400, seconds=60):
        self.full = True               # every path was taken
        self.end = time.time() + seconds
        self.limit, self.depth = limit, depth
        self.paths = 0
        self.cut = 0

    def choose(self, k, label=''):
        if k <= 1:
            return 0
        i = self.pos
        self.pos += 1
        if i < len(self.seq):
            return self.seq[i][0]
        if i > self.depth:
            raise End('depth')
        self.seq.append([0, k, label])
        return 0

    def all(self):
        """Yields once per path; the caller performs the run between yields."""
        self.seq = []
        while True:
            self.pos = 0
            self.paths += 1
            if self.paths > self.limit or time.time() > self.end:
                self.full = False
                return
            yield self
            while self.seq and self.seq[-1][0] + 1 >= self.seq[-1][1]:
                self.seq.pop()
            if not self.seq:
                return
            self.seq[-1][0] += 1


_dom = {}


def dominates(fn, a, b):
    """Block a is on every path from the entry of fn to block b."""
    k = (fn, a, b)
    if k not in _dom:
        seen, stack = {a}, [fn.entry.name if hasattr(fn.entry, 'name') else fn.entry]
        hit = a == b
        while stack and not hit:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == b:
                break
            stack += [y for y in fn.blocks[x].succs if y in fn.blocks]
        _dom[k] = hit or b not in seen
    return _dom[k]


def cstring(m, st, p):
    """The constant C string at p, or None."""
    if p.op != 'ptr':
        return None
    rid, off = p.a
    if off.op != 'const':
        return None
    out = b''
    try:
        for i in range(4096):
            bs = t.norm(m.content(st, rid).read(c64(off.a + i), 1, rid))
            b = bs[0][0]
            if isinstance(b, t.T):
                if b.op != 'const':
                    return None
                b = (b.a >> (8 * bs[0][1])) & 255
            if not isinstance(b, int):
                return None
            if b == 0:
                return out.decode('latin1')
            out += bytes([b])
    except AnalysisError:
        pass
    return None


def possible(guard, sampler):
    """Does some assignment satisfy all guards? None when sampling cannot tell."""
    for I in sampler.aimed((), None, guard):
        if all(I.ev(g) for g in guard):
            return True
    return None
