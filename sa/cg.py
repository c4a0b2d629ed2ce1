"""Call graph queries on the IR."""
from .ir import AnalysisError


def callees(prog, fn):
    """Functions (or external names) called directly by fn."""
    out = []
    for b in fn.blocks.values():
        for ins in b.insts:
            if ins.op == 'call' and isinstance(ins.x, str) and not ins.x.startswith('llvm.'):
                out.append(prog.find(fn.unit, ins.x) or ins.x)
    return out


def key(f):
    return f if isinstance(f, str) else (f.unit.src, f.name)


def reach(prog, fn):
    """{key: Func or name} of everything fn may call, fn included."""
    memo = prog.__dict__.setdefault('_reach', {})
    k = key(fn)
    if k in memo:
        return memo[k]
    seen = {k: fn}
    work = [fn]
    while work:
        f = work.pop()
        if isinstance(f, str):
            continue
        for g in callees(prog, f):
            if key(g) not in seen:
                seen[key(g)] = g
                work.append(g)
    memo[k] = seen
    return seen


def reach_names(prog, fn):
    memo = prog.__dict__.setdefault('_reachn', {})
    k = key(fn)
    if k not in memo:
        memo[k] = {f if isinstance(f, str) else f.name for f in reach(prog, fn).values()}
    return memo[k]


def has_loop(fn):
    """Does the control flow graph have a cycle?"""
    state = {}
    stack = [(fn.entry.name, iter(fn.entry.succs))]
    state[fn.entry.name] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if state.get(s) == 1:
                return True
            if s not in state:
                state[s] = 1
                stack.append((s, iter(fn.blocks[s].succs)))
                break
        else:
            state[b] = 2
            stack.pop()
    return False


def recursive(prog, fn):
    """May fn call itself?"""
    return any(key(fn) in reach(prog, g) for g in callees(prog, fn) if not isinstance(g, str))
