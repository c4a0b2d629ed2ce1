"""Group: composition of the traversal steps over the whole life of a key.

The steps themselves (round, update, choice, growth, promotion, who gets which budget) are decided by the groups
bds/*, sign/fast/* and keygen/fast/* against the specification's transition functions.  Here the same transition
functions are run on what the state *denotes*: every node value is replaced by its name (height, index), everything
else by counters.  One tree of layer 0 is covered leaf by leaf with its exact budget; one tree of a higher layer leaf
by leaf with all work of an interval done in it, which the budget arithmetic then has to guarantee for every interval.
Bytes, seeds and hash values do not occur."""
from collections import Counter
from . import bds
from .ir import program, AnalysisError
from .report import Report
from .g_basic import params_of


class Tree:
    """Names of the nodes in one tree's state."""

    def __init__(self, h, R, W):
        self.h, self.R, self.W = h, R, W
        self.auth, self.node, self.keep = [None] * h, [None] * h, [None] * ((h >> 1) + 1)
        self.stack = []              # (height, index), without the root a promoted tree keeps at the bottom
        self.active = []             # instances at work, lowest first
        self.nxt, self.use = [0] * h, [0] * h
        self.facts = 0
        self.deep = 0

    def no(self, what):
        self.R.fail('paths over a life', 'xmss_core_fast.c', f'{self.W}: {what}')

    def grow(self):
        """All leaves of a next tree; what it leaves for its time as current tree."""
        h, st = self.h, []
        for i in range(1 << h):
            l, x = 0, i
            tau = ((i + 1) & -(i + 1)).bit_length() - 1
            while True:
                if l < h and x == 1:
                    self.auth[l] = 1
                if l < h and x == 3:
                    self.node[l] = 3
                if not st or st[-1][0] != l:
                    break
                pl, px = st.pop()
                self.facts += 1
                if px != x - 1 or not x & 1:
                    return self.no(f'leaf {i}: nodes {px} and {x} of height {l} are joined')
                l, x = l + 1, x >> 1
            if l != tau or any(a[0] <= l for a in st[-1:]):
                return self.no(f'leaf {i}: {l} joins instead of {tau}, or heights on the stack out of order')
            st.append((l, x))
            if len(st) > h:
                self.deep = max(self.deep, len(st))
        if st != [(h, 0)]:
            return self.no(f'the stack of a finished tree is {st}')

    def round(self, s):
        """Move on from leaf s; False when a wrong node would be used."""
        h = self.h
        tau = (~s & (s + 1)).bit_length() - 1
        auth, keep = self.auth, self.keep
        was = auth[tau - 1] if tau else None
        k = keep[(tau - 1) >> 1] if tau else None
        if tau < h - 1 and not s >> (tau + 1) & 1:
            keep[tau >> 1] = auth[tau]
        if tau == 0:
            auth[0] = s
        else:
            x = s >> tau
            if was != 2 * x or k != 2 * x + 1:
                self.no(f'leaf {s}: node {x} of height {tau} is made from nodes {was} and {k}')
                return False
            auth[tau] = x
            for i in range(tau):
                auth[i], self.node[i] = self.node[i], None
                start = s + 1 + (3 << i)
                if start < 1 << h:
                    if i in self.active:
                        self.no(f'leaf {s}: instance {i} starts again before it is done')
                        return False
                    self.active.append(i)
                    self.nxt[i], self.use[i] = start, 0
            self.active.sort()
        for i in range(tau + 1):
            self.facts += 1
            if auth[i] != (s + 1 >> i) ^ 1:
                self.no(f'leaf {s + 1}: the node of height {i} in its path is {auth[i]} instead of {(s + 1 >> i) ^ 1}')
                return False
        return True

    def work(self, budget):
        """Updates of the most urgent instances; how many of the budget are left (budget None: all there is to do; how many)."""
        active, stack, use, nxt, h = self.active, self.stack, self.use, self.nxt, self.h
        done = 0
        while active and done != budget:
            best, k = h, None
            for i in active:
                u = use[i]
                low = i if not u else min(stack[-u:])[0]
                if low < best:
                    best, k = low, i
            done += 1
            idx, own, o = nxt[k], use[k], len(stack)
            l, x = 0, idx
            while own and stack[-1][0] == l:
                _, px = stack.pop()
                self.facts += 1
                if px != x - 1 or not x & 1 or l >= k:
                    self.no(f'instance {k}, leaf {idx}: nodes {px} and {x} of height {l} are joined')
                    return None
                l, x, own = l + 1, x >> 1, own - 1
            # what the step's own groups assume of the state they start from
            self.facts += 1
            tau = (~idx & (idx + 1)).bit_length() - 1
            rest = stack[len(stack) - own:] if own else []
            if use[k] > o or o > h - 1 or l != min(tau, k) or (l == k) != (tau >= k) or (l == k and own) or \
                    any(not l < y[0] < k for y in rest):
                self.no(f'instance {k}, leaf {idx}: {own} nodes of its own left of {o} on the stack after {l} joins')
                return None
            if l == k:
                self.node[k] = x
                active.remove(k)
                use[k] = 0
            else:
                stack.append((l, x))
                use[k] = own + 1
                nxt[k] = idx + 1
                if len(stack) > self.deep:
                    self.deep = len(stack)
        return done if budget is None else budget - done


def life(R, h, budget, W, exact):
    """All leaves of a tree. exact: budgets left over, by count; else: work due per leaf, by count."""
    T = Tree(h, R, W)
    T.grow()
    for k in range(h):
        if T.auth[k] != 1 or (k < h - 1 and T.node[k] != 3):
            T.no(f'a finished tree has node {T.auth[k]} in its path and node {T.node[k]} with its instance of height {k}')
            return None
    out = Counter()
    if not exact:
        out[0] += 1              # leaf 0
    for s in range((1 << h) - 1):
        if not T.round(s):
            return None
        r = T.work(budget if exact else None)
        if r is None:
            return None
        out[r] += 1
    if T.active:
        T.no(f'instances {T.active} are still at work at the last leaf')
    R._ok('paths over a life', 'proved', T.facts)
    # the nodes of a tree at work and the root a promoted tree keeps below them fit the stack
    R.check('room over a life', 'xmss_core_fast.c', T.deep + 1 <= h + 1, f'{W}: up to {T.deep + 1} nodes on the stack of {h + 1}')
    return out


def g_life(h, sets):
    """sets: [(mt, oid)] of this tree height."""
    R = Report(f'life/{h}')
    prog = program('fast')
    ps = []
    for mt, oid in sets:
        p = params_of(prog, mt, oid)
        if p.get('bds_k', 0) or p['tree_height'] != h:
            raise AnalysisError(f'tree height {p["tree_height"]} with {p.get("bds_k")} retained levels is not covered here')
        if p['d'] not in [q['d'] for q in ps]:
            ps.append(p)
    W = f'trees of height {h}'
    left = life(R, h, h >> 1, W + ', layer 0', True)
    if left is None or all(p['d'] == 1 for p in ps):
        return R
    due = life(R, h, None, W + ', higher layers', False)
    if due is None:
        return R
    for p in ps:
        if p['d'] > 1:
            layers(R, h, p['d'], left, due)
    return R


def layers(R, h, d, left, due):
    """Every layer gets its work done before its next leaf is due, and its next tree done before it is promoted.

    have: least budget that reaches layer i between two changes of its leaf, the signatures at these changes left out
    (there one-time signatures are charged first).  Layer i takes what its instances need first, then at most one
    update per signature for its next tree, and none for that once it is complete."""
    loc, rule, b = 'xmss_core_fast.c', 'budget over a life', h >> 1
    have, most, total = sum(v * k for v, k in left.items()), max(due), sum(w * k for w, k in due.items())
    if d - 1 > b:
        # with more signatures to make than the budget has, it wraps, and is counted down for all layers above in a char
        far = 1 + (d - 1 - b) * (most + 1)
        R.check(rule, loc, far <= 128, f'trees of height {h}, {d} layers: up to {far} updates are counted in a char')
    for i in range(1, d):
        W = f'trees of height {h}, {d} layers: layer {i}'
        R.check(rule, loc, have >= most, f'{W} gets at least {have} updates per leaf and needs up to {most}')
        if i == d - 1 or have < most:
            break
        grown = sum(k * -(-(have - w) // b) for w, k in due.items())
        R.check(rule, loc, grown >= 1 << h, f'{W}: its next tree gets at least {grown} of {1 << h} leaves')
        have = (have << h) - total - (1 << h)
