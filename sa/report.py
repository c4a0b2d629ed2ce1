"""Obligations: each is decided by normal form, else by random interpretation of the two terms."""
import os
from . import term as t
from .term import T, A, TRUE, Interp
from .ir import AnalysisError
from .direct import directed, satisfy

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')


def contains(x, pred, seen=None):
    """Does a term / byte string contain a node satisfying pred?"""
    seen = set() if seen is None else seen
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, (tuple, list)):
            stack += list(y)
            continue
        if not isinstance(y, (T, A)) or y.id in seen:
            continue
        seen.add(y.id)
        if pred(y):
            return True
        if isinstance(y.a, tuple):
            stack += list(y.a)
    return False


def is_opaque(y):
    if isinstance(y, A):
        return y.op == 'auf' and isinstance(y.a[0], str) and y.a[0].startswith('opaque:') and y not in t.OPQ
    return y.op == 'uf' and isinstance(y.a[0], str) and y.a[0].startswith('opaque:')


class Sampler:
    """Assignments for random interpretation: templates of fixed values, the rest random."""
    paths = False            # guards are path conditions, and part of what is aimed at
    free = ()

    def __init__(self, templates=(), n=24, free=None):
        self.templates = list(templates) or [({}, {})]
        self.n = n
        self.free = free if free is not None else None if n else ()   # symbols that may take any value; None: all

    def aimed(self, impl, spec, guard=()):
        """All assignments, then ones aimed at the conditions impl has and spec has not."""
        bases = []
        for I in self:
            if len(bases) < 2:
                bases.append(I)
            yield I
        if self.free is None or self.free:
            if self.paths and guard:
                for I in bases:
                    J = satisfy(guard, I, self.free)
                    if J is not None:
                        yield J
                        yield from directed(impl, spec, [J], self.free)
            yield from directed(impl, spec, bases, self.free)

    def __iter__(self):
        k = 0
        for vals, arrs in self.templates:
            yield Interp((SEED, 'd', k), vals, arrs)
            k += 1
        for i in range(self.n):
            vals, arrs = self.templates[i % len(self.templates)]
            yield Interp((SEED, i), vals, arrs)


class Report:
    def __init__(self, group):
        self.group = group
        self.by = {}             # rule -> [by normal form, by random interpretation, vacuous]
        self.viol = []           # (rule, where, message)
        self.lost = []           # obligations left undecided
        self.notes = []
        self.first = {}          # rule -> one obligation, written out
        self.stats = {'insts': 0, 'accesses': 0, 'calls': 0, 'branches': 0, 'functions': set(), 'events': 0}

    def use(self, m):
        for k in ('insts', 'accesses', 'calls', 'branches'):
            self.stats[k] += m.stats[k]
        self.stats['functions'] |= m.stats['functions']
        self.stats['events'] += len(m.events)

    def _ok(self, rule, how, k=1):
        self.by.setdefault(rule, [0, 0, 0])[('proved', 'sampled', 'vacuous').index(how)] += k

    def fail(self, rule, where, msg):
        if len(self.viol) < 60:
            self.viol.append((rule, where, msg))

    def ok(self, rule):
        self._ok(rule, 'proved')

    def check(self, rule, where, cond, msg):
        """A plain fact about the program."""
        self.first.setdefault(rule, f'{where}: never: {msg}')
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, where, msg)

    def same(self, rule, where, impl, spec, what, guard=(), sampler=None):
        """impl and spec (terms or byte strings) are equal whenever all guards hold."""
        isbs = isinstance(impl, (tuple, list))
        if rule not in self.first:
            self.first[rule] = f'{where}: {what}: equals {t.show(spec)[:200]}'
        if isbs:
            impl, spec = t.norm(impl), t.norm(spec)
            if impl == spec:
                return self._ok(rule, 'proved')
        elif impl is spec:
            return self._ok(rule, 'proved')
        if any(g is t.FALSE for g in guard):
            return self._ok(rule, 'vacuous')
        if isbs:
            li, ls = t.bs_len(impl), t.bs_len(spec)
            if isinstance(li, int) and isinstance(ls, int) and li != ls:
                self.fail(rule, where, f'{what}: {li} bytes instead of {ls}')
                return
        hit = lost = 0
        smp = sampler or Sampler()
        for I in smp.aimed(impl, spec, guard):
            try:
                if not all(I.ev(g) for g in guard):
                    continue
                hit += 1
                if isbs:
                    x = I.cuts(impl) | I.cuts(spec)
                    a, b = I.bs(impl, x), I.bs(spec, x)
                else:
                    a, b = I.ev(impl), I.ev(spec)
            except RecursionError:
                raise AnalysisError('term too deep')
            if a != b:
                if I.opq:
                    lost += 1
                    continue
                d = self._diff(impl, spec, I) if isbs else f'got {t.show(impl)[:300]}, expected {t.show(spec)[:300]}'
                self.fail(rule, where, f'{what}: {d}')
                return
        if lost:
            self.unresolved(rule, f'{where}: {what} could not be resolved: {t.show(impl)[:300]}')
            return
        self._ok(rule, 'sampled' if hit else 'vacuous')

    def unresolved(self, rule, msg):
        self.lost.append((rule, msg))

    def _diff(self, a, b, I):
        """First differing byte range."""
        a, b = list(a), list(b)
        pos = 0
        while a and b:
            if not isinstance(a[0][2], int) or not isinstance(b[0][2], int):
                if a[0] == b[0]:
                    a.pop(0)
                    b.pop(0)
                    continue
                break
            k = min(a[0][2], b[0][2])
            pa, a = t.bs_cut(a, k)
            pb, b = t.bs_cut(b, k)
            if I.bs(pa) != I.bs(pb):
                return f'at byte {pos}: got {t.show_piece(pa[0])[:240]}, expected {t.show_piece(pb[0])[:240]}'
            pos += k
        return f'got {t.show(tuple(a))[:300]}, expected {t.show(tuple(b))[:300]}'

    def holds(self, rule, where, cond, what, guard=(), sampler=None):
        """A boolean term is true whenever the guards hold."""
        if cond is TRUE:
            self.first.setdefault(rule, f'{where}: never: {what}')
            return self._ok(rule, 'proved')
        self.same(rule, where, cond, TRUE, what, guard, sampler)

    def never(self, rule, where, cond, what, guard=(), sampler=None):
        self.first.setdefault(rule, f'{where}: never: {what}')
        if cond is t.FALSE:
            return self._ok(rule, 'proved')
        self.same(rule, where, cond, t.FALSE, what, guard, sampler)

    def safe(self, rule, m, sampler=None, kinds=None, only=None):
        """No open memory-safety issue of machine m has a witness; every access counts as an obligation."""
        self._ok(rule, 'proved', m.stats['accesses'])
        keep = 'inputs kept'
        self._ok(keep, 'proved', m.stats.get('writes', m.stats['accesses']))
        for kind, where, msg, cond, guard in m.issues:
            if kinds and kind not in kinds:
                continue
            if only and not only(kind, where, msg):
                continue
            gs = tuple(guard)
            for r in (rule, keep) if kind == 'const' else (rule,):
                self._ok(r, 'proved', -1)
                if cond is TRUE and not gs:
                    self.fail(r, where, msg)
                    continue
                self.never(r, where, t.band(cond, *gs) if gs else cond, msg, (), sampler)

    def result(self):
        return {'group': self.group, 'viol': self.viol, 'notes': self.notes, 'lost': self.lost, 'by': self.by, 'first': self.first,
                'stats': {k: (sorted(v) if isinstance(v, set) else v) for k, v in self.stats.items()}}
