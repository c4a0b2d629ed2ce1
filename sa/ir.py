"""Front end: clang -> LLVM IR (SSA construction only) -> Python objects.

The IR of every translation unit of a program variant is produced from /repo's current
sources on each run; nothing is cached between runs."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')

CORE = ['params.c', 'hash.c', 'fips202.c', 'hash_address.c', 'randombytes.c', 'wots.c', 'xmss.c',
        'xmss_core.c', 'xmss_commons.c', 'utils.c']


class AnalysisError(Exception):
    """The analysis cannot give an answer (neither pass nor violation)."""


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'name')

    def __init__(self, k, w=0, n=0, el=None, name=None):
        self.k, self.w, self.n, self.el, self.name = k, w, n, el, name

    def __repr__(self):
        return {'int': f'i{self.w}', 'ptr': 'ptr', 'arr': f'[{self.n} x {self.el}]',
                'struct': f'%{self.name}', 'void': 'void'}.get(self.k, self.k)


VOID = Ty('void')
PTR = Ty('ptr', 64)
_INTS = {}


def ity(w):
    t = _INTS.get(w)
    if t is None:
        t = _INTS[w] = Ty('int', w)
    return t


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'dbg', 'text', 'fn', 'bv')
    # op: opcode, dst: result name or None, ty: result/value type, a: operands, x: extra

    def __init__(self, op, dst, ty, a, x, dbg, text):
        self.op, self.dst, self.ty, self.a, self.x, self.dbg, self.text = op, dst, ty, a, x, dbg, text
        self.fn = None
        self.bv = None               # calls: {argument index: type passed by value}


class Block:
    __slots__ = ('name', 'phis', 'insts', 'term', 'succs', 'preds', 'ipdom', 'rpo', 'fn')

    def __init__(self, name):
        self.name = name
        self.phis, self.insts, self.term = [], [], None
        self.succs, self.preds = [], []
        self.ipdom = None


class Func:
    def __init__(self, name, ret, params, internal, unit):
        self.name, self.ret, self.params, self.internal, self.unit = name, ret, params, internal, unit
        self.blocks = {}
        self.order = []
        self.entry = None
        self.dbg = None
        self.argnames = {}
        self.allocnames = {}
        self.ptypes = None    # debug type names of the parameters

    @property
    def loc(self):
        sp = self.unit.md.get(self.dbg, '') if self.dbg else ''
        m = re.search(r'line: (\d+)', sp)
        return f'{self.unit.src}:{m.group(1) if m else "?"}'


class Global:
    def __init__(self, name, const, internal, ty, init, unit, external=False):
        self.name, self.const, self.internal, self.ty, self.init, self.unit = \
            name, const, internal, ty, init, unit
        self.external = external


class Unit:
    def __init__(self, src):
        self.src = src
        self.funcs, self.decls, self.globals, self.types, self.md = {}, {}, {}, {}, {}


class Null:
    def __repr__(self):
        return 'null'


class GRef:
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return f'@{self.name}+{self.off}'


class CInt:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return str(self.v)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


NULL = Null()
UNDEF = Undef()

_TOK = re.compile(r'\s*(c"[^"]*"|@"[^"]*"|[%@][-a-zA-Z$._0-9]+|%"[^"]*"|![0-9]+|!"[^"]*"|!DI[A-Za-z]+\([^)]*\)|'
                  r'-?[0-9]+|[a-zA-Z_][a-zA-Z_0-9.]*|\.\.\.|[][{}()<>,=*#!|:])')

ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'signext',
         'zeroext', 'inreg', 'immarg', 'inbounds', 'nsw', 'nuw', 'exact', 'tail', 'musttail', 'notail',
         'dso_local', 'internal', 'private', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'volatile', 'disjoint', 'nneg',
         'fastcc', 'ccc', 'coldcc', 'linkonce_odr', 'weak', 'common', 'samesign',
         'dead_on_unwind', 'writable', 'nofree', 'nest', 'allocptr', 'allocalign', 'swiftself', 'swifterror', 'swiftasync',
         'noext'}


class P:
    """Token cursor."""

    def __init__(self, s, unit):
        self.t = _TOK.findall(s)
        self.i = 0
        self.u = unit

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def next(self):
        v = self.t[self.i] if self.i < len(self.t) else ''
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise AnalysisError(f'IR parse: expected {s!r}, got {v!r} in {" ".join(self.t)[:200]}')

    def skip_attrs(self):
        """Type of a byval attribute, if there is one."""
        bv = None
        while True:
            p = self.peek()
            if p in ATTRS:
                self.i += 1
            elif p == 'align':
                self.i += 2
            elif p == 'byval':
                self.i += 1
                i = self.i
                self.expect('(')
                bv = self.type()
                self.i = i
                self.balanced()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'range', 'nofpclass', 'elementtype', 'captures',
                       'initializes', 'byref', 'preallocated', 'inalloca'):
                self.i += 1
                self.balanced()
            elif p == '#':
                self.i += 2
            else:
                return bv

    def balanced(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
            elif v == '':
                raise AnalysisError('IR parse: unbalanced')

    def type(self):
        v = self.next()
        if v == 'void':
            t = VOID
        elif v == 'ptr':
            t = PTR
        elif re.fullmatch(r'i\d+', v):
            t = ity(int(v[1:]))
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n=n, el=e)
        elif v == '{':
            els = []
            while not self.accept('}'):
                els.append(self.type())
                self.accept(',')
            t = Ty('struct', el=els, name='anon')
        elif v == '<' and self.peek() == '{':
            self.next()
            els = []
            while not self.accept('}'):
                els.append(self.type())
                self.accept(',')
            self.expect('>')
            t = Ty('packed', el=els, name='anon')
        elif v == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = Ty('vec', n=n, el=e)
        elif v.startswith('%'):
            t = self.u.types.get(v)
            if t is None:
                t = self.u.types[v] = Ty('struct', name=v[1:], el=None)
        elif v in ('metadata', 'label', 'double', 'float', 'x86_fp80'):
            t = Ty(v)
        else:
            raise AnalysisError(f'IR parse: type {v!r} in {" ".join(self.t)[:160]}')
        return t

    def value(self, ty):
        v = self.next()
        if v.startswith('%'):
            return v
        if v.startswith('@'):
            return GRef(v[1:].strip('"'))
        if re.fullmatch(r'-?\d+', v):
            return CInt(int(v))
        if v == 'true':
            return CInt(1)
        if v == 'false':
            return CInt(0)
        if v == 'null':
            return NULL
        if v in ('undef', 'poison'):
            return UNDEF
        if v == 'zeroinitializer':
            return ('zero', ty)
        if v == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            off = 0
            cur = bt
            for k, (it, iv) in enumerate(idx):
                if not isinstance(iv, CInt):
                    raise AnalysisError('IR parse: non-constant constexpr gep')
                if k == 0:
                    off += iv.v * sizeof(bt)
                elif cur.k == 'arr':
                    cur = cur.el
                    off += iv.v * sizeof(cur)
                else:
                    off += struct_off(cur, iv.v)
                    cur = cur.el[iv.v]
            if isinstance(base, GRef):
                return GRef(base.name, base.off + off)
            raise AnalysisError('IR parse: constexpr gep base')
        if v.startswith('c"'):
            return ('str', _cstr(v[2:-1]))
        if v == '[':
            els = []
            while not self.accept(']'):
                et = self.type()
                els.append((et, self.value(et)))
                self.accept(',')
            return ('agg', els)
        if v == '{' or (v == '<' and self.peek() == '{'):
            packed = v == '<'
            if packed:
                self.next()
            els = []
            while not self.accept('}'):
                et = self.type()
                els.append((et, self.value(et)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', els)
        if v in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'add', 'sub'):
            raise AnalysisError(f'IR parse: constant expression {v}')
        if v == '!' or v.startswith('!'):
            return None
        raise AnalysisError(f'IR parse: value {v!r} in {" ".join(self.t)[:200]}')


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def alignof(t):
    if t.k == 'int':
        return max(1, min(16, (t.w + 7) // 8))
    if t.k == 'ptr':
        return 8
    if t.k in ('arr', 'vec'):
        return alignof(t.el)
    if t.k == 'struct':
        return max([alignof(e) for e in t.el] or [1])
    if t.k == 'packed':
        return 1
    raise AnalysisError(f'alignof {t}')


def sizeof(t):
    if t.k == 'int':
        n = (t.w + 7) // 8
        a = alignof(t)
        return (n + a - 1) // a * a
    if t.k == 'ptr':
        return 8
    if t.k in ('arr', 'vec'):
        return t.n * sizeof(t.el)
    if t.k == 'struct':
        if t.el is None:
            raise AnalysisError(f'opaque type {t.name}')
        o = 0
        for e in t.el:
            a = alignof(e)
            o = (o + a - 1) // a * a + sizeof(e)
        a = alignof(t)
        return (o + a - 1) // a * a
    if t.k == 'packed':
        return sum(sizeof(e) for e in t.el)
    raise AnalysisError(f'sizeof {t}')


def struct_off(t, i):
    o = 0
    for k, e in enumerate(t.el):
        if t.k != 'packed':
            a = alignof(e)
            o = (o + a - 1) // a * a
        if k == i:
            return o
        o += sizeof(e)
    raise AnalysisError('struct index')


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'}


def parse_inst(line, unit):
    text = line
    dbg = None
    m = re.search(r', !dbg (!\d+)', line)
    if m:
        dbg = m.group(1)
        line = line[:m.start()] + line[m.end():]
    # other attachments
    line = re.sub(r', ![a-zA-Z_.]+ !\d+', '', line)
    p = P(line, unit)
    dst = None
    if p.peek().startswith('%') and len(p.t) > 1 and p.t[1] == '=':
        dst = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I = lambda ty, a, x=None, o=None: Inst(o or op, dst, ty, a, x, dbg, text.strip())
    if op in BINOPS:
        p.skip_attrs()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return I(ty, [a, p.value(ty)])
    if op == 'icmp':
        p.skip_attrs()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return I(ty, [a, p.value(ty)], pred)
    if op in CASTS:
        p.skip_attrs()
        ty = p.type()
        a = p.value(ty)
        if op == 'freeze':
            return I(ty, [a], ty)
        p.expect('to')
        t2 = p.type()
        return I(t2, [a], ty)
    if op == 'load':
        p.skip_attrs()
        ty = p.type()
        p.expect(',')
        p.type()
        return I(ty, [p.value(PTR)])
    if op == 'store':
        p.skip_attrs()
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        return I(ty, [v, p.value(PTR)])
    if op == 'getelementptr':
        p.skip_attrs()
        bt = p.type()
        p.expect(',')
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(','):
            if p.peek().startswith('!'):
                break
            it = p.type()
            idx.append((it, p.value(it)))
        return I(PTR, [base], (bt, idx))
    if op == 'alloca':
        p.skip_attrs()
        ty = p.type()
        n = CInt(1)
        while p.accept(','):
            if p.peek() == 'align':
                p.i += 2
                continue
            it = p.type()
            n = p.value(it)
        return I(PTR, [n], ty)
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((b[1:], v))
            if not p.accept(','):
                break
        return I(ty, [], inc)
    if op == 'select':
        p.skip_attrs()
        p.type()
        c = p.value(ity(1))
        p.expect(',')
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        p.type()
        return I(ty, [c, a, p.value(ty)])
    if op == 'br':
        if p.accept('label'):
            return I(VOID, [], [p.next()[1:]])
        p.type()
        c = p.value(ity(1))
        p.expect(',')
        p.expect('label')
        t = p.next()[1:]
        p.expect(',')
        p.expect('label')
        return I(VOID, [c], [t, p.next()[1:]])
    if op == 'switch':
        return None
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void':
            return I(VOID, [])
        return I(ty, [p.value(ty)])
    if op == 'unreachable':
        return I(VOID, [])
    if op == 'call':
        p.skip_attrs()
        ty = p.type()
        if p.peek() == '(':       # varargs function type
            p.balanced()
        cal = p.next()
        if cal == 'asm':
            # an empty statement (compiler barrier) without result does nothing
            if re.search(r'call void asm (sideeffect )?(alignstack )?"", "', text):
                return Inst('nop', None, VOID, [], text.strip(), dbg, text.strip())
            return I(VOID, [], text.strip(), 'unsupported')
        args = []
        p.expect('(')
        if cal.startswith('@llvm.dbg') or cal.startswith('@llvm.lifetime'):
            return Inst('nop', None, VOID, [], text.strip(), dbg, text.strip())
        bv = {}
        while not p.accept(')'):
            t = p.type()
            b = p.skip_attrs()
            if b is not None:
                bv[len(args)] = b
            args.append((t, p.value(t)))
            p.accept(',')
        r = I(ty, args, cal[1:] if cal.startswith('@') else ('ind', cal))
        r.bv = bv or None
        return r
    if op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        k = int(p.next())
        if p.accept(','):
            raise AnalysisError('nested extractvalue')
        return I(ty.el[k] if ty.k == 'struct' else ty.el, [v], (ty, k))
    if op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        t2 = p.type()
        x = p.value(t2)
        p.expect(',')
        return I(ty, [v, x], (t2, int(p.next())))
    if op in ('fadd', 'fmul', 'fence', 'cmpxchg', 'atomicrmw', 'invoke'):
        return I(VOID, [], text.strip(), 'unsupported')
    return I(VOID, [], text.strip(), 'unsupported')


def parse_ll(path, src):
    u = Unit(src)
    lines = open(path, encoding='utf-8', errors='replace').read().split('\n')
    # types first
    for ln in lines:
        m = re.match(r'(%[-a-zA-Z$._0-9]+|%"[^"]*") = type (.*)', ln)
        if m:
            t = u.types.setdefault(m.group(1), Ty('struct', name=m.group(1)[1:], el=None))
            if m.group(2).strip() != 'opaque':
                tt = P(m.group(2), u).type()
                t.el = tt.el
                t.k = tt.k if tt.k == 'packed' else 'struct'
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('!'):
            m = re.match(r'(!\d+) = (?:distinct )?(.*)', ln)
            if m:
                u.md[m.group(1)] = m.group(2)
        elif ln.startswith('@'):
            m = re.match(r'@([-a-zA-Z$._0-9]+|"[^"]*") = (.*)', ln)
            rest = m.group(2)
            words = rest.split()
            k = 0
            external = internal = const = False
            while words[k] in ('external', 'internal', 'private', 'dso_local', 'unnamed_addr', 'local_unnamed_addr',
                               'common', 'constant', 'global', 'weak', 'hidden', 'thread_local'):
                external |= words[k] == 'external'
                internal |= words[k] in ('internal', 'private')
                const |= words[k] == 'constant'
                k += 1
                if words[k - 1] in ('constant', 'global'):
                    break
            p = P(' '.join(words[k:]), u)
            ty = p.type()
            init = None
            if not external:
                init = p.value(ty)
            u.globals[m.group(1).strip('"')] = Global(m.group(1).strip('"'), const, internal, ty, init, u, external)
        elif ln.startswith('declare'):
            m = re.match(r'declare (.*)@([-a-zA-Z$._0-9]+)\(', ln)
            if m:
                u.decls[m.group(2)] = ln
        elif ln.startswith('define'):
            i = _parse_fn(lines, i, u)
        i += 1
    for f in u.funcs.values():
        _debug_names(f, u)
    return u


def _parse_fn(lines, i, u):
    ln = lines[i]
    m = re.match(r'define (.*?)@([-a-zA-Z$._0-9]+)\((.*)\)([^()]*)\{', ln)
    head = m.group(1)
    internal = 'internal' in head.split()
    p = P(head, u)
    p.skip_attrs()
    ret = p.type()
    params = []
    pp = P(m.group(3), u)
    while pp.peek():
        if pp.accept('...'):
            break
        t = pp.type()
        pp.skip_attrs()
        nm = pp.next()
        params.append((nm, t))
        pp.accept(',')
    f = Func(m.group(2), ret, params, internal, u)
    d = re.search(r'!dbg (!\d+)', m.group(4))
    f.dbg = d.group(1) if d else None
    cur = None
    i += 1
    first = True
    while not lines[i].startswith('}'):
        s = lines[i]
        if not s.strip():
            i += 1
            continue
        mm = re.match(r'([-a-zA-Z$._0-9]+|"[^"]*"):', s)
        if mm and not s.startswith(' '):
            cur = Block(mm.group(1))
            f.blocks[cur.name] = cur
            f.order.append(cur)
            first = False
            i += 1
            continue
        if first:
            cur = Block('<entry>')
            f.blocks[cur.name] = cur
            f.order.append(cur)
            first = False
        if re.match(r'\s+switch ', s):
            buf = s
            while ']' not in lines[i].split('!dbg')[0] or lines[i].strip().endswith('['):
                i += 1
                buf += ' ' + lines[i].strip()
                if lines[i].strip().startswith(']'):
                    break
            d = re.search(r', !dbg (!\d+)', buf)
            dbg = d.group(1) if d else None
            body = re.sub(r', !dbg !\d+', '', buf)
            q = P(body, u)
            q.expect('switch')
            ty = q.type()
            v = q.value(ty)
            q.expect(',')
            q.expect('label')
            default = q.next()[1:]
            q.expect('[')
            cases = []
            while not q.accept(']'):
                ct = q.type()
                cv = q.value(ct)
                q.expect(',')
                q.expect('label')
                cases.append((cv.v & ((1 << ty.w) - 1), q.next()[1:]))
            cur.term = Inst('switch', None, ty, [v], (cases, default), dbg, buf.strip()[:80])
            cur.succs = [default] + [c[1] for c in cases]
            i += 1
            continue
        ins = parse_inst(s, u)
        ins.fn = f
        if ins.op == 'phi':
            cur.phis.append(ins)
        elif ins.op in ('br', 'ret', 'unreachable'):
            cur.term = ins
            cur.succs = list(ins.x) if ins.op == 'br' else []
        else:
            cur.insts.append(ins)
        i += 1
    f.entry = f.order[0]
    # the unnamed entry block is referred to by number in phis
    if f.entry.name == '<entry>':
        num = None
        used = set()
        for b in f.order:
            for ph in b.phis:
                for (pb, _) in ph.x:
                    if pb not in f.blocks:
                        used.add(pb)
        if len(used) > 1:
            raise AnalysisError(f'{f.name}: unknown phi predecessors {used}')
        if used:
            num = used.pop()
            f.blocks[num] = f.entry
            f.entry.name = num
    for b in f.order:
        b.fn = f
        b.succs = list(dict.fromkeys(b.succs))
        if b.term is None:
            raise AnalysisError(f'{f.name}: block without terminator')
        b.term.fn = f
    for b in f.order:
        for s in b.succs:
            f.blocks[s].preds.append(b.name)
    _ipdoms(f)
    u.funcs[f.name] = f
    return i


def _ipdoms(f):
    """Immediate postdominators, with a virtual exit '<exit>'."""
    succ = {}
    names = [b.name for b in f.order]
    for b in f.order:
        succ[b.name] = list(b.succs) or ['<exit>']
    pred = {n: [] for n in names}
    pred['<exit>'] = []
    for n, ss in succ.items():
        for s in ss:
            pred[s].append(n)
    order, seen = [], set()

    def dfs(n):
        stack = [(n, iter(pred[n]))]
        seen.add(n)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred[y])))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs('<exit>')
    rank = {n: i for i, n in enumerate(order)}
    idom = {'<exit>': '<exit>'}
    changed = True
    while changed:
        changed = False
        for n in reversed(order):
            if n == '<exit>':
                continue
            new = None
            for s in succ[n]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while rank[a] < rank[b]:
                                a = idom[a]
                            while rank[b] < rank[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new
                changed = True
    for b in f.order:
        b.ipdom = idom.get(b.name, '<exit>')
    # reverse post order of the forward graph and natural loop headers
    order2, seen2 = [], set()
    stack = [(f.entry.name, iter(f.entry.succs))]
    seen2.add(f.entry.name)
    onstack = {f.entry.name}
    f.backedges = set()
    while stack:
        x, it = stack[-1]
        for y in it:
            if y in onstack:
                f.backedges.add((x, y))
            if y not in seen2:
                seen2.add(y)
                onstack.add(y)
                stack.append((y, iter(f.blocks[y].succs)))
                break
        else:
            order2.append(x)
            onstack.discard(x)
            stack.pop()
    f.headers = {h for _, h in f.backedges}
    f.loops = {}
    for t, h in f.backedges:
        body = f.loops.setdefault(h, {h})
        work = [t]
        while work:
            n = work.pop()
            if n not in body:
                body.add(n)
                work += f.blocks[n].preds
    for k, n in enumerate(reversed(order2)):
        f.blocks[n].rpo = k


def _mdfield(s, k):
    m = re.search(r'\b' + k + r': ("[^"]*"|![0-9]+|[A-Za-z_0-9]+)', s)
    return m.group(1).strip('"') if m else None


def debug_type_name(u, ref, depth=0):
    """A readable type name for a debug-info type reference."""
    if ref is None or ref == 'null' or depth > 8:
        return 'void'
    s = u.md.get(ref, '')
    tag = _mdfield(s, 'tag')
    nm = _mdfield(s, 'name')
    if s.startswith('!DIBasicType'):
        return nm
    if tag == 'DW_TAG_pointer_type':
        return debug_type_name(u, _mdfield(s, 'baseType'), depth + 1) + '*'
    if tag in ('DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
        return debug_type_name(u, _mdfield(s, 'baseType'), depth + 1)
    if tag == 'DW_TAG_typedef':
        return nm
    if nm:
        return nm
    return tag or '?'


def _debug_names(f, u):
    at = {}
    pnames = {nm: i for i, (nm, ty) in enumerate(f.params)}
    for b in f.order:
        for ins in b.insts:
            if ins.op != 'nop':
                continue
            m = re.search(r'llvm\.dbg\.(value|declare)\(metadata (?:ptr|i\d+) (%[-a-zA-Z$._0-9]+), metadata (!\d+), metadata (.*)', ins.x)
            if m:
                s = u.md.get(m.group(3), '')
                nm = _mdfield(s, 'name')
                f.allocnames.setdefault(m.group(2), nm)
                if m.group(2) in pnames and _mdfield(s, 'arg') and m.group(1) == 'value':
                    ty = '?' if 'fragment' in m.group(4) else debug_type_name(u, _mdfield(s, 'type'))
                    at.setdefault(pnames[m.group(2)], (ty, nm))
        b.insts = [i for i in b.insts if i.op != 'nop']
    sp = u.md.get(f.dbg, '')
    ty = u.md.get(_mdfield(sp, 'type') or '', '')
    ts = u.md.get(_mdfield(ty, 'types') or '', '')
    refs = re.findall(r'(!\d+|null)', ts)
    f.ptypes = [debug_type_name(u, r) for r in refs[1:]] if refs else []
    while len(f.ptypes) < len(f.params):
        f.ptypes.append('?')
    if not hasattr(u, 'argn'):
        u.argn = {}
        for s in u.md.values():
            if s.startswith('!DILocalVariable('):
                a = _mdfield(s, 'arg')
                if a:
                    u.argn[_mdfield(s, 'scope'), int(a)] = _mdfield(s, 'name')
    f.pnames = [u.argn.get((f.dbg, i + 1), '') for i in range(len(f.params))]
    # what the intermediate code says of a parameter goes before its place in the signature
    if len(refs) - 1 != len(f.params):
        f.ptypes, f.pnames = ['?'] * len(f.params), [''] * len(f.params)
    for i, (ty, nm) in at.items():
        f.ptypes[i], f.pnames[i] = ty, nm


def struct_names(u):
    """Typedef names and tags of a unit, in order."""
    out = []
    for s in u.md.values():
        if s.startswith('!DIDerivedType(tag: DW_TAG_typedef') or s.startswith('!DICompositeType(tag: DW_TAG_structure'):
            n = _mdfield(s, 'name')
            if n and n not in out:
                out.append(n)
    return out


def struct_members(u, tname, types=None):
    """{member: (offset, size)} of the struct behind a typedef or tag name, from debug info; types: filled with type names."""
    for ref, s in u.md.items():
        if (s.startswith('!DIDerivedType(tag: DW_TAG_typedef') or s.startswith('!DICompositeType')) \
                and _mdfield(s, 'name') == tname:
            base = ref
            for _ in range(5):
                t = u.md.get(base, '')
                if t.startswith('!DICompositeType'):
                    els = u.md.get(_mdfield(t, 'elements') or '', '')
                    out = {}
                    for e in re.findall(r'!\d+', els):
                        es = u.md.get(e, '')
                        if _mdfield(es, 'tag') == 'DW_TAG_member':
                            out[_mdfield(es, 'name')] = (int(_mdfield(es, 'offset') or 0) // 8,
                                                         int(_mdfield(es, 'size') or 0) // 8)
                            if types is not None:
                                types[_mdfield(es, 'name')] = debug_type_name(u, _mdfield(es, 'baseType'))
                    return out
                base = _mdfield(t, 'baseType')
                if base is None:
                    break
    return None


class Program:
    """A set of translation units linked by name."""

    def __init__(self, units):
        self.units = units
        self.funcs = {}
        self.globals = {}
        self.errors = []
        for u in units:
            for f in u.funcs.values():
                if not f.internal:
                    if f.name in self.funcs:
                        raise AnalysisError(f'duplicate definition of {f.name}')
                    self.funcs[f.name] = f

    def find(self, unit, name):
        f = unit.funcs.get(name) if unit is not None else None
        return f or self.funcs.get(name)

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            for u in self.units:
                if name in u.funcs:
                    return u.funcs[name]
            raise AnalysisError(f'anchor function {name} not found')
        return f

    def has(self, name):
        try:
            self.func(name)
            return True
        except AnalysisError:
            return False

    def find_global(self, unit, name):
        g = unit.globals.get(name)
        if g is not None and not g.external:
            return g
        for u in self.units:
            g2 = u.globals.get(name)
            if g2 is not None and not g2.external and not g2.internal:
                return g2
        return g

    def all_funcs(self):
        for u in self.units:
            yield from u.funcs.values()


def line_of(unit, dbg):
    """'file:line' for a !dbg reference."""
    s = unit.md.get(dbg or '', '')
    m = re.search(r'line: (\d+)', s)
    return f'{unit.src}:{m.group(1)}' if m else unit.src


def make_sources(var, default):
    try:
        out = subprocess.run(['make', '-s', '--no-print-directory', '-C', REPO, '--eval',
                              f'sa-print: ; @echo $({var})', 'sa-print'], capture_output=True, text=True, timeout=20)
        fs = out.stdout.split()
        if out.returncode == 0 and fs and all(f.endswith('.c') and os.path.exists(os.path.join(REPO, f)) for f in fs):
            return fs
    except (OSError, subprocess.SubprocessError):
        pass
    return default


def compile_units(jobs):
    """jobs: list of (source, [defines]); returns a list of Units."""
    tmp = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        def one(k):
            src, defs = jobs[k]
            o = os.path.join(tmp, f'{k}.0.ll')
            r = subprocess.run(['clang-18', '-O0', '-g', '-w', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm',
                                *defs, os.path.join(REPO, src), '-o', o], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError(f'clang failed on {src}: {r.stderr[:400]}')
            o2 = os.path.join(tmp, f'{k}.ll')
            r = subprocess.run(['opt-18', '-S', '-passes=function(sroa,early-cse,mergereturn,loop-simplify)', o, '-o', o2],
                               capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError(f'opt failed on {src}: {r.stderr[:400]}')
            return parse_ll(o2, src)
        with ThreadPoolExecutor(8) as pool:
            return list(pool.map(one, range(len(jobs))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_progs = {}


def program(variant):
    """'ref' or 'fast' library; 'ui:<tool>:<xmss|xmssmt>:<ref|fast>' for a tool with its library."""
    if variant in _progs:
        return _progs[variant]
    ref = make_sources('SOURCES', CORE)
    if variant == 'ref':
        srcs = [(s, []) for s in ref]
    elif variant == 'fast':
        srcs = [(s, []) for s in make_sources('SOURCES_FAST',
                                              [s.replace('xmss_core.c', 'xmss_core_fast.c') for s in ref])]
    elif variant.startswith('ui:'):
        _, tool, mt = variant.split(':')
        srcs = [(f"ui/{tool}.c", ["-DXMSSMT"] if mt == "xmssmt" else [])] + [(s, []) for s in ref]
    else:
        raise AnalysisError(variant)
    _progs[variant] = Program(compile_units(srcs))
    return _progs[variant]
