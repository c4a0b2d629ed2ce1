"""Groups: the command-line tools, against every outcome of every file operation and library call."""
from . import term as t, spec
from .term import const, c64
from .ir import program, AnalysisError
from .exec import State, NOTHANDLED
from .mem import Content, Seg
from .models import Model
from .paths import PathMachine, Explorer, End, cstring, possible
from .report import Report, Sampler

NULL = t.NULLP
DATA = {'sign': 'message', 'open': 'signed message'}


class File:
    def __init__(self, name):
        self.name = name
        self.size = t.sym(64, f'size of the {name} file', 0, 2 ** 40)
        self.gone = False            # truncated on opening
        self.dirty = self.failed = self.bad = False
        self.writes = []


class Handle:
    def __init__(self, f, mode):
        self.f, self.mode = f, mode
        self.pos = c64(0)
        self.closed = False
        self.wr = '+' in mode or mode[0] in 'wa'
        self.rd = '+' in mode or mode[0] == 'r'


class Out:
    """Standard output."""

    def __init__(self):
        self.parts = []              # (bytes or None for text, complete?, key of the state at that moment)
        self.dirty = self.failed = False
        self.closed = False


class World:
    def __init__(self, prog, ex, tool, mt, oid, oid2, tab):
        self.tool, self.mt, self.tab = tool, mt, tab
        self.ex = ex
        self.m = m = PathMachine(prog, {}, ex, limit=400000)
        self.st = st = State()
        from .g_basic import params_of
        self.p = params_of(prog, mt, oid)
        self.p2 = params_of(prog, mt, oid2) if oid2 is not None else self.p
        self.oid, self.oid2 = oid, oid2 if oid2 is not None else oid
        self.obl = []
        self.failed = False          # some operation on this path went wrong
        self.story = []
        self.out = Out()
        self.handles = {}
        self.files = {}
        self.lib = None              # the library call made
        self.n = 0
        m.models = self.models()
        for nm in ('stdout', 'stderr', 'stdin'):
            for u in {f.unit for f in prog.all_funcs()}:
                if prog.find_global(u, nm) is not None:
                    gl = prog.find_global(u, nm)
                    rid = f'g:{gl.unit.src}:{gl.name}'
                    m.region(rid, 8, Content(None, [], st.tok), state=st)
                    m.store(st, rid, c64(0), 8, ((t.ptr(nm, 0), 0, 8),))
        for nm in ('stdout', 'stderr', 'stdin'):
            m.region(nm, 8, Content(t.asym(nm), [], st.tok), state=st)
        nargs = 3 if tool != 'keypair' else 2
        m.region('argv', 8 * (nargs + 1), Content(None, [], st.tok), state=st, desc='argv')
        for i in range(nargs):
            m.region(f'arg{i}', None, Content(t.asym(f'arg{i}'), [], st.tok), state=st, desc=f'argument {i}')
            m.store(st, 'argv', c64(8 * i), 8, ((t.ptr(f'arg{i}', 0), 0, 8),))
        m.store(st, 'argv', c64(8 * nargs), 8, ((0, 0, 8),))
        if tool != 'keypair':
            self.file('key', 'arg1')
            self.file(DATA[tool], 'arg2')
            good = m.choose(3 if tool == 'sign' else 2, 'key file')
            if good:
                self.fails(('', 'unknown identifier in the public key', 'unknown identifier in the secret key')[good])
            bad = const(32, 0x7fffffff)
            self.place('key', 0, bad if good == 1 else const(32, self.oid))
            if tool == 'sign':
                self.place('key', 4 + self.p['pk_bytes'], bad if good == 2 else const(32, self.oid2))
        self.skpos = 4 + self.p['pk_bytes']

    def file(self, name, arg):
        f = self.files[arg] = File(name)
        self.m.region('F:' + name, None, Content(t.asym(f'{name} file'), [], self.st.tok), state=self.st)
        return f

    def place(self, name, off, w):
        self.m.store(self.st, 'F:' + name, c64(off), 4, t.be_bytes(w, 4))

    def fails(self, what):
        self.failed = True
        self.story.append(what)

    def where(self):
        return self.m.where()

    def rule(self, rule, ok, msg, st):
        """A fact that has to hold on this path."""
        self.obl.append((rule, self.where(), ok, msg, st.guard))

    # ------------------------------------------------------------ file operations
    def models(self):
        nop = lambda m, a, st: const(32, 0)
        d = {'fopen': self.fopen, 'fopen64': self.fopen, 'fclose': self.fclose, 'fread': self.fread, 'fwrite': self.fwrite,
             'fread_unlocked': self.fread, 'fwrite_unlocked': self.fwrite,
             'fseek': self.fseek, 'fseeko': self.fseek, 'fseeko64': self.fseek, 'ftell': self.ftell, 'ftello': self.ftell,
             'ftello64': self.ftell, 'rewind': self.rewind, 'fflush': self.fflush, 'ferror': self.ferror, 'feof': self.feof,
             'clearerr': nop, 'fileno': self.fileno, 'fsync': self.fsync, 'fdatasync': self.fsync, 'malloc': self.malloc,
             'calloc': self.calloc, 'free': nop, 'exit': self.exit, '_exit': self.exit, 'abort': self.abort, 'perror': nop,
             'printf': self.printf, 'fprintf': self.fprintf, 'puts': self.printf, 'putchar': self.printf, 'fputs': self.fputs,
             'fputc': self.fputs, 'putc': self.fputs, 'strerror': self.text, '__errno_location': self.errno,
             'setvbuf': nop, 'strlen': self.strlen}
        s = 'xmssmt' if self.mt else 'xmss'
        if self.tool == 'sign':
            d[f'{s}_sign'] = Model('sign', ['p', 'p', 'p', 'p', 64], self.sign)
        elif self.tool == 'open':
            d[f'{s}_sign_open'] = Model('sign_open', ['p', 'p', 'p', 64, 'p'], self.sign_open)
        else:
            d[f'{s}_keypair'] = Model('keypair', ['p', 'p', 32], self.keypair)
            for q in ('xmss', 'xmssmt'):
                d[f'{q}_str_to_oid'] = Model('str_to_oid', ['p', 'p'], self.str_to_oid)
        for q in ('xmss', 'xmssmt'):
            d[f'{q}_parse_oid'] = Model('parse_oid', ['p', 32], self.parse_oid)
        return d

    def parse_oid(self, m, a, st):
        """Identifiers that were never read properly: either refused or taken for the smallest one."""
        if a[1].op == 'const':
            return NOTHANDLED
        if m.choose(2, 'parse'):
            return const(32, -1)
        oid = min(self.tab)
        q = 'xmssmt_parse_oid' if self.mt else 'xmss_parse_oid'
        fn = m.prog.func(q)
        ret, out = m.call(fn, [a[0], const(32, oid)], st)
        st.mem = out.mem
        return ret

    def fresh(self, w, name, lo=None, hi=None):
        self.n += 1
        return t.sym(w, f'{name}{self.n}', lo, hi) if lo is not None else t.sym(w, f'{name}{self.n}')

    def errno(self, m, a, st):
        m.region('errno', 4, Content(t.asym('errno'), [], st.tok), state=st)
        return t.ptr('errno', 0)

    def text(self, m, a, st):
        return t.ptr('stderr', 0)

    def strlen(self, m, a, st):
        s = cstring(m, st, a[0])
        if s is None:
            return self.fresh(64, 'strlen', 0, 2 ** 20)
        return c64(len(s))

    def handle(self, p):
        h = self.handles.get(p.a[0]) if p.op == 'ptr' else None
        if h is not None and h.closed:
            raise AnalysisError(f'{self.where()}: file used after it was closed')
        return h

    def pick(self, what, kinds=('ok', 'fails')):
        i = self.m.choose(len(kinds), what)
        if i:
            self.fails(f'{what} {kinds[i]}')
        return kinds[i]

    def fopen(self, m, a, st):
        mode = cstring(m, st, a[1])
        f = self.files.get(a[0].a[0]) if a[0].op == 'ptr' else None
        if f is None or mode is None or not mode or mode[0] not in 'rwa':
            raise AnalysisError(f'{self.where()}: cannot tell which file is opened, or how')
        if self.pick(f'opening the {f.name} file') == 'fails':
            return NULL
        rid = f'FILE#{len(self.handles)}'
        m.region(rid, 8, Content(t.asym(rid), [], st.tok), state=st)
        h = self.handles[rid] = Handle(f, mode)
        if mode[0] == 'w':
            f.gone = f.bad = True
        return t.ptr(rid, 0)

    def fileno(self, m, a, st):
        return self.fresh(32, 'fd', 0, 1000)

    def fsync(self, m, a, st):
        return const(32, 0 if self.pick('fsync') == 'ok' else -1)

    def flush(self, p, what):
        """0 or EOF."""
        if p.op == 'ptr' and p.a[0] in ('stderr', 'stdin'):
            return const(32, 0)
        if p.op == 'ptr' and p.a[0] == 'stdout' or p is NULL:
            if self.out.dirty:
                if self.pick(f'{what} of standard output') == 'fails':
                    self.out.failed = True
                    return const(32, -1)
                self.out.dirty = False
            if p is not NULL:
                return const(32, 0)
        for h in self.handles.values() if p is NULL else [self.handle(p)]:
            if h is None:
                raise AnalysisError(f'{self.where()}: unknown stream')
            if h.f.dirty:
                if self.pick(f'{what} of the {h.f.name} file') == 'fails':
                    h.f.failed = True
                    h.f.dirty = False
                    return const(32, -1)
                h.f.dirty = False
        return const(32, 0)

    def fflush(self, m, a, st):
        return self.flush(a[0], 'flush')

    def fclose(self, m, a, st):
        r = self.flush(a[0], 'close')
        h = self.handle(a[0])
        if h is not None:
            h.closed = True
        if a[0].op == 'ptr' and a[0].a[0] == 'stdout':
            self.out.closed = True
        return r

    def ferror(self, m, a, st):
        if a[0].op == 'ptr' and a[0].a[0] == 'stdout':
            return const(32, 1 if self.out.failed else 0)
        h = self.handle(a[0])
        if h is not None and (h.f.failed or h.f.bad):
            return const(32, 1)
        return self.fresh(32, 'ferror', 0, 1) if self.failed else const(32, 0)

    def feof(self, m, a, st):
        return self.fresh(32, 'feof', 0, 1)

    def fseek(self, m, a, st):
        h = self.handle(a[0])
        if h is None or a[2].op != 'const':
            raise AnalysisError(f'{self.where()}: seek on an unknown stream')
        if h.f.dirty and self.flush(a[0], 'flush').a != 0:
            return const(32, -1)
        if self.pick(f'seek in the {h.f.name} file') == 'fails':
            return const(32, -1)
        base = {0: c64(0), 1: h.pos, 2: h.f.size}.get(a[2].a)
        h.pos = t.add(base, a[1])
        return const(32, 0)

    def rewind(self, m, a, st):
        h = self.handle(a[0])
        h.pos = c64(0)               # cannot report failure, so taken to succeed
        return const(32, 0)

    def ftell(self, m, a, st):
        h = self.handle(a[0])
        if self.pick(f'position of the {h.f.name} file') == 'fails':
            return c64(-1)
        return h.pos

    def fread(self, m, a, st):
        buf, size, n, fp = a
        h = self.handle(fp)
        if h is None:
            raise AnalysisError(f'{self.where()}: read from an unknown stream')
        total = t.mul(size, n)
        if total.op == 'const' and total.a == 0:
            return c64(0)
        kinds = ('ok', 'falls short')
        if h.f.gone or not h.rd:
            self.fails('reading what is not there')
            k = 1
        else:
            k = self.m.choose(2, 'read')
        if k == 0:
            m.write(st, buf, m.content(st, 'F:' + h.f.name).read(h.pos, total, 'F:' + h.f.name), 'write', total)
            h.pos = t.add(h.pos, total)
            return n
        self.fails(f'a read of the {h.f.name} file falls short')
        r = self.fresh(64, 'got', 0, 2 ** 40)
        m.fact(t.ult(r, n), True, st)
        self.n += 1
        m.write(st, buf, ((t.asym(f'short read {self.n}'), 0, total if total.op != 'const' else total.a),), 'write', total)
        h.pos = self.fresh(64, 'pos', 0, 2 ** 40)
        return r

    def fwrite(self, m, a, st):
        buf, size, n, fp = a
        total = t.mul(size, n)
        if total.op == 'const' and total.a == 0:
            return c64(0)
        k = total if total.op != 'const' else total.a
        data = t.norm(m.read(st, buf, k))
        if fp.op == 'ptr' and fp.a[0] == 'stderr':
            return n
        if fp.op == 'ptr' and fp.a[0] == 'stdout':
            self.emit(data, st)
            if self.pick('writing to standard output', ('ok', 'falls short')) == 'ok':
                self.out.parts.append((data, True))
                self.out.dirty = True
                return n
            self.out.parts.append((data, False))
            self.out.failed = self.out.dirty = True
        else:
            h = self.handle(fp)
            if h is None:
                raise AnalysisError(f'{self.where()}: write to an unknown stream')
            h.f.dirty = True
            if h.mode[0] == 'a':
                h.pos = h.f.size
            if h.wr and self.m.choose(2, 'write') == 0:
                m.store(st, 'F:' + h.f.name, h.pos, k, data)
                h.f.writes.append((h.pos, k))
                h.pos = t.add(h.pos, total)
                return n
            self.fails(f'writing to the {h.f.name} file falls short')
            h.f.bad = True
            h.pos = self.fresh(64, 'pos', 0, 2 ** 40)
        r = self.fresh(64, 'put', 0, 2 ** 40)
        m.fact(t.ult(r, n), True, st)
        return r

    def printf(self, m, a, st):
        self.out.parts.append((None, True))
        return self.fresh(32, 'printed')

    def fprintf(self, m, a, st):
        if a[0].op == 'ptr' and a[0].a[0] == 'stdout':
            self.out.parts.append((None, True))
        return self.fresh(32, 'printed')

    def fputs(self, m, a, st):
        if a[-1].op == 'ptr' and a[-1].a[0] == 'stdout':
            self.out.parts.append((None, True))
        return self.fresh(32, 'printed')

    def malloc(self, m, a, st):
        from .exec import LIBC
        if self.pick('memory allocation') == 'fails':
            return NULL
        return LIBC['malloc'](m, a, st, None)

    def calloc(self, m, a, st):
        from .exec import LIBC
        if self.pick('memory allocation') == 'fails':
            return NULL
        return LIBC['calloc'](m, a, st, None)

    def exit(self, m, a, st):
        raise End('exit', (a[0], st))

    def abort(self, m, a, st):
        raise End('exit', (const(32, 134), st))

    # ------------------------------------------------------------ library calls
    def image(self, st, off, n):
        return t.norm(self.m.content(st, 'F:key').read(off, n, 'F:key'))

    def data(self, st):
        f = self.files['arg2']
        return ((t.asym(f'{f.name} file'), 0, f.size),)

    def sign(self, m, a, st):
        p, p2 = self.p, self.p2
        sk, sm, smlen, msg, mlen = a
        k = 4 + p2['sk_bytes']
        L = {'what': 'sign', 'where': self.where(), 'sm': sm}
        key = t.norm(m.read(st, sk, k))
        L['key ok'] = key == self.image(st, self.skpos, k)
        L['len'] = mlen
        L['msg'] = t.norm(m.read(st, msg, mlen)) if not (mlen.op == 'const' and mlen.a == 0) else ()
        self.lib = L
        r = (0, -1, -2)[m.choose(3, 'signing')]
        self.n += 1
        new = t.asym('key after signing')
        m.write(st, padd(sk, 4), ((new, 0, k - 4),))
        total = t.addc(mlen, p2['sig_bytes'])
        L['total'] = total
        L['r'] = r
        L['new key'] = ((new, 0, k - 4),)
        if r:
            self.fails('signing fails')
            m.write(st, sm, ((t.asym('leftover'), 0, total),), 'write', total)
            m.write(st, smlen, ((self.fresh(64, 'smlen', 0, 2 ** 40), 0, 8),))
            L['bytes'] = None
        else:
            L['bytes'] = ((t.asym('signature'), 0, total),)
            m.write(st, sm, L['bytes'], 'write', total)
            m.write(st, smlen, ((total, 0, 8),))
        return const(32, r)

    def sign_open(self, m, a, st):
        msg, mlenp, sm, smlen, pk = a
        k = 4 + self.p['pk_bytes']
        L = {'what': 'sign_open', 'where': self.where()}
        L['key ok'] = t.norm(m.read(st, pk, k)) == self.image(st, 0, k)
        L['len'] = smlen
        L['msg'] = t.norm(m.read(st, sm, smlen)) if not (smlen.op == 'const' and smlen.a == 0) else ()
        self.lib = L
        L['r'] = (0, -1)[m.choose(2, 'verification')]
        m.write(st, msg, ((t.asym('opened'), 0, smlen),), 'write', smlen)
        m.write(st, mlenp, ((self.fresh(64, 'mlen', 0, 2 ** 40), 0, 8),))
        if L['r']:
            self.fails('the signature is rejected')
        return const(32, L['r'])

    def str_to_oid(self, m, a, st):
        if not (a[1].op == 'ptr' and a[1].a[0] == 'arg1' and a[1].a[1].op == 'const' and a[1].a[1].a == 0):
            raise AnalysisError(f'{self.where()}: parameter name is not the argument')
        if m.choose(2, 'name'):
            self.fails('unknown name')
            return const(32, -1)
        m.write(st, a[0], ((const(32, self.oid), 0, 4),))
        return const(32, 0)

    def keypair(self, m, a, st):
        pk, sk, oid = a
        L = {'what': 'keypair', 'where': self.where()}
        L['key ok'] = oid.op == 'const' and oid.a == self.oid
        self.lib = L
        L['r'] = (0, -1)[m.choose(2, 'key generation')]
        n1, n2 = 4 + self.p['pk_bytes'], 4 + self.p['sk_bytes']
        good = L['r'] == 0
        m.write(st, pk, ((t.asym('pk' if good else 'half pk'), 0, n1),))
        m.write(st, sk, ((t.asym('sk' if good else 'half sk'), 0, n2),))
        L['bytes'] = t.norm(((t.asym('pk'), 0, n1), (t.asym('sk'), 0, n2)))
        if not good:
            self.fails('key generation fails')
        return const(32, L['r'])

    # ------------------------------------------------------------ rules
    def emit(self, data, st):
        """Bytes go to standard output."""
        if self.tool != 'sign':
            return
        if all(isinstance(x, int) for x, o, n in data):
            return
        L = self.lib
        f = self.files['arg1']
        W = 'output only after the key is stored'
        self.rule(W, L is not None and L['r'] == 0, 'bytes are output although no signature was made', st)
        if L is None or L['r']:
            return
        k = self.p2['sk_bytes']
        self.rule(W, not f.bad, 'signature bytes are output although storing the updated key failed', st)
        self.rule(W, not f.failed, 'signature bytes are output although flushing the updated key failed', st)
        self.rule(W, not f.dirty, 'signature bytes are output before the updated key is flushed to the operating system', st)
        self.rule(W, self.image(st, self.skpos + 4, k) == t.norm(L['new key']),
                  'signature bytes are output before the whole updated key is in its place in the key file', st)
        self.rule(W, self.image(st, 0, self.skpos + 4) == self.orig, 'the key file is overwritten outside the secret key', st)
        self.rule('signs what was read', L['key ok'], 'the key that signs is not the one in the key file', st)
        self.input_rules(L, st)

    def input_rules(self, L, st):
        f = self.files['arg2']
        self.obl.append(('signs what was read' if self.tool == 'sign' else 'complete input', L['where'],
                         (L['len'], f.size), f'the length passed on is not that of the {f.name} file', st.guard))
        if not (isinstance(L['msg'], tuple) and L['msg'] == ()):
            self.obl.append(('signs what was read' if self.tool == 'sign' else 'complete input', L['where'],
                             (L['msg'], self.data(st)), f'the bytes passed on are not those of the {f.name} file', st.guard))

    def ended(self, status, st):
        """The process ends with this status."""
        zero = t.eq(t.trunc(status, 8), const(8, 0))
        z = self.m.decide(zero, st)
        loc = self.prog_loc
        L = self.lib
        if not self.failed:
            self.obl.append(('success reported', loc, (zero, t.TRUE), 'exit status is not zero although nothing failed', st.guard + (self.right,)))
        if z is False:
            return
        g = st.guard + ((zero,) if z is None else ())
        O = lambda rule, ok, msg: self.obl.append((rule, loc, ok, msg, g))
        E = 'status zero only on success'
        what = {'sign': 'a signature was made', 'open': 'the signature was accepted', 'keypair': 'keys were generated'}[self.tool]
        O(E, L is not None, f'exit status zero although nothing was done')
        if L is None:
            return
        O(E, L['r'] == 0, f'exit status zero although {what.replace("was made", "could not be made").replace("was accepted", "was rejected").replace("were generated", "could not be generated")}')
        if L['r']:
            return
        O(E, L['key ok'], 'exit status zero although the key used is not the one ' + ('named' if self.tool == 'keypair' else 'in the key file'))
        if self.tool == 'open':
            self.input_rules(L, st)
            return
        if self.tool == 'sign':
            self.input_rules(L, st)
        parts = [x for x in self.out.parts if x[0] is not None or self.tool == 'keypair']
        whole = all(x[1] for x in parts) and not self.out.failed and not any(x[0] is None for x in parts)
        O(E, whole, 'exit status zero although writing the output failed')
        O(E, not self.out.dirty, 'exit status zero although the output was never flushed without error')
        if whole:
            got = t.norm(tuple(x for p in parts for x in p[0]))
            self.obl.append((E, loc, (got, L['bytes']), 'exit status zero although the output is not '
                             + ('the whole signed message' if self.tool == 'sign' else 'the public key followed by the secret key'), g))


def padd(p, k):
    return t.ptr(p.a[0], t.addc(p.a[1], k))


def g_tool(tool, mt, oid, oid2=None):
    s = 'xmssmt' if mt else 'xmss'
    tab = spec.XMSSMT_T if mt else spec.XMSS_T
    R = Report(f'{s}_{tool}/{tab[oid][0]}')
    prog = program(f'ui:{tool}:{s}')
    fn = prog.func('main')
    ex = Explorer(limit=4000, seconds=15)
    ends = {}
    seen = set()
    errs = set()
    for _ in ex.all():
        w = World(prog, ex, tool, mt, oid, oid2, tab)
        w.prog_loc = fn.loc
        m, st = w.m, w.st
        argc = t.sym(32, 'argc', 0, 1000)
        w.right = t.eq(argc, const(32, 2 if tool == 'keypair' else 3))
        if tool == 'sign':
            w.orig = w.image(st, 0, w.skpos + 4)
        try:
            if len(fn.params) == 0:
                args = []
            else:
                args = [argc, t.ptr('argv', 0)]
            ret, out = m.call(fn, args[:len(fn.params)], st)
            if out is None:
                why = 'dead'
            else:
                why = 'returned'
                w.ended(ret, out)
        except End as e:
            why = e.why
            if why == 'exit':
                w.ended(*e.value)
        except AnalysisError as e:
            why = 'not analysed'
            if str(e) not in errs:
                errs.add(str(e))
                R.unresolved('paths', f'{R.group}: {e}')
        ends[why] = ends.get(why, 0) + 1
        m.stats['branches'] += ex.pos
        R.use(m)
        n = 3 if tool != 'keypair' else 2
        base = [{argc: k, **{f.size: v for f in w.files.values()}} for k in (n, 1, n - 1, n + 1, 0) for v in (5, 0, 1, 70000, 2 ** 31 + 9, 2 ** 32 + 5)]
        smp = Small(base, w.n)
        W = f'{s}_{tool}' + (', when ' + ', '.join(w.story) if w.story else '')
        for rule, where, x, msg, guard in w.obl:
            key = (rule, where, msg, x, guard)
            if key in seen:
                R.ok(rule)
                continue
            if isinstance(x, tuple):
                seen.add(key)
                R.same(rule, where, x[0], x[1], f'{W}: {msg}', guard, smp)
            elif x:
                R.ok(rule)
            else:
                seen.add(key)
                if possible(guard, smp):
                    R.fail(rule, where, f'{W}: {msg}')
                else:
                    R._ok(rule, 'vacuous')
        R.safe('tool accesses', m, smp)
        if len(R.viol) >= 8:
            break                     # enough to report
    if not ex.full:
        R.unresolved('paths', f'{R.group}: more than {ex.paths} paths')
    R.notes.append(f'{R.group}: {ex.paths} paths: ' + ', '.join(f'{v} {k}' for k, v in sorted(ends.items())))
    return R


class Small(Sampler):
    """Assignments with small values for lengths and counts."""
    paths, free = True, None

    def __init__(self, base, n):
        self.base, self.k = base, n

    def __iter__(self):
        from .report import SEED
        i = 0
        for b in self.base:
            for d in (0, 1, 3, None):
                i += 1
                yield Fixed((SEED, 't', i), dict(b), {}, d)


class Fixed(t.Interp):
    """Interpretation where every symbol not named takes one value."""

    def __init__(self, seed, vals, arrs, d=None):
        super().__init__(seed, vals, arrs)
        self.d = d

    def rnd(self, lo, hi, *key):
        if self.d is None or not key or key[0] != 'sym':
            return super().rnd(lo, hi, *key)
        return max(lo, min(hi, self.d))
