"""Groups: purity. Names reachable from signing and verification, and writes to data that outlives a call."""
from . import cg
from .ir import GRef, program, sizeof, line_of
from .report import Report

API = ('xmss_sign', 'xmssmt_sign', 'xmss_sign_open', 'xmssmt_sign_open', 'xmss_core_sign', 'xmssmt_core_sign',
       'xmss_core_sign_open', 'xmssmt_core_sign_open')
ALL = API + ('xmss_keypair', 'xmssmt_keypair', 'xmss_core_keypair', 'xmssmt_core_keypair', 'xmss_core_seed_keypair',
             'xmssmt_core_seed_keypair')
# what a call of these would draw on or leave behind
AMBIENT = {
    'randomness': 'randombytes getrandom getentropy rand rand_r srand random srandom drand48 lrand48 mrand48 arc4random '
                  'arc4random_buf arc4random_uniform RAND_bytes RAND_priv_bytes RAND_pseudo_bytes RAND_add RAND_seed',
    'clock': 'time clock gettimeofday clock_gettime clock_getres times localtime gmtime ctime mktime ftime timespec_get '
             'getrusage nanosleep usleep sleep',
    'files': 'open open64 openat creat fopen fopen64 fdopen freopen read pread pread64 readv fread fgets fgetc getc getchar '
             'gets getline getdelim scanf fscanf __isoc99_scanf __isoc99_fscanf __isoc23_scanf __isoc23_fscanf write pwrite '
             'fwrite fopencookie mmap mmap64 shm_open stat stat64 fstat lstat access opendir readdir socket recv recvfrom send '
             'ioctl lseek fseek ftell tmpfile mkstemp unlink remove rename',
    'environment': 'getenv secure_getenv setenv putenv unsetenv getauxval sysconf uname gethostname getpid getppid gettid '
                   'pthread_self getuid geteuid getcwd sched_getcpu getpagesize getrlimit times system popen fork execve '
                   'syscall setlocale getopt signal sigaction alarm',
}
BAD = {x: k for k, v in AMBIENT.items() for x in v.split()}
# what draws on its arguments only (and on the allocator or an error stream)
PURE = set('''memcpy memmove memset memcmp bcmp bzero explicit_bzero memchr strlen strcmp strncmp strcpy strncpy strcat strchr
__memcpy_chk __memset_chk __memmove_chk malloc calloc realloc free aligned_alloc posix_memalign abort exit _exit __assert_fail
__stack_chk_fail SHA256 SHA512 SHA256_Init SHA256_Update SHA256_Final SHA512_Init SHA512_Update SHA512_Final
SHA224 SHA384 SHA256_Transform SHA512_Transform EVP_MD_CTX_new EVP_MD_CTX_free EVP_MD_CTX_reset EVP_DigestInit EVP_DigestInit_ex
EVP_DigestUpdate EVP_DigestFinal EVP_DigestFinal_ex EVP_DigestFinalXOF EVP_Digest EVP_sha256 EVP_sha512 EVP_shake128 EVP_shake256
OPENSSL_cleanse printf fprintf puts putchar fputs fputc perror fflush snprintf sprintf abs labs htonl ntohl htons ntohs
stderr stdout llabs qsort bsearch fwrite_unlocked ffs __builtin_unreachable'''.split())
# external functions that write through which of their pointer arguments (None: none)
EXT = {'memcpy': {0}, 'memmove': {0}, 'memset': {0}, '__memcpy_chk': {0}, '__memset_chk': {0}, '__memmove_chk': {0},
       'bzero': {0}, 'explicit_bzero': {0}, 'OPENSSL_cleanse': {0}, 'SHA256': {2}, 'SHA512': {2}, 'SHA256_Init': {0},
       'SHA256_Update': {0}, 'SHA256_Final': {0, 1}, 'SHA512_Init': {0}, 'SHA512_Update': {0}, 'SHA512_Final': {0, 1},
       'read': {1}, 'fread': {0}, 'sprintf': {0}, 'snprintf': {0}, 'strcpy': {0}, 'strncpy': {0}, 'strcat': {0}}
SCALAR = 16


def reach(prog, names):
    """{key: Func or name} reachable from the named functions, address-taken functions included; name -> path."""
    seen, work, via = {}, [], {}
    for n in names:
        if prog.has(n):
            f = prog.func(n)
            seen[cg.key(f)] = f
            via[cg.key(f)] = (n,)
            work.append(f)
    while work:
        f = work.pop()
        if isinstance(f, str):
            continue
        for g in cg.callees(prog, f) + taken(prog, f):
            if cg.key(g) not in seen:
                seen[cg.key(g)] = g
                via[cg.key(g)] = via[cg.key(f)] + (g if isinstance(g, str) else g.name,)
                work.append(g)
    return seen, via


def insts(f):
    for b in f.blocks.values():
        for p in b.phis:
            yield p
        yield from b.insts
        if b.term is not None:
            yield b.term


def operands(i):
    """Operand values of an instruction."""
    if i.op == 'call':
        return [v for _, v in i.a]
    if i.op == 'phi':
        return [v for _, v in i.x]
    out = list(i.a)
    if i.op == 'getelementptr':
        out += [v for _, v in i.x[1]]
    return out


def taken(prog, f):
    """Functions whose address f uses."""
    out = []
    for i in insts(f):
        for v in operands(i):
            if isinstance(v, GRef) and prog.find_global(f.unit, v.name) is None:
                g = prog.find(f.unit, v.name)
                out.append(g or v.name)
            elif isinstance(v, GRef):
                gl = prog.find_global(f.unit, v.name)
                out += inits(prog, gl, set())
    return out


def inits(prog, gl, seen):
    """Functions named in the initialiser of a global."""
    if id(gl) in seen or gl.external:
        return []
    seen.add(id(gl))
    out, st = [], [gl.init]
    while st:
        v = st.pop()
        if isinstance(v, GRef):
            g2 = prog.find_global(gl.unit, v.name)
            if g2 is None:
                out.append(prog.find(gl.unit, v.name) or v.name)
            else:
                out += inits(prog, g2, seen)
        elif isinstance(v, (tuple, list)):
            st += [x for x in v if isinstance(x, (tuple, list, GRef))]
    return out


class Effects:
    """Where the memory behind a pointer is written: flow-insensitive, through calls by parameter."""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def param(self, f, k):
        """(writes, escapes) through parameter k of f."""
        key = (cg.key(f), k)
        if key not in self.memo:
            self.memo[key] = ([], [])
            if k < len(f.params):
                self.memo[key] = self.flow(f, {f.params[k][0]}, None)
        return self.memo[key]

    def flow(self, f, roots, gl):
        """Writes and escapes of pointers derived from roots (local names) or from global gl."""
        der = set(roots)

        def isd(v):
            if isinstance(v, GRef):
                return gl is not None and self.prog.find_global(f.unit, v.name) is gl
            return isinstance(v, str) and v in der
        while True:
            k = len(der)
            for i in insts(f):
                if i.dst is None or i.dst in der:
                    continue
                if i.op == 'getelementptr' or i.op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                    if isd(i.a[0]):
                        der.add(i.dst)
                elif i.op == 'phi':
                    if any(isd(v) for _, v in i.x):
                        der.add(i.dst)
                elif i.op == 'select':
                    if isd(i.a[1]) or isd(i.a[2]):
                        der.add(i.dst)
                elif i.op == 'call' and isinstance(i.x, str) and i.x.startswith('llvm.threadlocal.address'):
                    if isd(i.a[0][1]):
                        der.add(i.dst)
            if len(der) == k:
                break
        wr, esc = [], []
        for i in insts(f):
            where = line_of(f.unit, i.dbg)
            if i.op == 'store':
                if isd(i.a[1]):
                    wr.append((where, f.name))
                if isd(i.a[0]):
                    esc.append((where, f.name))
            elif i.op == 'unsupported':
                if gl is not None and f'@{gl.name}' in i.text or any(d in i.text for d in der):
                    wr.append((where, f.name))
            elif i.op == 'ret':
                if i.a and isd(i.a[0]):
                    esc.append((where, f.name))
            elif i.op == 'call':
                for n, (_, v) in enumerate(i.a):
                    if not isd(v):
                        continue
                    if i.bv and n in i.bv:
                        continue
                    if not isinstance(i.x, str):
                        esc.append((where, f.name))
                        continue
                    if i.x.startswith('llvm.'):
                        if i.x.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) and n == 0:
                            wr.append((where, f.name))
                        continue
                    g = self.prog.find(f.unit, i.x)
                    if g is not None:
                        w, e = self.param(g, n)
                        if w:
                            wr.append((where, f'{f.name} through {g.name}'))
                        if e:
                            esc.append((where, f'{f.name} through {g.name}'))
                    elif i.x in EXT:
                        if n in EXT[i.x]:
                            wr.append((where, f'{f.name} through {i.x}'))
                    elif i.x not in PURE:
                        esc.append((where, f'{f.name} through {i.x}'))
        return wr, esc


def statics(prog):
    """[(global, writes, escapes, accessing functions)] for the program's non-constant data."""
    memo = prog.__dict__.get('_statics')
    if memo is not None:
        return memo
    ef = Effects(prog)
    out = []
    for u in prog.units:
        for gl in u.globals.values():
            if gl.external or gl.const or gl.name.startswith('llvm.'):
                continue
            wr, esc, acc = [], [], set()
            for f in prog.all_funcs():
                if any(isinstance(v, GRef) and prog.find_global(f.unit, v.name) is gl for i in insts(f) for v in operands(i)):
                    acc.add(cg.key(f))
                    w, e = ef.flow(f, set(), gl)
                    wr += w
                    esc += e
            for u2 in prog.units:
                for g2 in u2.globals.values():
                    if g2 is not gl and not g2.external and mentions(prog, g2, gl):
                        esc.append((g2.unit.src, f'initialiser of {g2.name}'))
            out.append((gl, wr, esc, acc))
    prog.__dict__['_statics'] = out
    return out


def mentions(prog, g2, gl):
    st = [g2.init]
    while st:
        v = st.pop()
        if isinstance(v, GRef):
            if prog.find_global(g2.unit, v.name) is gl:
                return True
        elif isinstance(v, (tuple, list)):
            st += [x for x in v if isinstance(x, (tuple, list, GRef))]
    return False


def frozen(prog, gl):
    """A non-constant global that nothing writes and whose address does not get away: its initial value stays."""
    for g, wr, esc, acc in statics(prog):
        if g is gl:
            return not wr and not esc and gl.internal
    return False


def g_reach(variant):
    """Nothing ambient is reachable from signing or verification."""
    R = Report(f'reach/{variant}')
    prog = program(variant)
    for n in API:
        if not prog.has(n):
            R.unresolved('nothing ambient', f'{n} not found')
    for n in API:
        if not prog.has(n):
            continue
        seen, via = reach(prog, [n])
        for k, g in seen.items():
            R.stats['calls'] += 1
            if isinstance(g, str) or g.name == 'randombytes':
                nm = g if isinstance(g, str) else g.name
                at = prog.func(n).loc
                if nm in BAD:
                    R.fail('nothing ambient', at, f'{n} reaches {nm} ({BAD[nm]}) through {" -> ".join(via[k])}')
                elif isinstance(g, str) and nm not in PURE and not nm.startswith('llvm.'):
                    R.unresolved('nothing ambient', f'{n} reaches the unknown function {nm} through {" -> ".join(via[k])}')
                else:
                    R.ok('nothing ambient')
                continue
            R.stats['functions'].add(g.name)
            for i in insts(g):
                R.stats['insts'] += 1
                if i.op == 'unsupported':
                    R.unresolved('nothing ambient', f'{line_of(g.unit, i.dbg)}: {i.text[:80]}')
                elif i.op == 'call' and isinstance(i.x, str) and i.x.startswith('llvm.') and (
                        'cycle' in i.x or 'rdtsc' in i.x or 'rdrand' in i.x or 'rdseed' in i.x or 'rdpid' in i.x):
                    R.fail('nothing ambient', line_of(g.unit, i.dbg), f'{n} reads {i.x} in {g.name}')
                elif i.op == 'call':
                    R.ok('nothing ambient')
                else:
                    for v in operands(i):
                        if isinstance(v, GRef):
                            gl = prog.find_global(g.unit, v.name)
                            if gl is not None and gl.external and gl.name not in PURE:
                                R.fail('nothing ambient', line_of(g.unit, i.dbg),
                                       f'{n} uses the external variable {gl.name} in {g.name}') if gl.name in (
                                    'environ', '__environ', 'errno', 'optarg', 'optind', 'timezone', 'daylight') else \
                                    R.unresolved('nothing ambient', f'{line_of(g.unit, i.dbg)}: external variable {gl.name}')
            R.ok('nothing ambient')
    return R


def g_static(variant):
    """No data that outlives a call is written, but for a handle only the random source touches."""
    R = Report(f'static/{variant}')
    prog = program(variant)
    lib, _ = reach(prog, ALL)
    rnd, _ = reach(prog, ['randombytes'])
    pure, _ = reach(prog, API)
    R.stats['functions'] |= {f.name for f in prog.all_funcs()}
    for u in prog.units:
        for gl in u.globals.values():
            if gl.const and not gl.external:
                R.ok('no lasting state')
    for gl, wr, esc, acc in statics(prog):
        if not wr:
            if esc:
                R.unresolved('no lasting state', f'{esc[0][0]}: the address of {gl.name} gets away in {esc[0][1]}')
            else:
                R.ok('no lasting state')
            continue
        handle = acc <= set(rnd) and sizeof(gl.ty) <= SCALAR
        if handle or not acc & set(lib):
            R.ok('no lasting state')
            continue
        for where, how in wr[:3]:
            R.fail('no lasting state', where, f'{how} writes the {"static" if gl.internal else "global"} variable {gl.name} ({sizeof(gl.ty)} bytes)')
    return R
