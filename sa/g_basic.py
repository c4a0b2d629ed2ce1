"""Groups: parameter tables, integer codecs and addresses, hash constructions."""
from . import term as t, spec, strings
from .term import const, c64
from .ir import program, AnalysisError
from .mem import Content, Seg
from .models import Ctx, fields, pick
from .confine import confined, settled
from .report import Report, Sampler

FIELDS = ('func', 'n', 'padding_len', 'wots_w', 'wots_log_w', 'wots_len1', 'wots_len2', 'wots_len', 'wots_sig_bytes',
          'full_height', 'tree_height', 'd', 'index_bytes', 'sig_bytes', 'pk_bytes')


def fresh(prog, vals=None, name='params'):
    """Context with a writable parameter struct of unknown contents."""
    c = Ctx(prog)
    lay = c.m.layout
    size = (max(o + s for o, s in lay.values()) + 7) // 8 * 8
    seg = Seg()
    for k, v in (vals or {}).items():
        o, s = lay[k]
        seg.put(o, ((const(8 * s, v), 0, s),))
    c.m.region('params', size, Content(None, [seg], c.st.tok), state=c.st, desc='the parameter struct')
    return c


def parse(prog, fn, oid):
    """Result of parsing one identifier: (ret term, {field: term}, ctx)."""
    c = fresh(prog)
    ret, out = c.call(fn, [t.ptr('params', 0), oid])
    vals = {}
    if out is not None:
        for k, (o, s) in c.m.layout.items():
            vals[k] = t.word_of(c.get('params', o, s), s)
    return ret, vals, c


_pc = {}


def params_of(prog, mt, oid):
    """The parameter values the code itself derives for a registered identifier (dict of ints)."""
    key = (id(prog), mt, oid)
    if key not in _pc:
        fn = 'xmssmt_parse_oid' if mt else 'xmss_parse_oid'
        ret, vals, c = parse(prog, fn, const(32, oid))
        out = {k: v.a for k, v in vals.items() if v.op == 'const'}
        if ret is None or ret.op != 'const' or ret.a != 0 or len(out) < len(FIELDS):
            raise BadParams(f'{fn} does not configure registered identifier {oid:#x}')
        _pc[key] = out
    return _pc[key]


class BadParams(Exception):
    """The code's own parameter table is wrong: decided (and reported) by the parameter group."""


def g_params(variant='ref'):
    R = Report('params/' + variant)
    prog = program(variant)
    for tab, pfn, sfn in ((spec.XMSS_T, 'xmss_parse_oid', 'xmss_str_to_oid'),
                          (spec.XMSSMT_T, 'xmssmt_parse_oid', 'xmssmt_str_to_oid')):
        f = prog.func(pfn)
        for oid, (name, p) in tab.items():
            ret, vals, c = parse(prog, pfn, const(32, oid))
            R.use(c.m)
            R.safe('parameter accesses', c.m)
            if ret is None:
                R.fail('identifier accepted', f.loc, f'{pfn}({oid:#x}) does not return')
                continue
            R.same('identifier accepted', f.loc, ret, const(32, 0), f'{pfn}({oid:#x}, {name}) result')
            for k in FIELDS:
                v = vals[k]
                R.same('parameter value', f.loc, v, const(v.w, p[k]), f'{pfn}({oid:#x}, {name}): {k}')
        # every other identifier
        known = sorted(tab)
        prev = 0
        gaps = []
        for o in known + [1 << 32]:
            if o > prev:
                gaps.append((prev, o - 1))
            prev = o + 1
        for lo, hi in gaps:
            x = t.sym(32, f'oid[{lo:#x}..{hi:#x}]', lo, hi)
            ret, vals, c = parse(prog, pfn, x)
            R.use(c.m)
            if ret is None:
                R.fail('other identifiers refused', f.loc, f'{pfn} does not return')
                continue
            near = [({x: v}, {}) for v in sorted({lo, hi, *range(lo, min(hi, lo + 300) + 1)})]
            R.never('other identifiers refused', f.loc, t.eq(ret, const(32, 0)),
                    f'{pfn} accepts an unregistered identifier in [{lo:#x}, {hi:#x}]', (), Sampler(near, 8))
        # names
        f = prog.func(sfn)

        def run_name(s):
            c = Ctx(prog)
            c.m.region('oid', 4, Content(t.asym('oid0'), [], c.st.tok), state=c.st)
            if s is None:
                c.buf('name', None, ro=True)
            else:
                b = s + b'\0'
                c.buf('name', len(b), tuple((x, 0, 1) for x in b), ro=True)
            ret, out = c.call(sfn, [t.ptr('oid', 0), t.ptr('name', 0)])
            R.use(c.m)
            R.safe('name accesses', c.m)
            if ret is None:
                raise AnalysisError(f'{sfn} does not return')
            return ret, t.word_of(c.get('oid', 0, 4), 4), c
        names = {n.encode(): o for o, (n, _) in tab.items()}
        bad = {b'', b'XMSS', b'XMSSMT', b'0', b'1'}
        for n in names:
            bad |= {n[:-1], n + b'x', n + b' ', b' ' + n, n.lower(), n[1:], n.replace(b'_', b'-'), n + b'\n',
                    n.replace(b'XMSS-', b'XMSSMT-') if n.startswith(b'XMSS-') else n.replace(b'XMSSMT-', b'XMSS-')}
        ret, oid, c = run_name(None)
        ufs = c.m.__dict__.get('strufs', [])
        if not ufs:
            raise AnalysisError(f'{sfn}: no string comparison found')
        r0 = t.subst(ret, {u: const(32, 1) for u in ufs})
        R.never('other names refused', f.loc, t.eq(r0, const(32, 0)), f'{sfn} accepts a name that matches no entry')
        bad |= {s for s in c.m.__dict__.get('strlits', set())}
        for n, o in names.items():
            ret, oid, c = run_name(n)
            R.same('name recognised', f.loc, ret, const(32, 0), f'{sfn}("{n.decode()}") result')
            R.same('name maps to its identifier', f.loc, oid, const(32, o), f'{sfn}("{n.decode()}") identifier')
        for n in sorted(bad - set(names)):
            ret, oid, c = run_name(n)
            R.never('other names refused', f.loc, t.eq(ret, const(32, 0)), f'{sfn} accepts {n!r}')
    return R


def g_codec(variant='ref'):
    R = Report('codec/' + variant)
    prog = program(variant)
    f = prog.func('ull_to_bytes')
    x = t.sym(64, 'in')
    for L in range(0, 73):
        c = Ctx(prog)
        c.buf('out', L + 2)
        ret, out = c.call('ull_to_bytes', [t.ptr('out', 1), L, x])
        R.use(c.m)
        if out is None:
            R.fail('encoding', f.loc, f'ull_to_bytes does not return for length {L}')
            continue
        R.safe('encoding accesses', c.m)
        R.same('encoding', f.loc, c.get('out', 0, L + 2),
               ((t.asym('out'), 0, 1),) + t.be_bytes(x, L) + ((t.asym('out'), L + 1, 1),),
               f'ull_to_bytes with length {L}')
    f = prog.func('bytes_to_ull')
    for L in range(0, 9):
        c = Ctx(prog)
        c.buf('in', L, ro=True)
        ret, out = c.call('bytes_to_ull', [t.ptr('in', 0), L])
        R.use(c.m)
        if ret is None:
            R.fail('decoding', f.loc, f'bytes_to_ull does not return for length {L}')
            continue
        R.safe('decoding accesses', c.m)
        R.same('decoding', f.loc, ret, t.be_word(((t.asym('in'), 0, L),), L, 64) if L else c64(0),
               f'bytes_to_ull with length {L}')
        # inverse of the encoding
        if L:
            bs = t.be_bytes(x, L)
            sp = t.zext(t.extract(x, 0, 8 * L), 64)
            c = Ctx(prog)
            c.buf('in', L, bs, ro=True)
            ret, out = c.call('bytes_to_ull', [t.ptr('in', 0), L])
            R.same('decoding inverts encoding', f.loc, ret, sp, f'bytes_to_ull(ull_to_bytes(x)) with length {L}')
    # address fields
    w = [t.sym(32, f'a{i}') for i in range(8)]
    v = t.sym(32, 'v')
    tr = t.sym(64, 'tree')
    for fn, arg, upd in (('set_layer_addr', v, {0: v}), ('set_tree_addr', tr, {1: t.extract(tr, 32, 32), 2: t.extract(tr, 0, 32)}),
                         ('set_type', v, {3: v}), ('set_ots_addr', v, {4: v}), ('set_ltree_addr', v, {4: v}),
                         ('set_chain_addr', v, {5: v}), ('set_tree_height', v, {5: v}), ('set_hash_addr', v, {6: v}),
                         ('set_tree_index', v, {6: v}), ('set_key_and_mask', v, {7: v})):
        c = Ctx(prog)
        c.addr('addr', w)
        f = prog.func(fn)
        c.call(fn, [t.ptr('addr', 0), arg])
        R.use(c.m)
        R.safe('address accesses', c.m)
        R.same('address field', f.loc, c.get('addr', 0, 32),
               t.norm(tuple((upd.get(i, w[i]), 0, 4) for i in range(8))), f'{fn}: address words')
    f = prog.func('copy_subtree_addr')
    c = Ctx(prog)
    c.addr('addr', w)
    o = [t.sym(32, f'o{i}') for i in range(8)]
    c.addr('out', o)
    c.call('copy_subtree_addr', [t.ptr('out', 0), t.ptr('addr', 0)])
    R.use(c.m)
    R.same('address field', f.loc, c.get('out', 0, 32), tuple((w[i] if i < 3 else o[i], 0, 4) for i in range(8)),
           'copy_subtree_addr: output words')
    R.same('address field', f.loc, c.get('addr', 0, 32), tuple((w[i], 0, 4) for i in range(8)),
           'copy_subtree_addr: input words')
    f = prog.func('addr_to_bytes')
    c = Ctx(prog)
    c.addr('addr', w)
    c.buf('out', 32)
    c.call('addr_to_bytes', [t.ptr('out', 0), t.ptr('addr', 0)])
    R.use(c.m)
    R.safe('address accesses', c.m)
    R.same('address encoding', f.loc, c.get('out', 0, 32), spec.addr_bytes(w), 'addr_to_bytes: output')
    return R


def g_hash(key, variant='ref'):
    """key = (n, func, padding_len)"""
    R = Report(f'hash/{key}')
    prog = program(variant)
    p = spec.hash_combos()[key]
    name = p['name']
    n, pd = p['n'], p['padding_len']
    mk = lambda: Ctx(prog, p, pick('shake128', 'shake256'))
    A = lambda nm, off, ln: ((t.asym(nm), off, ln),)

    def done(c, fn, ret, out, want, what):
        f = prog.func(fn)
        R.use(c.m)
        if out is None or ret is None:
            R.fail(what, f.loc, f'{fn} does not return for {name}')
            return
        R.safe('hash accesses', c.m)
        if 'key' in c.m.regions:
            confined(R, c.m, out, f.loc, f'{fn} ({name})', {'key': [(0, n)]}, None, ('key',), core=True)
        settled(R, c.m, out, f.loc, f'{fn} ({name})', None, (), ret)
        R.same(what, f.loc, c.get('out', 0, n), want, f'{fn} ({name}) output')
        R.same(what + ' result', f.loc, ret, const(32, 0), f'{fn} ({name}) return value')
        sz = c.m.regions['out'].size
        if sz > n:
            R.same('output length', f.loc, c.get('out', n, sz - n), A('out', n, sz - n),
                   f'{fn} ({name}): bytes after the {n}-byte output')
    c = mk()
    c.buf('out', n + 8), c.buf('in', 32, ro=True), c.buf('key', n, ro=True)
    ret, out = c.call('prf', [c.p, t.ptr('out', 0), t.ptr('in', 0), t.ptr('key', 0)])
    done(c, 'prf', ret, out, spec.PRF(p, A('key', 0, n), A('in', 0, 32)), 'PRF')
    c = mk()
    c.buf('out', n + 8), c.buf('in', 32 + n, ro=True), c.buf('key', n, ro=True)
    ret, out = c.call('prf_keygen', [c.p, t.ptr('out', 0), t.ptr('in', 0), t.ptr('key', 0)])
    done(c, 'prf_keygen', ret, out, spec.PRFKG(p, A('key', 0, n), A('in', 0, 32 + n)), 'PRF_keygen')
    w = [t.sym(32, f'a{i}') for i in range(8)]
    for fn, k, sp in (('thash_f', 1, spec.F), ('thash_h', 2, spec.H)):
        for alias in (None, 0):
            # output separate from the input, or written over its first n bytes (as the callers do)
            c = mk()
            c.addr('addr', w)
            c.buf('seed', n, ro=True)
            if alias is None:
                c.buf('out', n + 8)
                c.buf('x', k * n, ro=True)
                ret, out = c.call(fn, [c.p, t.ptr('out', 0), t.ptr('x', 0), t.ptr('seed', 0), t.ptr('addr', 0)])
                x = A('x', 0, k * n)
            else:
                c.buf('out', k * n + 8)
                ret, out = c.call(fn, [c.p, t.ptr('out', 0), t.ptr('out', 0), t.ptr('seed', 0), t.ptr('addr', 0)])
                x = A('out', 0, k * n)
            done(c, fn, ret, out, sp(p, x, A('seed', 0, n), w), 'F' if k == 1 else 'H')
            if out is not None:
                R.same('address fields kept', prog.func(fn).loc, c.get('addr', 0, 28), tuple((x_, 0, 4) for x_ in w[:7]),
                       f'{fn} ({name}): address words 0-6')
    # H writing to the second half, as path computation does
    c = mk()
    c.addr('addr', w)
    c.buf('seed', n, ro=True)
    c.buf('out', 2 * n)
    ret, out = c.call('thash_h', [c.p, t.ptr('out', n), t.ptr('out', 0), t.ptr('seed', 0), t.ptr('addr', 0)])
    R.use(c.m)
    if out is not None:
        R.safe('hash accesses', c.m)
        R.same('H', prog.func('thash_h').loc, c.get('out', 0, 2 * n),
               A('out', 0, n) + spec.H(p, A('out', 0, 2 * n), A('seed', 0, n), w), f'thash_h ({name}) over its second input')
    # message hash: message of unknown length
    for mlen in (t.sym(64, 'mlen', 0, 1 << 60), c64(0), c64(1)):
        c = mk()
        pre = pd + 3 * n
        size = t.addc(mlen, pre)
        c.buf('m', size.a if size.op == 'const' else size)
        c.buf('out', n + 8), c.buf('R', n, ro=True), c.buf('root', n, ro=True)
        idx = t.sym(64, 'idx')
        ret, out = c.call('hash_message', [c.p, t.ptr('out', 0), t.ptr('R', 0), t.ptr('root', 0), idx, t.ptr('m', 0), mlen])
        ml = mlen.a if mlen.op == 'const' else mlen
        done(c, 'hash_message', ret, out,
             spec.HMSG(p, A('R', 0, n), A('root', 0, n), idx, A('m', pre, ml)), 'H_msg')
        if out is not None:
            R.same('message kept', prog.func('hash_message').loc, c.get('m', pre, ml), t.norm(A('m', pre, ml)),
                   f'hash_message ({name}): the message bytes')
    return R


def g_hash_other():
    """Unsupported combinations are refused; padding constants differ."""
    R = Report('hash/other')
    prog = program('ref')
    ok = set(spec.hash_combos())
    for n in (16, 24, 32, 48, 64):
        for func in (0, 1, 2, 3):
            for pd in (4, 32, 64):
                if any(k[0] == n and k[1] == func for k in ok):
                    continue
                base = dict(next(iter(spec.hash_combos().values())), n=n, func=func, padding_len=pd)
                c = Ctx(prog, base, pick('shake128', 'shake256'))
                c.buf('out', 64), c.buf('in', 32, ro=True), c.buf('key', n, ro=True)
                ret, out = c.call('prf', [c.p, t.ptr('out', 0), t.ptr('in', 0), t.ptr('key', 0)])
                R.use(c.m)
                f = prog.func('prf')
                if ret is None:
                    raise AnalysisError('prf does not return')
                R.never('unsupported combination refused', f.loc, t.eq(ret, const(32, 0)),
                        f'prf reports success for n={n}, function {func}')
                R.same('unsupported combination refused', f.loc, c.get('out', 0, 64), ((t.asym('out'), 0, 64),),
                       f'prf writes output for n={n}, function {func}')
    return R
