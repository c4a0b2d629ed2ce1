"""Groups: the public entry points that read the parameter set from the key."""
from . import term as t, spec
from .term import const, c64
from .ir import program, AnalysisError
from .models import Ctx, Model, read_params
from .report import Report, Sampler
from .g_basic import FIELDS
from .confine import confined, settled

SIGS = {'keypair': ['p'] * 3, 'sign': ['p', 'p', 'p', 'p', 'p', 64], 'sign_open': ['p', 'p', 'p', 'p', 64, 'p']}
SKMAX = 1 << 17


def core_model(kind, name):
    def f(m, a, st):
        pr = dict(read_params(m, st, a[0]))
        e = m.event('call', name, {'kind': kind, 'args': a[1:], 'params': pr}, st)
        e.res = t.sym(32, f'{name}.result')
        r = lambda p, n: t.norm(m.read(st, p, n))
        n = pr.get('n') or 32
        if kind == 'keypair':
            m.write(st, a[1], ((t.asym('core.pk'), 0, 2 * n),))
            m.write(st, a[2], ((t.asym('core.sk'), 0, 64),))
        elif kind == 'sign':
            e.args['key'] = r(a[1], 64)
            m.write(st, a[3], ((t.asym('core.len'), 0, 8),))
            m.write(st, a[2], ((t.asym('core.sm'), 0, 64),))
            m.write(st, a[1], ((t.asym('core.sk'), 0, 64),))
        else:
            e.args['key'] = r(a[5], 2 * n)
            m.write(st, a[2], ((t.asym('core.len'), 0, 8),))
            m.write(st, a[1], ((t.asym('core.m'), 0, 64),))
        return e.res
    return Model(name, SIGS[kind], f)


def models():
    return {f'{s}_core_{k}': core_model(k, f'{s}_core_{k}') for s in ('xmss', 'xmssmt') for k in SIGS}


def gaps(tab):
    prev, out = 0, []
    for o in sorted(tab) + [1 << 32]:
        if o > prev:
            out.append((prev, o - 1))
        prev = o + 1
    return out


def run(prog, scheme, kind, oid, n):
    """oid: 32-bit term."""
    c = Ctx(prog, models=models())
    ob = t.be_bytes(oid, 4)
    fn = f'{scheme}_{kind}'
    ml = t.sym(64, 'len', 0, 2 ** 60)
    if kind == 'keypair':
        c.buf('pk', 4 + 2 * n), c.buf('sk', SKMAX)
        args = [t.ptr('pk', 0), t.ptr('sk', 0), oid]
        own = [('pk', 0), ('sk', 0)]
    elif kind == 'sign':
        c.buf('sk', SKMAX, ob), c.buf('sm', 2 ** 61), c.buf('smlen', 8), c.buf('m', ml, ro=True)
        args = [t.ptr('sk', 0), t.ptr('sm', 0), t.ptr('smlen', 0), t.ptr('m', 0), ml]
        own = [('sk', 4), ('sm', 0), ('smlen', 0), ('m', 0)]
    else:
        c.buf('m', 2 ** 61), c.buf('mlen', 8), c.buf('sm', ml, ro=True), c.buf('pk', 4 + 2 * n, ob, ro=True)
        args = [t.ptr('m', 0), t.ptr('mlen', 0), t.ptr('sm', 0), ml, t.ptr('pk', 0)]
        own = [('m', 0), ('mlen', 0), ('sm', 0), ('pk', 4)]
    for r in c.m.regions.values():
        r.watch = r.id in ('pk', 'sk', 'sm', 'smlen', 'm', 'mlen')
    ret, out = c.call(fn, args)
    return c, ret, out, args, own


def g_wrap(scheme, kind, variant='ref'):
    R = Report(f'wrap/{scheme}_{kind}')
    prog = program(variant)
    tab = spec.XMSS_T if scheme == 'xmss' else spec.XMSSMT_T
    fn = f'{scheme}_{kind}'
    f = prog.func(fn)
    for oid, (name, p) in tab.items():
        c, ret, out, args, own = run(prog, scheme, kind, const(32, oid), p['n'])
        R.use(c.m)
        W = f'{fn} ({name})'
        if out is None:
            R.fail('core operation called', f.loc, f'{W}: does not return')
            continue
        ib, n = p['index_bytes'], p['n']
        if kind != 'sign_open':
            confined(R, c.m, out, f.loc, W, {'sk': [(4 + ib, 4 + ib + 2 * n)] if kind == 'sign' else [],
                                             'core.sk': [(ib, ib + 2 * n)]}, None, ('sk',), ret)
        if kind != 'keypair':
            settled(R, c.m, out, f.loc, W, None, (), ret)
        ev = [e for e in c.m.events if 'kind' in e.args and e.cond is not t.FALSE]
        R.safe('wrapper accesses', c.m)
        if len(ev) != 1 or ev[0].cond is not t.TRUE or ev[0].args['kind'] != kind or not ev[0].name.startswith(scheme + '_'):
            R.fail('core operation called', f.loc, f'{W}: expected exactly one call of {scheme}_core_{kind}, found '
                   + (', '.join(e.name for e in ev) or 'none'))
            continue
        e = ev[0]
        R.ok('core operation called')
        for k in FIELDS:
            R.check('parameter set of the key', e.loc, e.args['params'].get(k) == p[k],
                    f'{W}: runs with {k} = {e.args["params"].get(k)} instead of {p[k]}')
        a = e.args['args']
        if kind == 'keypair':
            want = [t.ptr('pk', 4), t.ptr('sk', 4)]
        elif kind == 'sign':
            want = [t.ptr('sk', 4)] + args[1:]
        else:
            want = args[:4] + [t.ptr('pk', 4)]
        for i, (x, y) in enumerate(zip(a, want)):
            R.same('arguments passed on', e.loc, x, y, f'{W}: argument {i + 1} of {e.name}')
        if kind != 'keypair':
            k = 'sk' if kind == 'sign' else 'pk'
            L = t.bs_len(e.args['key'])
            R.same('key passed on unchanged', e.loc, e.args['key'], ((t.asym(k), 4, L),), f'{W}: key bytes seen by {e.name}')
        smp = Sampler([({e.res: v & 0xffffffff}, {}) for v in (0, -1, -2, 1, 2, 256, 0x80000000)], 8)
        R.same('error passed on', e.loc, t.eq(ret, const(32, 0)), t.eq(e.res, const(32, 0)),
               f'{W}: success reported', (), smp)
        # the key halves carry the identifier; what the core operation wrote stays
        idb = t.be_bytes(const(32, oid), 4)
        if kind == 'keypair':
            n = p['n']
            R.same('identifier in keys', f.loc, c.get('pk', 0, 4), idb, f'{W}: public key prefix')
            R.same('identifier in keys', f.loc, c.get('sk', 0, 4), idb, f'{W}: secret key prefix')
            R.same('core output kept', f.loc, c.get('pk', 4, 2 * n), ((t.asym('core.pk'), 0, 2 * n),), f'{W}: public key')
            R.same('core output kept', f.loc, c.get('sk', 4, 64), ((t.asym('core.sk'), 0, 64),), f'{W}: secret key')
            R.same('core output kept', f.loc, c.get('sk', 68, 256), ((t.asym('sk'), 68, 256),), f'{W}: secret key')
        elif kind == 'sign':
            R.same('core output kept', f.loc, c.get('sm', 0, 96), ((t.asym('core.sm'), 0, 64), (t.asym('sm'), 64, 32)), f'{W}: signature')
            R.same('core output kept', f.loc, c.get('smlen', 0, 8), ((t.asym('core.len'), 0, 8),), f'{W}: length')
            R.same('core output kept', f.loc, c.get('sk', 0, 100), idb + ((t.asym('core.sk'), 0, 64), (t.asym('sk'), 68, 32)), f'{W}: secret key')
        else:
            R.same('core output kept', f.loc, c.get('mlen', 0, 8), ((t.asym('core.len'), 0, 8),), f'{W}: length')
            R.same('core output kept', f.loc, c.get('m', 0, 64), ((t.asym('core.m'), 0, 64),), f'{W}: message')
    for lo, hi in gaps(tab):
        x = t.sym(32, f'oid[{lo:#x}..{hi:#x}]', lo, hi)
        c, ret, out, args, own = run(prog, scheme, kind, x, 64)
        R.use(c.m)
        near = sorted({lo, hi, *range(lo, min(hi, lo + 300) + 1), *[v for v in (0x100, 0x10000, 0x1000000, 0x01000001,
                      0x10000001, 0x80000001, 0x101, 0x10001) if lo <= v <= hi]})
        smp = Sampler([({x: v}, {}) for v in near], 12)
        W = f'{fn} (identifiers {lo:#x}..{hi:#x})'
        if out is None:
            R.fail('unknown identifier refused', f.loc, f'{W}: does not return')
            continue
        R.never('unknown identifier refused', f.loc, t.eq(ret, const(32, 0)), f'{W}: success reported', (), smp)
        for e in c.m.events:
            if 'kind' in e.args:
                R.never('unknown identifier refused', e.loc, e.cond, f'{W}: {e.name} is called', (), smp)
        lims = dict(own)
        for mode, rid, off, n, guard, where, _ in c.m.watch_log:
            if rid not in lims:
                continue
            end = t.add(off, n if isinstance(n, t.T) else c64(n))
            touched = t.ult(c64(lims[rid]), end)
            if mode == 'w':
                touched = t.TRUE
            g = t.band(*guard) if guard else t.TRUE
            R.never('nothing touched', where, t.band(touched, g), f'{W}: {rid} is '
                    + ('written' if mode == 'w' else 'read'), (), smp)
        R.ok('nothing touched')
    return R
