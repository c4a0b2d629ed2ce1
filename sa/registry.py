"""Which obligation groups decide which property."""
from . import spec
from .g_basic import BadParams, g_params, g_codec, g_hash, g_hash_other
from .g_shake import g_keccak, g_sponge, g_sponge_long, cases
from .g_wrap import g_wrap
from .g_verify import g_verify, combos as vcombos, everyset
from .report import TIER
from .g_sign import g_sign
from .g_fast import g_fast
from .g_life import g_life
from .g_random import g_random
from .g_pure import g_reach, g_static
from .g_tools import g_tool
from .g_keygen import g_keygen_ref, g_keygen_fast
from .g_bds import g_round, g_update, g_grow, g_choice, g_build_full, g_build_step
from .g_tree import g_tree_full, g_tree_step
from .g_wots import g_wots, g_wots_params, g_leaf


def G(name, f, *a, **k):
    return (name, f, a, k)


def params():
    return [G('params/ref', g_params, 'ref'), G('params/fast', g_params, 'fast')]


def codec():
    return [G('codec', g_codec)]


def hashes():
    return [G(f'hash/{k}', g_hash, k) for k in spec.hash_combos()] + [G('hash/other', g_hash_other)]


def shake():
    out = [G('keccak-f', g_keccak)]
    for fn in ('shake128', 'shake256'):
        cs = cases(fn, TIER)
        for i in range(4):
            out.append(G(f'sponge/{fn}/{i}', g_sponge, fn, cs[i::4]))
        out.append(G(f'sponge/{fn}/long', g_sponge_long, fn))
    return out


def wots():
    return [G(f'wots/{n},{w}', g_wots, n, w) for n in (24, 32, 64) for w in (16, 4)] + \
        [G('wots/32,256', g_wots, 32, 256), G('wots/params', g_wots_params)]


def wots16():
    return [x for x in wots() if x[0].endswith(',16') or x[0] == 'wots/params']


def leaf():
    return [G(f'leaf/{n}', g_leaf, n) for n in (24, 32, 64)]


def verify():
    return [G(f'verify/{nm}', g_verify, nm, mt, o) for nm, mt, o in (everyset() if TIER == 'thorough' else vcombos())]


def sign_ref():
    return [G(f'sign/ref/{nm}', g_sign, nm, mt, o) for nm, mt, o in (everyset() if TIER == 'thorough' else vcombos())]


def sign_fast():
    return [G(f'sign/fast/{nm}', g_fast, nm, mt, o) for nm, mt, o in (everyset() if TIER == 'thorough' else vcombos())]


def life():
    hs = {}
    for mt, tab in ((False, spec.XMSS_T), (True, spec.XMSSMT_T)):
        for o in sorted(tab):
            hs.setdefault(tab[o][1]['tree_height'], []).append((mt, o))
    return [G(f'life/{h}', g_life, h, hs[h]) for h in sorted(hs, reverse=True)]


def keygen_ref():
    return [G(f'keygen/ref/{nm}', g_keygen_ref, nm, mt, o) for nm, mt, o in everyset()]


def keygen_fast():
    return [G(f'keygen/fast/{nm}', g_keygen_fast, nm, mt, o) for nm, mt, o in (everyset() if TIER == 'thorough' else vcombos())]


def randomb():
    cs = [(1, 2, 2), (1, 0, 3), (2, 1, 1), (2, 1, 2)]
    if TIER == 'thorough':
        cs += [(1, 1, 4), (1, 0, 5), (2, 2, 2), (3, 1, 1)]
    return [G('randombytes/%d,%d,%d' % c, g_random, *c) for c in cs]


def tools(*names):
    def f():
        out = []
        for tool in names:
            for mt, tab in ((False, spec.XMSS_T), (True, spec.XMSSMT_T)):
                s = 'xmssmt' if mt else 'xmss'
                oids = sorted(tab)
                for o in oids:
                    out.append(G(f'{s}_{tool}/{tab[o][0]}', g_tool, tool, mt, o))
                if tool == 'sign':
                    for a, b in ((oids[0], oids[-1]), (oids[-1], oids[0])):
                        out.append(G(f'{s}_{tool}/{tab[a][0]}+{tab[b][0]}', g_tool, tool, mt, a, b))
        return out
    return f


def treehash():
    return [G(f'treehash/{n},{h}', g_tree_full, n, h) for n in (24, 32, 64) for h in (5, 10)] + \
        [G(f'treehash/step/{n},{h}', g_tree_step, n, h) for h in (20, 16, 10, 5) for n in (24, 32, 64)]


def traversal():
    out = []
    for h in (20, 16, 10, 5):
        for n in (24, 32, 64):
            full = TIER == 'thorough' or n == 32 or h <= 10
            if full and h > 10:
                ks = list(range(h))
                parts = [ks[h - 4:], ks[h - 8:h - 4], ks[:h - 8]] if h < 20 else [[19, 18], [17, 16], [15, 14], [13, 12, 11], ks[:11]]
                out += [G(f'bds/update/{n},{h}/{x[0]}', g_update, n, h, x, TIER != 'thorough') for x in parts]
            elif full:
                out.append(G(f'bds/update/{n},{h}', g_update, n, h, None, TIER != 'thorough'))
            out.append(G(f'bds/build/step/{n},{h}', g_build_step, n, h))
            out.append(G(f'bds/choice/{n},{h}', g_choice, n, h))
            out.append(G(f'bds/grow/{n},{h}', g_grow, n, h))
            out.append(G(f'bds/round/{n},{h}', g_round, n, h))
            if h <= 10:
                out.append(G(f'bds/build/{n},{h}', g_build_full, n, h))
    return out


def builds():
    return [x for x in traversal() if x[0].startswith('bds/build')]


def wrap(*kinds):
    def f():
        return [G(f'wrap/{s}_{k}', g_wrap, s, k) for s in ('xmss', 'xmssmt') for k in kinds]
    return f


def purity():
    return [G(f'{nm}/{v}', f, v) for nm, f in (('reach', g_reach), ('static', g_static)) for v in ('ref', 'fast')]


PUR = {'inputs kept', 'arguments decide'}
ACC = {'acceptance'}
DEL = {'short input', 'length when accepted', 'length when rejected', 'message when accepted', 'nothing when rejected'}
IDX = {'signing accesses', 'signature index', 'index advanced', 'advanced before signing', 'never undone', 'key parts kept', 'index in range signs',
       'exhausted key refused'}
EXH = {'signing accesses', 'last index signs', 'index in range signs', 'exhausted key refused', 'exhausted key wiped', 'key destroyed'}
LAST = {'signing accesses', 'last index signs', 'last signature', 'key destroyed'}
EXACT = {'last index signs', 'index in range signs', 'exact signature', 'signature length', 'signing accesses', 'last signature'}
FRESH = EXACT | {'stored path', 'stored signature', 'state layout'}
STATE = {'signing accesses', 'state layout', 'state stored', 'promotion'}
SCHED = {'signing accesses', 'current tree steps', 'next tree steps', 'root signed', 'promotion'}
KEYS = {'fresh seeds', 'index zero', 'keys agree', 'key generation result', 'key generation accesses', 'root of the top tree'}
VMEM = {'verification accesses', 'short input'}

NOTES = {
    'C01': 'All 77 registered identifiers one by one, every other 32-bit value as ranges; names: all registered, their near misses, and an arbitrary name through the comparison outcomes.',
    'C02': 'Message length symbolic up to 2^60; SHA-2 is taken as the OpenSSL function called.',
    'C03': 'Permutation: one pass, each round matched against the FIPS 202 round function. Sponge: every residue of input length and every output length up to two blocks, long lengths by their first four blocks; longer inputs rest on the loop being uniform.',
    'C04': 'All registered n, w = 16 and 4 with symbolic messages, w = 256 with four message patterns.',
    'C05': 'All registered n; symbolic seeds and addresses.',
    'C06': 'One identifier per (n, h, d) in quick, all 77 in thorough; message length symbolic up to 2^60; hash functions as uninterpreted symbols verified by their own groups, which this check includes.',
    'C07': 'As C06.',
    'C08': 'As C06; also input lengths below a signature as one symbolic range. C library functions are assumed to stay in the ranges passed to them.',
    'C09': 'One identifier per (n, h, d) in quick, all 77 in thorough; the index is one symbol over its whole range, the other key bytes and the message are unknown; the order of key write and one-time signature is read off the event sequence of the path-merged run.',
    'C10': 'As C09, with the stored index as a symbol over all values above the last one, as the last one, and as the key a destroyed key leaves behind. Total height 64 and more does not occur among the registered sets.',
    'C11': 'As C09 at the last index.',
    'C12': 'All 77 sets for the compact generator, one per (n, h, d) for the stateful one in quick; the random source as arbitrary bytes per draw, and its own check (C13) included; trees of height 5 and 10 built in full, higher ones by one inductive step of the construction loop.',
    'C13': 'Every path through opening, reading (full, partial, failed, empty answers) and retrying up to the stated number of outer and inner rounds, with the length a symbol; beyond that the loop state is the same as in an earlier round. Waiting and retrying for ever is accepted; returning is not, unless everything is filled.',
    'C14': 'As C09; tree hashing as a symbol that its own groups, included here, decide. Equality with the RFC signature is between terms, so it also gives equal bytes for equal key and message.',
    'C15': 'Heights 5 and 10 in full for all n; heights 5 to 20 by one inductive step of the loop with the index as a symbol.',
    'C16': 'As C09; the stored state is unknown bytes, counters in their ranges. Whether the stored paths are right is C18/C19 (per step) and C27 (over a life).',
    'C17': 'As C09; every stored byte is a separate unknown, so storage is decided for all values; for counters, for every value they can take.',
    'C18': 'Per-operation, from any state whose counters are in their ranges, for n = 24, 32, 64 and all tree heights (quick: tree-hash update for n = 32 at heights 16 and 20). That states met in a life are in these ranges, and that the steps compose to correct paths, is C27. The retain part is empty since the code fixes K = 0.',
    'C19': 'As C09; the traversal operations are events on an arbitrary state, decided by C18.',
    'C20': 'All registered identifiers one by one, all others as ranges; core operations as arbitrary results.',
    'C21': 'Taint over the value graph, not over syntax: secret bytes count as reached if an output term mentions them outside a keyed hash. Same identifiers as C09. Stack contents left after return count as temporary storage.',
    'C22': 'Call graph of all entry points; writable static data is allowed only where its content at entry provably cannot influence a result. The handle of the random device is the one exemption.',
    'C23': 'Every path of main up to the stated loop bounds, each library and C library call with every outcome (short, failed, full); all 77 parameter sets. Rewinding an opened file is assumed to succeed; what reaches the disk after a successful flush is the operating system\'s affair (C29).',
    'C24': 'As C23; the exit status only.',
    'C25': 'All lengths up to 72 bytes (codec) and symbolic values.',
    'C27': 'Composition of C12 and C14-C19: the transition functions those checks show the code to compute, run over every leaf of a tree (heights 5, 10, 16, 20) on the names of nodes instead of their values, layer 0 with its exact budget, higher layers with the work of a leaf done in its interval; that the budget reaching each layer suffices for that in every interval is decided by counting, worst case, for each registered (height, layers). No signature history is executed. The steps themselves one identifier per (n, h, d) in quick.',
}
RULES = {
    'C01': 'The parameter struct after parsing each registered identifier equals the registered row; the result for any other identifier or name is never success.',
    'C02': 'The bytes handed to the selected hash function equal padding || key || input as a term, for symbolic key, input, address and message length; the output is its first n bytes and nothing else is written.',
    'C03': 'Each of the 24 rounds of the permutation, as values over 25 symbolic lanes, is the FIPS 202 round; the sequence of permutation inputs and the output are those of the sponge, byte by byte.',
    'C04': 'Digits, chain start, number of iterations, and address of each iteration equal the specification, per chain; what is written is exactly the specified output.',
    'C05': 'The leaf equals the specified L-tree term over the specified one-time public key.',
    'C06': 'The condition for result zero equals the term "specified root = public root"; the functions it uses are decided by their own groups.',
    'C07': 'On the gated result: accepted implies the message and length are those given, refused implies length zero and no message byte in the output.',
    'C08': 'Every load and store is inside its region for every input; an obligation per access.',
    'C09': 'Index in the signature, index left in the key, index in the key at each one-time signature event, and writes to the index field after the first such event.',
    'C10': 'Result, key contents and absence of one-time signature events for indices beyond the range; success for every index in range.',
    'C11': 'The signature at the last index equals the specification over the key as it was at entry; afterwards every key byte beyond the index is zero.',
    'C12': 'Key bytes are disjoint pieces of the random draws; index zero; both keys carry the same root and public seed; the root is the specified tree term.',
    'C13': 'Typestate per path: bytes filled so far, next destination, next length, descriptor state; every read goes to the first unfilled byte and fits, and the function returns only when none is left.',
    'C14': 'Every part of the signature equals the specified term at the position the index determines.',
    'C15': 'Root and path equal the specified Merkle terms (full), and one loop iteration preserves the stack invariant (step).',
    'C16': 'Fresh parts equal the specification; stored parts are one whole stretch of the key at entry, disjoint from all others.',
    'C17': 'Each field of each tree state is loaded from and stored to the same, disjoint, sufficiently wide place; swapping exchanges every field.',
    'C18': 'For each operation: every field of the state after it equals the specified term over the state before; updates done are those of the most urgent instance.',
    'C19': 'Events per layer: which operation, on which state, under which address and leaf, under which condition; promotion and signature of the next root exactly at a boundary.',
    'C20': 'Parameter struct and arguments handed to the core operation; identifier written or read; result passed on; nothing touched for unknown identifiers.',
    'C21': 'No output byte depends on a secret byte except through a keyed hash taking it as key; no address, length or condition of an output write does either.',
    'C22': 'Effects of every function reachable from an entry point; no result depends on static data; inputs are not written.',
    'C23': 'Typestate per path of main: key state (loaded, advanced, stored, flushed) when a signature byte is written; exit status per path.',
    'C24': 'Exit status per path equals the outcome the calls on that path imply.',
    'C27': 'Every step combines sibling nodes, every path entry is the sibling the leaf needs, every state met satisfies what the step checks assume, every next tree is complete when promoted; plus the rules of the steps.',
    'C25': 'Bytes written / value returned / address word set equal the specified term; the other words are untouched.',
}
TECH = {
    'C27': 'abstract interpretation of the traversal over node identities and budgets, composed with per-operation equivalence over gated value graphs of the compiler IR',
    'C13': 'path-sensitive typestate analysis of the random source (loop states repeated, read outcomes enumerated) over the compiler IR',
    'C21': 'information-flow (noninterference) analysis over gated value graphs of the compiler IR',
    'C22': 'call-graph and effect analysis, with dependence of results on static data decided over value graphs of the compiler IR',
    'C23': 'path-sensitive typestate analysis of the command-line tools over the compiler IR, outcomes of calls enumerated',
    'C24': 'path-sensitive typestate analysis of the command-line tools over the compiler IR, outcomes of calls enumerated',
}

SETS = {'identifier accepted', 'parameter value', 'parameter set', 'parameter accesses'}
HASHES = {'F', 'H', 'H_msg', 'PRF', 'F result', 'H result', 'H_msg result', 'PRF result', 'output length', 'hash accesses',
          'address fields kept', 'message kept'}
NODES = {'F', 'H', 'F result', 'H result', 'output length', 'hash accesses', 'address fields kept'}
CODE = {'encoding', 'decoding', 'encoding accesses', 'decoding accesses', 'address encoding', 'address field', 'address accesses'}
RECOVER = {'recovered public key', 'output length', 'address kept', 'one-time signature accesses'}
OTS = {'one-time signature', 'one-time public key', 'output length', 'address kept', 'one-time signature accesses'}
PASS = {'core operation called', 'parameter set of the key', 'arguments passed on', 'key passed on unchanged', 'core output kept',
        'error passed on', 'wrapper accesses'}
MEMORY = {'hash accesses', 'one-time signature accesses', 'sponge accesses', 'permutation accesses', 'wrapper accesses',
          'encoding accesses', 'decoding accesses', 'address accesses', 'output length', 'address kept'}
OPEN, SIGN, PAIR = wrap('sign_open'), wrap('sign'), wrap('keypair')
SCHEME = [hashes, (wots16, OTS | RECOVER), leaf, shake, (codec, CODE), (params, SETS)]

PROPS = {
    'C01': dict(groups=[params], variants=['ref', 'fast']),
    'C02': dict(groups=[hashes, codec], variants=['ref']),
    'C03': dict(groups=[shake], variants=['ref']),
    'C04': dict(groups=[wots, hashes, codec, shake], variants=['ref']),
    'C05': dict(groups=[leaf, wots16, hashes, codec, shake], variants=['ref']),
    'C06': dict(groups=[(verify, ACC), (OPEN, PASS), (hashes, HASHES), (wots16, RECOVER), shake, (codec, CODE), (params, SETS)],
                variants=['ref']),
    'C07': dict(groups=[(verify, DEL), (OPEN, PASS), (params, SETS)], variants=['ref']),
    'C08': dict(groups=[(verify, VMEM), (OPEN, MEMORY), (hashes, MEMORY), (wots16, MEMORY),
                        (shake, MEMORY), (codec, MEMORY), (params, SETS)], variants=['ref']),
    'C09': dict(groups=[(sign_ref, IDX), (sign_fast, IDX), (SIGN, PASS), (codec, CODE), (params, SETS)], variants=['ref', 'fast']),
    'C10': dict(groups=[(sign_ref, EXH), (sign_fast, EXH), (SIGN, PASS), (codec, CODE), (params, SETS)], variants=['ref', 'fast']),
    'C11': dict(groups=[(sign_ref, LAST), (sign_fast, LAST), (SIGN, PASS), (codec, CODE), (params, SETS)], variants=['ref', 'fast']),
    'C12': dict(groups=[keygen_ref, (keygen_fast, KEYS), PAIR, randomb, (params, SETS), (treehash, {'tree root', 'tree accesses', 'iteration', 'loop variable'}),
                        (builds, {'tree construction', 'traversal accesses'}), leaf, (wots16, OTS), (hashes, HASHES | {'PRF_keygen', 'PRF_keygen result'}),
                        (codec, CODE)], variants=['ref', 'fast']),
    'C13': dict(groups=[randomb], variants=['ref']),
    'C14': dict(groups=[(sign_ref, EXACT), (SIGN, PASS), treehash] + SCHEME, variants=['ref']),
    'C15': dict(groups=[treehash, leaf, (wots16, OTS), (hashes, NODES | {'PRF_keygen', 'PRF_keygen result', 'PRF', 'PRF result'}), (codec, CODE)], variants=['ref']),
    'C16': dict(groups=[(sign_fast, FRESH), (SIGN, PASS)] + SCHEME, variants=['fast']),
    'C17': dict(groups=[(sign_fast, STATE), (keygen_fast, {'state stored'}), (codec, CODE), (params, SETS)], variants=['fast']),
    'C18': dict(groups=[traversal, leaf, (hashes, NODES), (codec, CODE)], variants=['fast']),
    'C19': dict(groups=[(sign_fast, SCHED), (keygen_fast, {'tree built', 'root signed', 'state stored'}), (codec, CODE), (params, SETS)], variants=['fast']),
    'C20': dict(groups=[wrap('keypair', 'sign', 'sign_open'), (codec, CODE), (params, SETS | {'other identifiers refused'})], variants=['ref']),
    'C21': dict(groups=[(g, {'secret confined'}) for g in (hashes, wots, leaf, treehash, traversal, sign_ref, sign_fast, keygen_ref, keygen_fast, wrap('keypair', 'sign'))],
                variants=['ref', 'fast'], confine=True),
    'C22': dict(groups=[purity] + [(g, PUR) for g in (verify, sign_ref, sign_fast, hashes, wots, leaf, shake, wrap('sign', 'sign_open'))],
                variants=['ref', 'fast'], pure=True),
    'C23': dict(groups=[tools('sign')], variants=['ui:sign:xmss', 'ui:sign:xmssmt']),
    'C24': dict(groups=[tools('open', 'keypair')], variants=['ui:open:xmss', 'ui:open:xmssmt', 'ui:keypair:xmss', 'ui:keypair:xmssmt']),
    'C25': dict(groups=[codec], variants=['ref']),
    'C27': dict(groups=[life, traversal, (sign_fast, FRESH | STATE | SCHED), (keygen_fast, KEYS | {'tree built', 'root signed', 'state stored'}),
                        (sign_ref, EXACT), treehash, (verify, ACC), (SIGN, PASS), (PAIR, PASS), (OPEN, PASS)] + SCHEME, variants=['ref', 'fast']),
}


BASE = ('Decided on the LLVM IR of the current sources (clang -O0, SSA form): every undecided branch is analysed on both '
        'arms and merged with gated values, so all inputs of the stated ranges are covered by one pass; an obligation is '
        'discharged when implementation and specification terms have the same normal form, otherwise by evaluating both '
        'terms under designed and random assignments (probabilistic, counted separately in the evidence). Trusted: clang\'s '
        'lowering, the IR reader and the term rules in /verif/sa. ')
for _k, _p in PROPS.items():
    _p['note'] = BASE + NOTES.get(_k, '')
    _p.setdefault('rule', RULES.get(_k, ''))
    if _k in TECH:
        _p['technique'] = TECH[_k]


ASSUMED = [
    'clang -O0 lowers the sources as the build compiler would (no dependence on undefined behaviour)',
    'the IR reader, memory model and term rewriting of /verif/sa are right; normal forms are sound equalities, random '
    'interpretation errs towards missing a difference, never towards inventing one',
    'OpenSSL SHA-2 and the C library behave as documented and touch only the ranges passed to them',
]


def explanation(pid):
    P = PROPS[pid]
    return P['rule'] + ' ' + P['note']


def tasks(pid, tier):
    """[(group name, function, args, kwargs, rules or None)]; None: every rule of the group counts."""
    out = {}
    for g in PROPS[pid]['groups']:
        g, rules = g if isinstance(g, tuple) else (g, None)
        for x in g():
            if x[0] in out:
                old = out[x[0]][4]
                rules2 = None if old is None or rules is None else set(old) | set(rules)
            else:
                rules2 = rules
            out[x[0]] = x + (rules2,)
    return list(out.values())


def variants(pid):
    return PROPS[pid]['variants']


def required_rules(pid):
    return PROPS[pid].get('rules', [])


def level(pid):
    return PROPS[pid].get('level', 'other')


def rule(pid):
    return PROPS[pid].get('rule', '')


def extra_evidence(pid):
    return {}
