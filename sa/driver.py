"""Runs the obligation groups of a property, prints violations, writes evidence."""
import json
import multiprocessing as mp
import os
import resource
import sys
import threading
import time
import traceback
from . import registry, confine
from .ir import AnalysisError, program
from .report import SEED, TIER

LIMIT = int(os.environ.get('SA_LIMIT', 0)) or (560 if TIER != 'thorough' else 14400)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _worker(task):
    out = [None]

    def go():
        name, f, args, kw, only = task
        t0 = time.time()
        try:
            r = f(*args, **kw).result()
            r['wall'] = time.time() - t0
            if only is not None:
                r['viol'] = [v for v in r['viol'] if v[0] in only]
                r['lost'] = [v for v in r['lost'] if v[0] in only]
                r['by'] = {k: v for k, v in r['by'].items() if k in only}
            out[0] = ('ok', name, r)
        except registry.BadParams as e:
            out[0] = ('ok', name, {'group': name, 'by': {}, 'notes': [], 'lost': [], 'viol': [('parameter set', 'params.c', str(e))],
                                   'stats': {'insts': 0, 'accesses': 0, 'calls': 0, 'branches': 0, 'functions': [],
                                             'events': 0}, 'wall': time.time() - t0})
        except AnalysisError as e:
            out[0] = ('err', name, str(e))
        except Exception:
            out[0] = ('err', name, traceback.format_exc())
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return out[0] or ('err', name_of(task), 'worker died')


def name_of(task):
    return task[0]


def run_tasks(tasks, jobs=8):
    if os.environ.get('SA_JOBS'):
        jobs = int(os.environ['SA_JOBS'])
    if jobs <= 1 or len(tasks) == 1:
        return [_worker(x) for x in tasks]
    ctx = mp.get_context('fork')
    end = time.time() + LIMIT
    out = []
    with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        for _ in tasks:
            try:
                out.append(it.next(max(1, end - time.time())))
            except mp.TimeoutError:
                break
        pool.terminate()
    got = {x[1] for x in out}
    return out + [('err', x[0], f'not finished within {LIMIT} s') for x in tasks if x[0] not in got]


def main(argv):
    pid = argv[0]
    t0 = time.time()
    tasks = registry.tasks(pid, TIER)
    confine.ON = registry.PROPS[pid].get('confine', False)
    confine.PURE = registry.PROPS[pid].get('pure', False)
    if len(argv) > 1:
        tasks = [x for x in tasks if any(a in x[0] for a in argv[1:])]
    if not tasks:
        print(f'no obligations for {pid}')
        return 2
    try:
        for v in registry.variants(pid):
            program(v)
    except AnalysisError as e:
        print(f'ERROR: {e}')
        return 2
    res = run_tasks(tasks)
    viol, errs = [], []
    tot = {'proved': 0, 'sampled': 0, 'vacuous': 0, 'insts': 0, 'accesses': 0, 'calls': 0, 'branches': 0, 'events': 0}
    rules, srules, funcs, groups, first = {}, {}, set(), {}, {}
    for st, name, r in res:
        if st == 'err':
            errs.append((name, r))
            continue
        for rule, hs in r['by'].items():
            for k, h in zip(('proved', 'sampled', 'vacuous'), hs):
                tot[k] += h
            rules[rule] = rules.get(rule, 0) + sum(hs)
            if hs[1]:
                srules[rule] = srules.get(rule, 0) + hs[1]
        for k, v in r.get('first', {}).items():
            if k in r['by']:
                first.setdefault(k, f'[{k}] {v}')
        for v in r['viol']:
            rules[v[0]] = rules.get(v[0], 0) + 1
        for v in r['lost']:
            errs.append((name, v[1]))
        for k in ('insts', 'accesses', 'calls', 'branches', 'events'):
            tot[k] += r['stats'][k]
        funcs |= set(r['stats']['functions'])
        groups[name] = {'obligations': sum(map(sum, r['by'].values())) + len(r['viol']),
                        'wall_s': round(r.get('wall', 0), 2)}
        for v in r['viol']:
            viol.append((name,) + tuple(v))
    known = load_known(pid)
    shown = []
    for v in viol:
        k = next((x for x in known if x[0] == v[1] and x[1] in v[2]), None)
        if k:
            print(f'KNOWN-FINDING: property={pid} {v[1]}: {v[2]}: {v[3]}')
        else:
            shown.append(v)
    n_ob = tot['proved'] + tot['sampled'] + tot['vacuous']
    missing = [r for r in registry.required_rules(pid) if not rules.get(r)]
    if missing and not shown and not errs and len(argv) == 1:
        errs.append(('coverage', f'rules with no instance: {missing}'))
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
          'level': registry.level(pid),
          'assumptions': registry.ASSUMED,
          'violations': len(shown),
          'coverage': {
              'explanation': registry.explanation(pid),
              'rule': registry.rule(pid),
              'samples': [first[k][:600] for k in sorted(first)],
              'obligations': n_ob + len(viol), 'decided_by_normal_form': tot['proved'],
              'decided_by_random_interpretation': tot['sampled'], 'vacuous': tot['vacuous'],
              'violated': len(viol),
              'obligations_per_rule': dict(sorted(rules.items())),
              'random_interpretation_per_rule': dict(sorted(srules.items())),
              'functions_analysed': sorted(funcs), 'abstract_instructions': tot['insts'],
              'memory_accesses_bounded': tot['accesses'], 'call_sites_expanded': tot['calls'],
              'summarised_call_events': tot['events'], 'undecided_branches_merged': tot['branches'],
              'groups': groups,
              'limits': sorted({x for st, nm, r in res if st == 'ok' for x in r['notes']}),
              'undecided': [f'{a}: {b[:400]}' for a, b in errs]},
          'wall_s': round(time.time() - t0, 2)}
    ev.update(registry.extra_evidence(pid))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(HERE, 'evidence', f'{pid}.violations.txt')
    if shown:
        with open(rp, 'w') as f:
            for g, rule, where, msg in shown:
                f.write(f'{where}: [{rule}] {msg}  (obligation group {g})\n')
        seen = set()
        for g, rule, where, msg in shown:
            key = (rule, where)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) <= 12:
                print(f'{where}: [{rule}] {msg}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    und = f'; UNDECIDED: {len(errs)} obligation(s) or group(s), listed in the evidence' if errs else ''
    for a, b in errs[:6]:
        print(f'UNDECIDED in {a}: {(b.strip().splitlines() or [""])[-1][:300]}')
    if errs and n_ob == 0:
        return 2
    print(f'{pid}: {n_ob} obligations hold ({tot["proved"]} by normal form, {tot["sampled"]} by random '
          f'interpretation, {tot["vacuous"]} vacuous), {len(funcs)} functions, {ev["wall_s"]} s{und}')
    return 0


def load_known(pid):
    out = []
    try:
        for ln in open(os.path.join(HERE, 'known-findings.txt')):
            ln = ln.strip()
            if ln.startswith('finding:') and f'property={pid} ' in ln + ' ':
                rest = ln.split(f'property={pid}', 1)[1].strip()
                rule, _, where = rest.partition(' @ ')
                out.append((rule.strip(), where.strip().split(' -- ')[0]))
    except OSError:
        pass
    return out
