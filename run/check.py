#!/usr/bin/env python3
"""Decides one property: regenerates the symbolic subject from /repo, explores it, writes the evidence file.

usage: check.py ID [quick|thorough]
exit 0: held on everything explored; 1: a violation (line "VIOLATION property=ID replay=PATH"); 2: the check could not run
"""
import json, os, shutil, subprocess, sys, time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
QUICK_S = float(os.environ.get('VERIF_QUICK_S', '240'))
THOROUGH_S = float(os.environ.get('VERIF_THOROUGH_S', '780'))


def known_findings(prop):
    """Lines `finding: property=ID harness=NAME label=PREFIX -- text` of /verif/known_findings.txt."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                head, _, text = line.partition(' -- ')
                out.append((head.split(' harness=')[1].split(' label=')[0], head.split(' label=')[1].strip(), text.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    start = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    try:
        sym, real, bins, built = build.build()
    except build.BuildError as e:
        print(e)
        return 2
    try:
        budget = THOROUGH_S - built if tier == 'thorough' else QUICK_S
        out = os.path.join(bins, 'out.json')
        replays = os.path.join(VERIF, 'build', 'replays')
        os.makedirs(replays, exist_ok=True)
        env = dict(os.environ, SYM_SEED=str(seed))
        known = known_findings(prop)
        env['SYM_KNOWN'] = '\n'.join('%s\t%s\t%d' % (h, l, i) for i, (h, l, _) in enumerate(known))
        threads = os.cpu_count() or 4
        r = subprocess.run([sym, 'explore', prop, out, real, replays, str(budget), str(threads), tier], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        if r.returncode != 0 or not os.path.exists(out):
            print('the explorer failed (%d): %s' % (r.returncode, r.stderr[-3000:]))
            return 2
        d = json.load(open(out))
        return report(prop, tier, seed, d, known, real, replays, start, built)
    finally:
        shutil.rmtree(bins, ignore_errors=True)


def report(prop, tier, seed, d, known, real, replays, start, built):
    hs = d['harnesses']
    tot = lambda k: sum(h[k] for h in hs)
    fresh = [v for v in d['violations'] if v['known'] is None]
    functions = sorted({f for h in hs for f in h['functions']})
    samples = []
    for h in hs:
        for s in h.get('samples', [])[:1]:
            samples.append({'harness': h['name'], 'witness_of_an_explored_path': s})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('decisions'),
            'traces_validated_against_impl': tot('validated') + len(d['violations']),
            'samples': samples[:6] or [{'note': 'no path was completed'}],
            'explanation': 'states: symbolic paths of the real code executed (each covers every input that takes it); transitions: branch decisions on symbolic values; traces validated: solver models replayed on the real crate with the outcome the symbolic run predicts. Obligations are the assertions reached on those paths, over all inputs of each path. An assertion whose polynomial normal form leaves something open is one z3 query (queries); the ones the normal form settles are collected per path and their comparisons sent to z3 in one query (normal_form_claims). Which paths exist is decided by z3 too (path_feasibility_queries).',
            'obligations': tot('checks'), 'discharged': tot('checks') - sum(sum(h['undecided'].values()) for h in hs) - len(fresh),
            'obligations_decided_by_normal_form': tot('checks_trivial'), 'obligations_shared_with_an_identical_query': tot('checks_shared'),
            'normal_form_claims': {'solver_queries': tot('claim_queries'), 'confirmed_by_solver': tot('claims_confirmed'), 'solver_unknown': tot('claims_unknown'), 'refuted_by_solver': tot('claims_refuted'), 'not_sent': tot('claims_unsent')},
            'queries': tot('queries'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'),
            'path_feasibility_queries': tot('feas_queries'), 'paths_infeasible': tot('pruned') + tot('infeasible'),
            'paths_not_known_feasible_but_checked_anyway': tot('unverified'),
            'paths_left_unexplored': tot('unexplored'),
            'solver_s': round(tot('solver_s'), 2), 'max_query_s': max([h['max_query_s'] for h in hs] or [0]),
            'exploration_wall_s': d['wall_s'], 'build_wall_s': round(built, 2),
            'functions_encoded': functions,
            'harnesses': [{k: h[k] for k in ('name', 'about', 'bounds', 'paths', 'completed', 'infeasible', 'pruned', 'unverified', 'unexplored', 'checks', 'queries', 'unsat', 'sat', 'unknown', 'validated', 'validation_mismatches', 'stops', 'undecided', 'reached', 'not_reached', 'solver_s', 'claim_queries', 'claims_confirmed')} for h in hs],
            'candidates_that_did_not_replay': {h['name']: {k: v[0] for k, v in h['unconfirmed'].items()} for h in hs if h['unconfirmed']},
            'exhaustive': False,
        },
        'assumptions': [
            'f32 arithmetic is encoded as exact real arithmetic (rounding, overflow and underflow are outside; NaN and infinity are tracked for constants and division by zero)',
            'sin, cos, atan2 and sqrt are constrained by their defining identities and ranges',
            'HashSet iteration is replaced by a deterministic order; nalgebra, generational-arena and downcast-rs run as they are (nalgebra generically over the symbolic scalar)',
            'a counterexample is reported only when it reproduces on the real crate in f32',
        ],
        'wall_s': round(time.time() - start, 2), 'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for h in hs:
        print('%s: %d paths (%d completed, %d left), %d checks, %d queries (%d unsat, %d sat, %d unknown), undecided %d, validated %d' % (h['name'], h['paths'], h['completed'], h['unexplored'], h['checks'], h['queries'], h['unsat'], h['sat'], h['unknown'], sum(h['undecided'].values()), h['validated']))
    for i, (h, l, text) in enumerate(known):
        if any(v['known'] == str(i) for v in d['violations']):
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if fresh:
        v = fresh[0]
        path = os.path.join(replays, '%s.replay' % prop)
        with open(path, 'w') as f:
            f.write('# %s\n# %s (%s)\n# observed on the real crate: %s\n# replay: python3 %s %s\n' % (v['harness'], v['label'], v['kind'], v['detail'], os.path.join(VERIF, 'run', 'replay.py'), path))
            f.write(open(v['model']).read())
        print('%s: %s -- %s' % (v['harness'], v['label'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if not any(h['completed'] for h in hs):
        print('no path was completed')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
