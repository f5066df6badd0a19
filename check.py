#!/usr/bin/env python3
"""check.py ID: decides one property of the current sources in /repo by static analysis.

Exit 0: all obligations of the property hold on all paths analysed. Exit 1: a line VIOLATION property=ID replay=FILE for the
violations found. Exit 2: the sources could not be analysed (an anchor is gone, or a construct is not understood).
"""
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.values import AnalysisError  # noqa
from sa.program import Sources, REPO  # noqa
from sa.explore import explore, Result, big_stack, MAX_PATHS  # noqa
from sa.rules import RULES  # noqa

TECHNIQUE = 'whole-program path-sensitive abstract interpretation of the syntax tree (effects, typestate and provenance of values)'
ENOUGH = 60         # seconds after which the search for further violations ends once there is one
DEADLINE = {'quick': 600, 'thorough': 4 * 3600}
SRC = None
TASKS = None


def work(task):
    """Explores part of a scenario in a worker process."""
    i, scripts, budget = task
    name, f, opts = TASKS[i]
    res = Result()
    try:
        left = big_stack(lambda: explore(SRC, res, name, f, scripts, budget, **opts))
        return i, res, left, None
    except AnalysisError as e:
        return i, res, [], str(e)
    except Exception as e:
        import traceback
        return i, res, [], 'internal error in scenario %s: %r\n%s' % (name, e, traceback.format_exc(limit=-6))


def run(pid, tier, jobs):
    global SRC, TASKS
    SRC = Sources()
    TASKS = [(name, f, opts) for name, f, t, opts in RULES.get(pid, ()) if t == 'quick' or tier == 'thorough']
    total, errors, cut = Result(), [], set()
    if not TASKS:
        return total, ['no rules for %s' % pid], cut
    start = time.time()
    listed = set(k[:3] for k in known(pid))
    pool = multiprocessing.Pool(jobs)
    out = []
    try:
        todo = [(i, [[]], 1.0) for i in range(len(TASKS))]
        while todo or out:
            while todo:
                out.append(pool.apply_async(work, (todo.pop(0),)))
            for r in out:
                r.wait(0.02)
                if r.ready():
                    break
            else:
                continue
            out.remove(r)
            i, res, left, err = r.get()
            total.merge(res)
            if err:
                errors.append(err)
                continue
            if left and (total.scenarios[TASKS[i][0]][0] > MAX_PATHS[tier] or time.time() > start + DEADLINE[tier]):
                cut.add(TASKS[i][0])
                continue
            if time.time() > start + ENOUGH and any((p['scenario'], p['rule'], p['message']) not in listed for p in total.problems.values()):
                cut.update(TASKS[j][0] for j, _, _ in todo)
                break
            k = min(len(left), max(1, jobs))
            todo.extend((i, left[j::k], 3.0) for j in range(k) if left[j::k])
    finally:
        pool.terminate()
        pool.join()
    for name, f, opts in TASKS:
        if name not in cut and not total.problems and not total.scenarios.get(name, (0, 0))[1] and not any(name in e for e in errors):
            errors.append('scenario %s: no feasible path' % name)
    return total, errors, cut


def missed(res):
    """Statements of the functions analysed which are on none of the paths."""
    if SRC is None:
        return []
    return ['%s line %d' % s for s in sorted(set(s for s in SRC.stmts.values() if s[0] in res.visited) - res.reached)]


def known(pid):
    """Findings recorded in known-findings.txt: (scenario, rule, location prefix) triples of this property."""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid):
                    fields = line.split(' | ')
                    out.append((fields[1], fields[2], fields[3], fields[4]))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    start = time.time()
    try:
        res, errors, cut = run(pid, tier, min(8, os.cpu_count() or 1))
    except AnalysisError as e:
        res, errors, cut = Result(), [str(e)], set()
    findings = known(pid)
    problems, listed = [], []
    for p in sorted(res.problems.values(), key=lambda p: (len(p['path']), p['rule'], p['message'])):
        hit = [k for k in findings if k[:3] == (p['scenario'], p['rule'], p['message'])]
        (listed if hit else problems).append(p)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    names = sorted(res.visited)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Every feasible control-flow path of the public operations named by the scenarios was interpreted over abstract values, '
                           'from the sources as they are now; on each path the rules of the property were checked on the ordered effects and results. '
                           'obligations = rule instances checked, all of which were discharged unless listed as violations.',
            'technique': TECHNIQUE,
            'evaluations': res.paths, 'infeasible': res.infeasible, 'obligations': res.obligations, 'discharged': res.obligations - len(res.problems),
            'rules': dict(sorted(res.rules.items())),
            'scenarios': {k: {'paths': v[0], 'feasible': v[1]} for k, v in sorted(res.scenarios.items())},
            'functions_analysed': len(names), 'functions': names,
            'statements_analysed': len(res.reached), 'statements_of_these_functions_on_no_path': missed(res),
            'functions_in_sources': SRC.nfunctions if SRC else 0,
            'steps': res.steps, 'effects': res.events,
            'samples': [{'scenario': k, 'path': v} for k, v in sorted(res.sample.items())][:6],
            'sources_sha256': SRC.digest if SRC else None, 'errors': errors[:10],
            'complete': not cut and not errors, 'cut_short': sorted(cut),
        },
        'assumptions': ['the models of the standard library and of Django in sa/lib.py and sa/world.py', 'containers of the analysed calls have up to the number of elements given by the scenarios'],
        'wall_s': round(time.time() - start, 2), 'violations': len(problems)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    print('%s: %d scenarios, %d paths (%d infeasible), %d obligations of %d rules, %d functions of %s analysed, %.1fs' % (
        pid, len(res.scenarios), res.paths, res.infeasible, res.obligations, len(res.rules), len(names), REPO, time.time() - start))
    for p in listed:
        print('KNOWN-FINDING: property=%s %s: %s (%s)' % (pid, p['rule'], p['message'], p['location']))
    for c in sorted(cut):
        print('BOUND: scenario %s was not explored to the end (limit of %d paths or %d s)' % (c, MAX_PATHS[tier], DEADLINE[tier]))
    for e in errors:
        print('ANALYSIS ERROR: %s' % e)
    if problems:
        replay = os.path.join(evdir, pid + '.violations.json')
        with open(replay, 'w') as f:
            json.dump(problems, f, indent=1)
            f.write('\n')
        for p in problems[:8]:
            print('  %s: %s\n    at %s\n    scenario %s, path: %s' % (p['rule'], p['message'], p['location'], p['scenario'], '; '.join(p['path'])[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(replay, HERE)))
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
