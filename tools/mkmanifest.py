#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.rules import RULES
TECH = {
 'C01': 'path-sensitive abstract interpretation; provenance of returned values against recorded tag versions',
 'C02': 'path-sensitive abstract interpretation; effect order and provenance of stored versions',
 'C03': 'path-sensitive abstract interpretation; must-not-write effect analysis under locks',
 'C04': 'path-sensitive abstract interpretation; dependency flow to enclosing entries',
 'C05': 'typestate analysis of the tracking state over all paths, exceptional ones included',
 'C06': 'effect and ordering analysis of invalidations over all paths',
 'C07': 'typestate and effect analysis of transactions over all paths',
 'C08': 'effect analysis per isolation level, delayed effects included',
 'C09': 'abstract interpretation of the lock decision over all orderings of sessions and times',
 'C10': 'effect analysis of the marks with linear comparison of their lifetimes',
 'C11': 'abstract interpretation of merged lookups; provenance of callback arguments',
 'C12': 'effect analysis of every public operation under a foreign thread (ownership analysis)',
 'C13': 'provenance (taint) analysis of generated ids and versions',
 'C14': 'provenance analysis of keys; injectivity of their derivation',
 'C15': 'dataflow analysis of the cache version into every effect',
 'C16': 'alias and effect analysis of dependency objects',
 'C17': 'path-sensitive abstract interpretation of the middleware over models of request and response',
 'C18': 'path-sensitive abstract interpretation of the template tags over models of parser and context',
 'C19': 'abstract interpretation of the expansion; provenance of executed code',
 'C20': 'effect analysis of registrations and handlers',
 'C21': 'typestate analysis of scopes over all ways out',
 'C22': 'sibling cross-check: abstract results and effects of all call forms are compared',
 'C23': 'sibling cross-check of derived and basic operations of the adapter',
 'C24': 'effect ordering and fault-path analysis of file operations',
 'C27': 'path-sensitive abstract interpretation; provenance of results and effects of get-or-compute',
 'C28': 'path-sensitive abstract interpretation; provenance of returned values over histories',
 'C29': 'frame analysis: the effects of every operation against the keys it may touch',
 'C30': 'effect counting: calls of the underlying cache per operation compared over sizes',
 'C31': 'fault-path analysis: every effect of every operation fails in turn; typestate afterwards',
 'C32': 'effect and alias analysis of two caches in one thread',
 'C33': 'path-sensitive abstract interpretation; contents of errors against the versions and marks that caused them',
 'C34': 'heap analysis: what is reachable from modules and caches after rounds of work',
 'C35': 'heap analysis: shared objects are compared at every point where control leaves the analysed code',
 'C36': 'heap analysis: reachability from the values written to the cache',
}
NOTE = ('All feasible paths of the public operations named by the scenarios are covered, with symbolic keys, tags, values and versions; containers and histories are covered up to the sizes '
        'the scenarios give (stated in DESIGN.md). Trusts the models of the standard library and of Django in sa/ and the interpreter of the analysed language.')
NA = {
 'C25': 'Quantifies over interleavings with an external database and replication, whose state is not visible in the source; only the local obligations of the protocol (C03, C06 to C10) can be decided statically.',
 'C26': 'Quantifies over the running time of transactions and the evictions of the backend; no static argument bounds them (the relative lifetimes of marks are decided under C10).',
}
def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if RULES.get(i):
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'other', 'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'The rule for this property is not built yet.')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: /repo is parsed, never imported or run. There are no hooks in /repo.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')
main()
