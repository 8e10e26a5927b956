"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
CLAIMED = {
    'C01': 'allocation registry: lookup, create, destroy, front ends',
    'C02': 'every function issuing RMA',
    'C03': 'contiguous operations',
    'C04': 'accumulate, scaling',
    'C05': 'strided translation, packing, unpacking and the translated front ends proved; derived datatypes (strided_method DIRECT) bounded: run natively',
    'C06': 'vector transfers: checks, dispatch, batched and datatype issue, blocking and nonblocking front ends',
    'C07': 'same-allocation and overlap checks proved over the contract of the interval set; the interval set itself (conflict_tree.c) is bounded: random and exhaustive insertion orders run natively',
    'C08': 'nonblocking handles',
    'C09': 'temporary copies',
    'C10': 'fences and barrier',
    'C11': 'atomics',
    'C12': 'groups and topology',
    'C13': 'mutexes',
    'C14': 'global operations',
    'C15': 'messages and broadcasts',
    'C16': 'initialisation, finalisation',
    'C17': 'environment settings',
    'C18': 'value operations, put with flag',
}
LEVEL = {'C05': 'other', 'C07': 'other'}
TECH = ('contract-based deductive verification of the real C functions: weakest-precondition style verification '
        'conditions generated from the clang AST of /repo/src on every run (engine/vc.py), discharged by z3')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd='/verif/check %s quick' % i, thorough_cmd='/verif/check %s thorough' % i,
                           technique=TECH, level=LEVEL.get(i, 'proof'), level_note=CLAIMED[i]))
    else:
        na.append(dict(property=i, reason='machinery not built yet'))
m = dict(version=1, setup_cmd='/verif/setup.sh',
         hooks=dict(guard='', enable='none: the sources are verified as they are', source_commits=[]),
         checks=checks, not_applicable=na, notes='see DESIGN.md')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
