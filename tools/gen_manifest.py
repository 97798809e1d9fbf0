"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PURE = 'A pure function of its arguments: no schedule, clock, fault, I/O or shared state that it depends on, so there is nothing for a simulator to decide. '
na = {
    'C19': PURE + 'Time arithmetic is exercised only incidentally (C06 and the format models).',
    'C20': PURE + 'Collecting is judged on what readers produce under C01 to C05, not on arbitrary caller-made lists.',
    'C21': PURE + 'The ordering is judged only on the positions readers and writing jobs produce.',
}
checks = []
for n, p in sorted(plan.PROPERTIES.items()):
    checks.append({'property': n, 'quick_cmd': './check %s quick' % n, 'thorough_cmd': './check %s thorough' % n, 'evidence_file': 'evidence/%s.json' % n,
                   'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './check setup',
     'hooks': {'guard': 'none', 'enable': 'No hooks were needed in /repo: the seams are link-time wrappers of libc calls, stream buffers handed to the public API, and compiler instrumentation.', 'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
     'notes': 'Each check rebuilds the simulator from /repo/src and /repo/tools. Replay a reported file with: ./check <id> --replay <file>'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
