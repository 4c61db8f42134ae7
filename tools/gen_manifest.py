#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checker's list of checks and the texts below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = set(subprocess.run([os.path.join(here, 'check.sh'), 'list'], capture_output=True, text=True, check=True).stdout.split())
NA = {
 'C90': 'Compares the bytes a build command would have written with those on disk: it quantifies over the behaviour of arbitrary subprocesses and file contents, which the source does not determine. The static part (what the hash covers, when skipping is allowed) is C05 and C07.',
 'C91': 'Durability and isolation are provided by SQLite, a C library outside this repository; no rule over the Go source decides them. The static part (the statements sent and the treatment of their errors) is C21.',
 'C92': 'Whether a graph of targets is cyclic depends on targets built at run time from user code and YAML; the code has no cycle detection whose presence could be checked, and the property is known to be false for it (a cycle waits for itself).',
 'C93': 'A bound on time after cancellation depends on the operating system and on subprocesses. That the context reaches exec.CommandContext and every nested run is part of C16 and C04.',
}
TECH = {}
exec(open(os.path.join(here, 'tools', 'techniques.py')).read(), {'TECH': TECH})
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t, note = TECH.get(i, ('path-sensitive dataflow over SSA', ''))
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check is built for this property yet.')})
json.dump({'version': 1, 'setup_cmd': './check.sh --build', 'checks': checks, 'not_applicable': na,
  'notes': 'Every check loads, type-checks and analyses /repo\'s current source (go/packages, go/ssa) without running it. Accepted findings would be listed in KNOWN_FINDINGS.txt.'},
  open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
