"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from claims import CLAIMS, NOT_APPLICABLE     # noqa: E402

ids = [json.loads(line)['id'] for line in open(os.path.join(
    HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        technique, note = CLAIMS[i]
        checks.append({
            'property': i, 'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': technique, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(
            i, 'The check is not built yet.')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': 'python3 -c "import sys; '
                            'sys.exit(sys.version_info < (3, 8))"',
               'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis only: checks parse /repo/wagyu and '
                        'never import or run it. See DESIGN.md.'},
              f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
