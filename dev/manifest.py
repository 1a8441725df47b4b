"Write MANIFEST.json from the check modules (see also rv/core.py)."
import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:0] = [VERIF, '/repo', os.path.join(VERIF, 'rv', 'stubs')]

props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, absent = [], []
for prop in props:
    name = prop['id'].lower()
    if not os.path.exists(os.path.join(VERIF, 'rv/checks', name + '.py')):
        absent.append({'property': prop['id'],
                       'reason': 'its monitor has not been written yet'})
        continue
    mod = importlib.import_module('rv.checks.' + name)
    note = mod.RULE + ' Assumes/trusts: ' + ' '.join(mod.ASSUMPTIONS)
    checks.append({
        'property': prop['id'],
        'quick_cmd': 'python3 -m rv.run {} --tier quick'.format(prop['id']),
        'thorough_cmd': 'python3 -m rv.run {} --tier thorough'.format(
            prop['id']),
        'evidence_file': 'evidence/{}.json'.format(prop['id']),
        'technique': mod.TECHNIQUE,
        'level': mod.LEVEL,
        'level_note': note.strip(),
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 -m rv.setup',
    'checks': checks,
    'not_applicable': absent,
    'notes': 'No hooks were added to /repo: the monitors observe it from '
             'outside (stubs, audit hooks, preloaded libraries and strace).',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fp:
    json.dump(manifest, fp, indent=1)
    fp.write('\n')
