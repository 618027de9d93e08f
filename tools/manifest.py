"""Write MANIFEST.json from the checks which exist (run after adding one)"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get('DST_REPO', '/repo')]

NA = {
    'C18': 'Pure functions of their arguments; no schedule, I/O or fault to simulate. Their use inside estimators is '
           'covered by C10 and C16.',
    'C20': 'The external package it wraps (thevenin) is not installed here, so the code cannot be executed.',
}

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'dst', 'props', pid.lower() + '.py')):
        prop = importlib.import_module(f'dst.props.{pid.lower()}').PROPERTY()
        checks.append({
            'property': pid, 'quick_cmd': f'./check.sh {pid} quick', 'thorough_cmd': f'./check.sh {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': 'deterministic simulation with fault injection: ' + prop.technique, 'level': prop.level,
            'level_note': prop.note})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No check has been built yet.')})
out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks were added to /repo: interfaces of the code and the h5py classes are the seams. '
                'Genuine defects were repaired by fix: commits, which known_findings.txt lists.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
