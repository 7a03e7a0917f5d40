"""Write MANIFEST.json from the check modules that exist."""
import json
import os
import re
import subprocess

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(HOME, 'tools', 'techniques.py')).read())

checks, missing = [], []
for line in open(os.path.join(HOME, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    mod = os.path.join(HOME, 'lib', 'vf', 'checks', pid.lower() + '.py')
    if os.path.exists(mod):
        checks.append(dict(property=pid, quick_cmd='bash run_check.sh ' + pid,
                           thorough_cmd='bash run_check.sh ' + pid,
                           technique=TECH[pid][0], level='exploration', level_note=TECH[pid][1]))
    else:
        missing.append(dict(property=pid, reason='no check has been built for it yet'))
man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=missing,
           notes='All checks run the installed glmtools from /repo as it is, under monitors that live '
                 'in /verif/lib/vf. No hooks are added to /repo. Known findings: known_findings.txt.')
with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(missing), 'not yet')
