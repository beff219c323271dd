"""writes MANIFEST.json from properties.jsonl, the proof modules present and vp/levels.py"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vp import levels
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    pid = json.loads(l)['id']
    have = os.path.exists(os.path.join(H, 'vp', 'proofs', pid.lower() + '.py'))
    if not have:
        na.append(dict(property=pid, reason=levels.NA.get(pid, 'not claimed yet: contracts still being written')))
        continue
    cmd = '/opt/venv/bin/python check.py ' + pid
    checks.append(dict(property=pid, quick_cmd=cmd, thorough_cmd=cmd + ' --thorough',
                       technique='contract-based deductive verification of the real functions (VC generation from '
                                 "/repo's source on every run, z3/cvc5); run-time contracts replay refuted obligations",
                       level=levels.LEVEL.get(pid, 'proof'),
                       level_note=levels.NOTE.get(pid, levels.DEFAULT_NOTE)))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/selftest.py', checks=checks, not_applicable=na),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
