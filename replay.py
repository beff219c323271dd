#!/opt/venv/bin/python
"""replay.py <file>: run the recorded failing input against the real code again."""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
if not d.get('case'):
    print('no failing input; refuted obligations:')
    for o in d['failed_obligations']:
        print(' ', o['name'], '::', o['detail'])
    sys.exit(1)
from vp.conc import common as R
importlib.import_module('vp.conc.' + d['property'].lower())
c = [x for x in R.CASES[d['property']] if x.name == d['case']][0]
st, msg = R.run_iter(c, d['seed'], d['iteration'])
print(st, msg)
sys.exit(1 if st == 'broken' else 0)
