import sys, importlib, time
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
pid=sys.argv[1]
m=importlib.import_module('vp.proofs.'+pid.lower())
from vp.proofs import common
for u in common.UNITS.get(pid,[]):
    if len(sys.argv)>2 and sys.argv[2] not in u.name: continue
    r=common.run_unit(u)
    print('==',u.name,r.status,'%.1fs'%r.secs,'paths',r.paths,r.reason[:2500])
    for o in r.obl: print('    ',o['status'],o['name'],o['vcs'],o['backends'],o['secs'], o['detail'][:300] if o['status']!='proved' else '')
