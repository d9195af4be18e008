#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V); sys.dont_write_bytecode = True
from checks.meta import META
import checks
NA = {}
exec(open(os.path.join(V,'tools','na.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
assert set(META) == set(checks.MODULES),set(META)^set(checks.MODULES)
m = {'version':1,'setup_cmd':'python3-vt setup.py',
 'checks':[{'property':i,'quick_cmd':'python3-vt check.py '+i,'thorough_cmd':'python3-vt check.py '+i,'technique':META[i][0],'level':'other','level_note':META[i][1]} for i in ids if i in META],
 'not_applicable':[{'property':i,'reason':NA.get(i,'not claimed yet')} for i in ids if i not in META],
 'notes':'Every check reads /repo\'s current source, translates it with clang to IR (or parses it) and decides from that; nothing of /repo is executed. No hooks are needed. See DESIGN.md.'}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(m['checks']),'claimed;',[x['property'] for x in m['not_applicable']])
