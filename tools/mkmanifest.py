#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, missing = [], []
for p in props:
    i = p['id']
    if not os.path.exists('%s/checks/%s.py' % (V, i.lower())):
        missing.append(i)
        continue
    m = importlib.import_module('checks.' + i.lower())
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': m.TECHNIQUE, 'level': m.LEVEL, 'level_note': m.NOTE})
d = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'no check is built for it yet'} for i in missing],
     'notes': 'No hooks: every check compiles /repo\'s sources or the code they generate unmodified; external functions are replaced with -D macros or at link time.'}
with open(V + '/MANIFEST.json', 'w') as fh:
    json.dump(d, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks; missing:', missing)
