#!/usr/bin/env python3
"""records the names the functions under contract bind, for which the proof text is written (development only):
mknames.py UNITS.json"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble
u = json.load(open(sys.argv[1]))
a = assemble.Assembler(u)
out = {f['key']: assemble.bound_names(f) for f in u['fns'] if f['key'] in a.cs and f['module'] not in ('derive', 'uses')}
out.update({'loops ' + f['key']: assemble.loop_vars(f) for f in u['fns'] if f['key'] in a.cs and f['loops'] and f['module'] not in ('derive', 'uses')})
# what is assumed of the types: their equality and copies are the derived ones
for t in u['types']:
    d = [x for x in ('Clone', 'PartialEq', 'Default') if x in t['derives']]
    if d: out[f"derive {t['module']}::{t['name']}"] = d
with open(os.path.join(assemble.HERE, 'contracts', 'names.json'), 'w') as o:
    o.write('{\n' + ',\n'.join(f' {json.dumps(k)}: {json.dumps(v)}' for k, v in sorted(out.items())) + '\n}\n')
