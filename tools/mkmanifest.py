"""Writes MANIFEST.json. CLAIMED: property -> (technique, note, theorems)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the functions extracted from /repo, discharged by Verus/Z3'
NOTE = ('Deductive proof for all inputs of the functions listed in the evidence, re-extracted and re-verified on every run; '
        'assumes the contracts of external crates and library functions listed in trusted_base and the extraction rules of DESIGN.md. '
        'The concrete search replays failed obligations and stands in (bounded, labelled) for functions left undecided.')
CLAIMED = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[])
for p in props:
    if p in CLAIMED:
        c = CLAIMED[p]
        e = dict(property=p, quick_cmd=f'python3 tools/check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 tools/check.py {p}', evidence_file=f'evidence/{p}.json', technique=TECH, level='proof', level_note=(c.get('note', '') + ' ' + NOTE).strip())
        if c.get('theorems'): e['theorems'] = c['theorems']
        m['checks'].append(e)
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'not claimed yet: contracts under construction')))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
