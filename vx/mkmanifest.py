"""rewrites MANIFEST.json and contracts/baseline.json from props.json and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild as V
import check as C
conf = json.load(open(os.path.join(V.CON, 'props.json')))
ids = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in ids:
    c = conf['props'].get(p['id'])
    if not c:
        na.append(dict(property=p['id'], reason=conf.get('not_applicable', {}).get(p['id'], 'not yet under contract')))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 vx/check.py %s' % p['id'], thorough_cmd='python3 vx/check.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=c.get('technique', 'contract-based deductive verification (Verus) of the extracted real functions'),
                       level=c.get('level', 'proof'), level_note=c['note']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='The functions under contract are extracted from /repo/src on every run (vx/extract.py) and verified by Verus; see DESIGN.md.')
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
g = V.Gen('/repo')
json.dump({k: C.fn_hash(f) for k, f in sorted(g.index.fns.items())}, open(os.path.join(V.CON, 'baseline.json'), 'w'), indent=0)
