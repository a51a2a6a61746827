"""measures what each function and lemma costs the solver (contracts/weights.json, used only to balance the parts verified in parallel)"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild as V
import extract as X
g = V.Gen('/repo')
areas = [a for a in g.props['areas']]
r = g.generate(areas, ['@' + a for a in areas], nshards=1)
assert not r['degraded'] and not r['missing'] and not r['problems'], (r['degraded'], r['missing'], r['problems'])
os.makedirs('/tmp/vx', exist_ok=True)
v = V.run_shards([(r['text'], r['linemap'])], '/tmp/vx/weights.rs', rlimit=60, timeout=1500)
print('wall', v['wall'], 'errors', [(e['tags'], e['msg']) for e in v['errors']])
names = {}
for f in r['under']:
    nm = X.emit_name(g.index.fns[f])
    names.setdefault(nm, []).append(f)
w = {}
for n, (ok, us) in v['units'].items():
    b = n.split('::')[-1]
    ms = round(us / 1000)
    if ms < 30:
        continue
    w['lemma:' + b] = ms
    for f in names.get(b, []):
        if len(names[b]) == 1 or f.replace('::', '__').split('<')[0].split('__')[0] == n.split('::')[0]:
            w['fn:' + f] = ms
            w.pop('lemma:' + b, None)
json.dump(w, open(os.path.join(V.CON, 'weights.json'), 'w'), indent=0, sort_keys=True)
print(len(w), 'weights', sum(w.values()))
