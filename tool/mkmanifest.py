"""writes MANIFEST.json from sa/registry.py, properties.jsonl and the reasons below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import registry

RUNTIME = {
 'N01': 'quantifies over all values: round-trip equality is a statement about two runs on runtime data. Its structural part (loader and dumper agree record by record) is A03.',
 'N02': 'transitivity of a comparison over all strings is an algebraic fact about runtime values; no shape of the code in reach decides it.',
 'N03': 'the offsets after a resize are runtime sums over a type graph that is only known at run time; no sound static bound in reach decides that fields do not overlap.',
 'N04': 'round-trip equality of a character-level parser over all strings; no static argument in reach decides it.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.RULES:
        checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i, technique='static analysis: ' + registry.TECHNIQUE[i],
                           level='other', level_note='Sound up to the stated assumptions for the constructs the rules understand; whatever they do not understand is listed as undecided, never as held.'))
    else:
        na.append(dict(property=i, reason=RUNTIME.get(i, 'No rule decides it yet; it is not claimed.')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Every check extracts the type-checked program from the current tree of /repo with the tool in tool/ (clang LibTooling) and decides the property on it; nothing of /repo is run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
