"""writes DESIGN.md: design_head.md, one section per property (from properties.jsonl and sa/registry.py), the planted bugs, design_tail.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa'); sys.path.insert(0, V + '/tool')
import registry, mkmanifest
notes = json.load(open(V + '/tool/design_notes.json'))
out = [open(V + '/tool/design_head.md').read().rstrip(), '', '## Properties', '']
seeds = {}
sd = V + '/seeded'
for s in sorted(os.listdir(sd)):
    p = '%s/%s/meta.json' % (sd, s)
    if os.path.exists(p):
        m = json.load(open(p)); seeds.setdefault(m['property'], []).append((s, m))
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); pid = d['id']
    out += ['### %s %s' % (pid, d['title']), '']
    if pid in registry.RULES:
        r = registry.RULES[pid]
        out += ['Rules: %s (`%s`). *Method:* %s.' % (', '.join(n for n, _ in r['rules']), ', '.join(sorted({'sa/rules/%s.py' % f.__module__.split('.')[-1] for _, f in r['rules']})), registry.TECHNIQUE[pid]), '']
        out += [r['explanation'].replace(registry.ENGINE, ''), '']
        lim = list(r['assumptions']) + ([notes[pid]] if pid in notes else [])
        if lim:
            out += ['*Limits and notes:* ' + '; '.join(x.rstrip('.') for x in lim) + '.', '']
        if pid in seeds:
            out += ['*Planted:* ' + ', '.join(s for s, _ in seeds[pid]) + '.', '']
    else:
        out += ['Not applicable: ' + mkmanifest.RUNTIME.get(pid, 'no rule decides it.'), '']
out += ['## Planted bugs', '', 'Each is a patch that builds and passes the stable tests, with a demonstration that fails only with it. All are caught by the check of their property unless said otherwise.', '', '| id | needs | caught by |', '|---|---|---|']
res = json.load(open(V + '/tool/catches.json')) if os.path.exists(V + '/tool/catches.json') else {}
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        out.append('| %s | %s | %s |' % (s, m['needs'].replace('|', '/'), res.get(s, pid)))
out += ['', open(V + '/tool/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
