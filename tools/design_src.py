"""Writes DESIGN.md from the property modules, known_findings.txt and the texts below (run by hand after changes; no check uses it)."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, '/repo')
from tools.design_text import HEAD, WHY, TAIL

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
found = {}
for l in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        found.setdefault(m[1], []).append((m[2], m[3]))
seeds = {}
for fn in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(fn))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(fn)), d))
out = [HEAD]
for p in props:
    mod = importlib.import_module('mon.props.' + p['id'].lower())
    out.append('### {} - {}\n'.format(p['id'], p['title']))
    out.append('*Method.* ' + mod.TECHNIQUE[0].upper() + mod.TECHNIQUE[1:].strip() + '.\n')
    out.append('*Cases.* ' + mod.RULE.strip() + '\n')
    w = []
    for x in mod.WORKLOADS:
        n = (x.count('quick'), x.count('thorough'))
        w.append('`{}` {} / {}'.format(x.name, *n))
    out.append('*Workloads (quick / thorough cases).* ' + ', '.join(w) + '.\n')
    out.append('*Bounds and assumptions.* ' + ' '.join(getattr(mod, 'ASSUME', ['none'])) + '\n')
    out.append('*Why this reaches what the tests cannot.* ' + WHY[p['id']] + '\n')
    if p['id'] in seeds:
        out.append('*Planted bugs kept.* ' + '; '.join('{} (needs: {})'.format(a, d['needs'].rstrip('.')) for a, d in seeds[p['id']]) + '.\n')
    if p['id'] in found:
        out.append('*Defects found here and repaired ({}).*\n'.format(len(found[p['id']])))
        out += ['- {} `{}`'.format(t, c) for c, t in found[p['id']]]
        out.append('')
out.append(TAIL)
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
