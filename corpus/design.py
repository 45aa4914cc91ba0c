"""Regenerate the per-property and seed tables of DESIGN.md (development aid)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
man = json.load(open(V + '/MANIFEST.json'))
out = []
for ch in man['checks']:
    m = importlib.import_module('sa.checks.' + ch['property'].lower())
    out.append('### %s\n\n%s\n\nRules: %s.\n' % (ch['property'], m.EXPLANATION, '; '.join('*%s* — %s' % (k, v) if isinstance(m.RULES, dict) else k for k, v in (m.RULES.items() if isinstance(m.RULES, dict) else [(r, '') for r in m.RULES]))))
na = '\n'.join('* %s — %s' % (n['property'], n['reason']) for n in man['not_applicable']) or 'none'
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    j = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s |' % (d, j['property'], j['needs']))
t = open(V + '/corpus/DESIGN.in.md').read()
t = t.replace('@PROPERTIES@', '\n'.join(out)).replace('@NA@', na).replace('@SEEDS@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
