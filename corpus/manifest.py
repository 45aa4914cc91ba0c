"""Regenerate MANIFEST.json from sa/checks (development aid)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {}
checks, na = [], []
for i in range(1, 21):
    pid = 'C%02d' % i
    if os.path.exists(V + '/sa/checks/%s.py' % pid.lower()) and pid not in NA:
        m = importlib.import_module('sa.checks.' + pid.lower())
        checks.append({
            'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % pid,
            'technique': getattr(m, 'TECHNIQUE', 'static analysis: path-sensitive abstract interpretation of the source'),
            'level': 'other',
            'level_note': m.EXPLANATION + ' Trusted: the models of the standard library used by the interpreter (sa/models.py). '
            'Constructs outside the domain end as unresolved obligations in the evidence, never as violations.'})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check built yet')})
d = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Checks read /repo/ombott/**/*.py and execute none of it.'}
json.dump(d, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks')
