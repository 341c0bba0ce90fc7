"""Writes /verif/MANIFEST.json from the check modules and NA reasons."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
p = os.path.join(V, 'tools/not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    pid = d['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')) and pid not in NA:
        m = importlib.import_module('checks.' + pid.lower())
        checks.append({'property': pid, 'quick_cmd': './run ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough ./run ' + pid,
                       'technique': m.TECH, 'level': getattr(m, 'LEVEL', 'exploration'), 'level_note': m.NOTE})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check has been built for it yet')})
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'Every check copies the current working tree of /repo to a scratch directory, builds it there with the '
                "repository's own build system and removes it afterwards. No hooks in /repo are needed: the monitors sit "
                'at process, file and library-interface boundaries; variants (guard-page allocator, sanitizers) are '
                'applied to the scratch copy.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
