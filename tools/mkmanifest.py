"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
sys.path.insert(0, V + '/checks')
import check
NA = {}
TECH = 'Quint specification: behaviours generated by its simulator are replayed on the program, every state compared, differences judged by trace validation against the specification'
NOTE = ('Every transaction of the generated histories is executed by the real program (its entrypoint, native build) and its whole effect compared with the specification, '
        'whose own invariants are evaluated along the way; assurance is that of the histories explored, not exhaustive. Trusts the runtime emulation in harness/src/rt.rs and the SPL token program.')
checks, na = [], []
for i in ids:
    if i in check.PROPS or i in getattr(check, 'SPECIAL', {}):
        sp = getattr(check, 'SPECIAL', {}).get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3 checks/check.py %s quick' % i, 'thorough_cmd': 'python3 checks/check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': sp.get('technique', TECH), 'level': 'model_checking', 'level_note': sp.get('note', NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the check is not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hooks were needed: the checks drive the public entrypoint and read the accounts', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'Specification in spec/*.qnt (Quint). See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
