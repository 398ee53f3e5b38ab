"""regenerate MANIFEST.json from qmv/props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from qmv import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []; na = []
for i in ids:
    P = props.PROPS.get(i)
    if P is None:
        na.append({'property': i, 'reason': props.NA.get(i, 'no check built yet')}); continue
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
      'evidence_file': 'evidence/%s.json' % i,
      'technique': P.get('technique', 'contract-based deductive verification of the code (VC generation from LLVM IR of /repo, z3), with labelled bounded contract execution for what is out of reach'),
      'level': P.get('level', 'proof'), 'level_note': P['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())" && clang++ --version && opt --version', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks in /repo: contracts live in /verif/contracts and are applied to the code extracted mechanically from /repo on every run.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
