#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN
import plan
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NA = getattr(plan, 'NA', {})
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[])
if getattr(plan, 'HOOKS', None): m['hooks'] = plan.HOOKS
for p in props:
    i = p['id']
    if i in PLAN:
        m['checks'].append(dict(property=i, quick_cmd=f'python3 tools/check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 tools/check.py {i}', evidence_file=f'evidence/{i}.json',
            technique=PLAN[i].get('technique', 'symbolic execution of the compiled code (LLVM IR) with SMT-decided paths and assertions (Z3)'), level=PLAN[i].get('level', 'model_checking'),
            level_note='Bounded: ' + PLAN[i]['bounds'] + '. Trusts: the symbolic executor (sampled paths are replayed natively and compared), Z3, rustc/LLVM up to optimised IR. ' + '; '.join(PLAN[i].get('assumptions', [])) + '.'))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
