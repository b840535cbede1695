"""writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing the table)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P, NA
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Every obligation generated from the current source of the functions under contract is discharged by an SMT solver, for all inputs and all iterations. '
        'Trusted: clang front end at -O0, the hxv executor and loop rule, the solvers, and the contracts of the standard-library functions listed in the evidence. ')
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P + NA:
        q = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p.get('obs', []), 'hook_needed': None}}
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
ch = [{'property': p['id'], 'quick_cmd': 'python3-vt -m hxv.run --prop %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt -m hxv.run --prop %s --tier thorough' % p['id'],
       'technique': 'contract-based deductive verification of the real code (contracts over mechanically extracted LLVM IR, loop invariants, SMT)', 'level': 'proof', 'level_note': NOTE + p.get('note', '')} for p in P if p.get('claim', True)]
na = [{'property': p['id'], 'reason': p['reason']} for p in NA] + [{'property': p['id'], 'reason': p['reason']} for p in P if not p.get('claim', True)]
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m hxv.run --setup', 'checks': ch, 'not_applicable': na}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(ch), 'checks', len(na), 'not applicable')
