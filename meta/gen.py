#!/usr/bin/env python3
"""meta/props.py -> properties.jsonl and MANIFEST.json"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p.get('state'):
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        a['observe_at'] = p.get('observe', [])
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
checks = []
na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    checks.append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick ./check %s' % p['id'], thorough_cmd='VERIF_TIER=thorough ./check %s' % p['id'],
                       technique=p.get('technique', 'contract-based deductive verification of the compiled code (clang LLVM IR, verification conditions discharged by z3/cvc5), counterexamples replayed on the real code'),
                       level=p.get('level', 'proof'), level_note=p['note']))
m = dict(version=1, setup_cmd='./setup', hooks=dict(guard='HZ_VERIF_UNUSED', enable='no hooks are needed: checks compile /repo as it is (private members are reached with -fno-access-control)', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Checks recompile /repo/src on every run; see DESIGN.md. Genuine defects: known-findings.txt and the fix: commits in /repo.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
