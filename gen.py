#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (run by hand; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
PR, NA = [], []


def D(pid, title, statement, over, text, why, files, mech, note, level='proof', technique=None, na=None, theorems=None):
    PR.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    if na:
        NA.append(dict(property=pid, reason=na))
        return
    PR[-1]['_check'] = dict(property=pid, quick_cmd='./check.py %s --tier quick' % pid, thorough_cmd='./check.py %s --tier thorough' % pid,
                            evidence_file='evidence/%s.json' % pid, level=level, level_note=note,
                            technique=technique or 'contract-based deductive verification: function contracts and loop invariants over the LLVM IR of the current sources, obligations discharged by z3/cvc5; executable contracts as replay search and as the labelled bounded stand-in')


exec(open(os.path.join(V, 'propdefs.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PR:
        f.write(json.dumps({k: v for k, v in p.items() if k != '_check'}) + '\n')
json.dump(dict(version=1, setup_cmd='true', checks=[p['_check'] for p in PR if '_check' in p], not_applicable=NA,
               notes='see DESIGN.md; known-findings.txt lists confirmed defects'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
