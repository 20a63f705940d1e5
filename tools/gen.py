#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
P = []
NOT_BUILT = {}
def prop(id, title, statement, over, quant, why, files, mech, state=(), technique='', note='', observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe)),
        technique=technique, note=note))

SCHED = 'stateless model checking of the instrumented real code: every schedule (and timer/early-expiry choice) up to a deviation bound'
SEQ = 'bounded exhaustive enumeration of inputs/operation sequences on the real code against an independent reference model'
NSCHED = 'Explores all executions of the listed harnesses within the reported deviation bound (0,1,..D preemptions/early timers) on the real source, rebuilt and instrumented on every run; memory with store buffers (TSO; delayed plain stores cost a deviation), happens-before race detection on plain fields used by the harness oracles only through ordered accesses. Nothing is claimed above the bound or for larger harnesses.'
NSEQ = 'Every case of the listed finite input spaces is executed on the real code and compared with an independently written reference; nothing is claimed outside these spaces.'
NOTEST = 'The repository has no test of this part at all (its 7 tests cover marshal and sbox encodings of a few values); '

exec(open('tools/props.py').read())

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ('id','title','statement','quantifier','why_tests_cant','anchors')}, ensure_ascii=False)+'\n')
checks, na = [], []
for p in P:
    if p['id'] in NOT_BUILT:
        na.append(dict(property=p['id'], reason=NOT_BUILT[p['id']])); continue
    checks.append(dict(property=p['id'], quick_cmd='./run.sh '+p['id'], thorough_cmd='VERIF_TIER=thorough ./run.sh '+p['id'],
        evidence_file='evidence/%s.json'%p['id'], technique=p['technique'], level='model_checking', level_note=p['note']))
m = dict(version=1, setup_cmd='./run.sh -setup', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the code under test is instrumented on a scratch copy at every run (cmd/instr). Fixes of genuine defects: see known_findings.txt.')
json.dump(m, open('MANIFEST.json','w'), indent=1, ensure_ascii=False); open('MANIFEST.json','a').write('\n')
for p in P:
    assert len(p['title'])<=80, p['id']
    assert len(re.findall(r'[.!?](?:\s|$)', p['statement']))<=3, (p['id'], p['statement'])
print(len(P), 'properties,', len(checks), 'claimed')
