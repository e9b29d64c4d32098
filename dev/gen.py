#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = ['encoding/thriftbinary/thriftbinary.go']
CMP = ['encoding/thriftcompact/thriftcompact.go', 'encoding/thriftcompact/types.go']
WIRE = ['encoding/thriftwire/bufio.go', 'encoding/thriftwire/varint.go']
AI = 'abstract interpretation of the SSA form (symbolic values, path partitioning, joins), '
P = []
def prop(id, title, statement, over, qtext, why, files, mech, tech, note):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note))
exec(open(os.path.join(ROOT, 'dev', 'props.py')).read())
NA = globals().get('NA', [])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    for p in NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [
    {'property': p['id'], 'quick_cmd': 'bash run.sh %s quick' % p['id'], 'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
     'technique': p['tech'], 'level': 'other', 'level_note': p['note']} for p in P],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
    'notes': 'Everything is decided from the source of /repo, which is never run. See DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'claimed', len(NA), 'not applicable')
