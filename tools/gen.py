import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props import PROPS
LEVEL_NOTE = ('static analysis of the current MIR: every partition element of the abstract pre-states inside the shape bounds is decided; '
              'elements the analysis cannot model are reported as undecided and never alarm')
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': p['files'][0]} for n in p['mech']]}}, ensure_ascii=False) + '\n')
for p in PROPS: assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note'] or LEVEL_NOTE} for p in PROPS if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['na']]}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
import subprocess
