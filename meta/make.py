"""Write properties.jsonl and MANIFEST.json from meta/props.py.  python3 meta/make.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         state=[], observe_at=p['observe'], hook_needed=None))) + '\n')
na = {n['property'] for n in NA}
m = dict(version=1, setup_cmd='true', checks=[dict(property=p['id'], quick_cmd='./run ' + p['id'],
        thorough_cmd='./run %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
        technique=p['technique'], level='exploration', level_note=p['note']) for p in PROPS if p['id'] not in na],
    not_applicable=NA, notes=NOTES)
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
