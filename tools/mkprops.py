#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE, NOTES

checks = []
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                              observe_at=p['observe'], hook_needed=None))
        assert len(d['title']) <= 80, d['title']
        for f in p['files']:
            assert os.path.exists(os.path.join('/repo', f)), f
        fh.write(json.dumps(d) + '\n')
        if p['id'] in NOT_APPLICABLE:
            continue
        assert os.path.exists(os.path.join(VERIF, 'checks', p['id'].lower() + '.py')), p['id']
        checks.append(dict(
            property=p['id'],
            quick_cmd='checks/run.py %s --tier quick' % p['id'],
            thorough_cmd='checks/run.py %s --tier thorough' % p['id'],
            technique='runtime monitoring: ' + p['technique'],
            level='exploration',
            level_note=p['note']))
manifest = dict(
    version=1,
    setup_cmd='true',
    checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
    notes=NOTES)
json.dump(manifest, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
