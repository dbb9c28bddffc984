#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # NOQA

PY = '/opt/venv/bin/python'


def main():
    props.finish()
    checks = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in props.PROPS:
            assert len(p['title']) <= 80, p['id']
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            if p['state']:
                anchors['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']]
            if p['observe']:
                anchors['observe_at'] = p['observe']
            rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': anchors}
            f.write(json.dumps(rec) + '\n')
            if p.get('na'):
                continue
            cmd = '%s run.py %s --tier ' % (PY, p['id'].lower())
            checks.append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                           'technique': props.T, 'level': 'other',
                           'level_note': p['note'] or 'bounded: holds for every value within the bounds of checks/%s.py on every fully explored configuration; configurations that hit a path or time limit are listed as incomplete in the evidence' % p['id'].lower()})
    man = {'version': 1, 'setup_cmd': PY + ' run.py --selftest', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': r} for k, r in getattr(props, 'NOT_APPLICABLE', [])],
           'notes': 'All checks are bounded symbolic execution of the code in /repo (imported from the working tree on every run); see DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
