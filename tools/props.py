#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))

here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, 'props_data.py')).read())

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'],
                                  mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                  observe_at=p['observe'], hook_needed=None))
            if p['state']:
                o['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            assert len(o['title']) <= 80, o['id']
            f.write(json.dumps(o) + '\n')
    done = set(x for x in open(os.path.join(here, 'done.txt')).read().split())
    m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
    for p in P:
        if p['id'] in done:
            m['checks'].append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'],
                                    thorough_cmd='bash check.sh %s thorough' % p['id'],
                                    technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=NA.get(p['id'], 'the check for it is not built yet')))
    m['notes'] = NOTES
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')

main()
