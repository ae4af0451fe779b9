"""Single source of properties.jsonl and MANIFEST.json:  python3 meta.py"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, 'props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks analyse the MIR the pinned compiler emits for /repo as it is now (cached by a hash of the sources); nothing of /repo is executed. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
