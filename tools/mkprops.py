"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='model_checking', observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=list(observe), state=list(state)))


SCR = 'ieml/dictionary/script/'
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fp:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fp.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': p['state'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
               'checks': [{'property': p['id'], 'quick_cmd': 'bash run.sh %s quick' % p['id'],
                           'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P],
               'not_applicable': NA,
               'notes': 'No hooks in /repo: all observation is through the public interface. The checks import /repo in place '
                        '(pure Python, nothing to build); parser caches and databases live in a per-run scratch folder.'},
              fp, indent=1, ensure_ascii=False)
    fp.write('\n')
