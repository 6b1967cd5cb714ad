"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level='exploration', check=True,
         reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, check=check, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

man = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the checks observe /repo through its command line, its '
              'sanitizer-instrumented builds and harnesses compiled against its sources', 'source_commits': []},
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick python3 checks/%s.py' % p['id'].lower(),
        'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % p['id'].lower(),
        'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P if p['check']],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['check']],
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
