"""Writes the 'fixed' lines of known-findings.jsonl from the map below and /repo's history (development aid)."""
import json
import subprocess
M = {'1ccab00': 'C11', '87e78c8': 'C08', 'b17076a': 'C08', '3844f43': 'C08', '6661fb4': 'C08', '46734e8': 'C08', '05612db': 'C08',
     'd5a299b': 'C07', '8f6c21d': 'C07', '5791a7a': 'C08', '03113b2': 'C07', 'b611ce2': 'C01', '7d16faa': 'C06', '1561ff9': 'C06',
     '706972d': 'C06', 'acb18aa': 'C06', '7feebdf': 'C06', '5d6c6e5': 'C06', '3935d10': 'C02', '6d06bdd': 'C02', '92f663b': 'C02',
     '90098da': 'C01', '2a1d477': 'C01', 'b914d1d': 'C11', '540890e': 'C02', 'a2d035e': 'C02', 'fdb00ca': 'C02', '0ccc25d': 'C03',
     '46a4a8c': 'C01', '4f0d7e5': 'C03', '1b3312d': 'C05', '61382bb': 'C03', 'e53fe7c': 'C03', '90999fa': 'C12', '7b702d7': 'C12',
     'd6431db': 'C17', 'ce6d1d7': 'C01', 'b62e910': 'C01', '48128f5': 'C08', '9ba5374': 'C08', '33da451': 'C01', '22b3f00': 'C12',
     '8a92bf3': 'C08', '996d555': 'C04', 'd147e92': 'C08', 'e32f6ff': 'C20', 'c69495f': 'C07'}
M.update(json.load(open('/verif/tools/fixed_more.json')) if __import__('os').path.exists('/verif/tools/fixed_more.json') else {})
keep = []
try:
    keep = [l for l in open('/verif/known-findings.jsonl') if json.loads(l)['kind'] == 'finding']
except FileNotFoundError:
    pass
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'd22f65b..HEAD'], stdout=subprocess.PIPE).stdout.decode()
props = {json.loads(l)['id'] for l in open('/verif/properties.jsonl')}
with open('/verif/known-findings.jsonl', 'w') as f:
    f.writelines(keep)
    for l in log.strip().split('\n'):
        h, s = l.split(' ', 1)
        if not s.startswith('fix:'):
            continue
        p = M[h[:7]]
        if p not in props:
            print('note: property', p, 'not in properties.jsonl yet', h)
        f.write(json.dumps({'kind': 'fixed', 'property': p, 'commit': h, 'what': s[5:],
                            'line': 'fixed: property=%s %s %s' % (p, h, s[5:])}) + '\n')
