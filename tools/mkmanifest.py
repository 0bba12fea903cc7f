"""Writes MANIFEST.json: one entry per property with a check under harness/checks; the others are not claimed."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(R, 'tools', 'levelnotes.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
have = [i for i in ids if os.path.exists(os.path.join(R, 'harness/checks/%s.py' % i))]
m = dict(version=1, setup_cmd='./check --setup', checks=[
    dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check ' + i, evidence_file='evidence/%s.json' % i,
         technique=NOTE[i][0], level='model_checking', level_note=NOTE[i][1]) for i in have],
    not_applicable=[dict(property=i, reason='check not built yet') for i in ids if i not in have],
    notes='Specification in TLA+ (spec/), checked with TLC; conformance drivers in harness/. No hooks in /repo.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(have), 'claimed')
