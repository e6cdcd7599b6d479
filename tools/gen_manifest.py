import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i.lower())):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + i,
                           technique=n.get('technique', 'TLA+ specification checked with TLC; recorded executions of the code validated against it'),
                           level=n.get('level', 'model_checking'), level_note=n.get('note', 'see DESIGN.md')))
    else: na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh',
               hooks=dict(guard='none', enable='no hooks: the checks use the public interface, a tracing communicator passed in as an argument, and the files the code writes', source_commits=[]),
               checks=checks, not_applicable=na, notes='TLA+ with TLC; see DESIGN.md'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
