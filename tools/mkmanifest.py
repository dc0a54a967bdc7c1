#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/levels.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
notes = json.load(open(os.path.join(here, 'tools/levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'lib', i.lower() + '.py')):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd=f'bin/check {i} quick', thorough_cmd=f'bin/check {i} thorough',
                           technique=n.get('technique', 'TLA+ specification checked with TLC; TLC-generated behaviours replayed into the code'),
                           level='model_checking', level_note=n.get('note', 'bounded: exhaustive on the small constants of the specification, seeded behaviours replayed into a fresh build of the code')))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get('na', 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bash bin/setup', hooks=dict(guard='none', enable='no hooks: the checks use the public interfaces only', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='All checks: TLA+ (TLC). bin/check <id> <tier> rebuilds /repo in a scratch copy.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
