#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json
claimed = json.load(open('/verif/tools/claimed.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = json.load(open('/verif/tools/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        c = claimed[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}', technique=c[0], level='other', level_note=c[1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Not claimed yet: the analysis of this property is not finished.')))
json.dump(dict(version=1, setup_cmd='mkdir -p bin && . /opt/vp/env.sh && cd sa && go build -o ../bin/nimcheck .', checks=checks, not_applicable=na,
  notes='All checks are static: an abstract interpreter over SSA (sa/). See DESIGN.md.'), open('/verif/MANIFEST.json','w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
