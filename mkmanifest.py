#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
from checks import CHECKS, LEVEL, NOTE, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = dict(version=1,
  setup_cmd="bash -c 'if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi; cd harness && cargo build --release --offline --target-dir ../target'",
  checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
    technique='TLA+ specification checked with TLC; TLC-generated cases replayed into the code and recorded behaviour of the code checked against the specification by TLC',
    level=LEVEL(p), level_note=NOTE(p)) for p in ids if p in CHECKS],
  not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, 'not built yet')) for p in ids if p not in CHECKS])
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
