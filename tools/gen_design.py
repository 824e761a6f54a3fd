#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
from design_notes import NOTES, SEC
out = [open(os.path.join(ROOT, 'tools/design_head.md')).read()]
known = [l.strip() for l in open(os.path.join(ROOT, 'known-findings.txt')) if l.startswith('finding:')]
seeds = {}
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
    m = json.load(open(f)); m['id'] = f.split('/')[-2]
    seeds.setdefault(m['property'], []).append(m)
try:
    caught = json.load(open(os.path.join(ROOT, 'tools/caught.json')))
except OSError:
    caught = {}
out.append('\n## Properties\n')
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l); id = p['id']
    out.append(f'\n### {id} {p["title"]}\n')
    mod = importlib.import_module(f'vp.checks.{id.lower()}')
    out.append(f'{p["statement"]}\n')
    out.append(f'- **Decided by** ({mod.LEVEL}): {mod.TECHNIQUE}.')
    out.append(f'- **Workload:** {mod.RULE}')
    out.append(f'- **Bounds:** {mod.NOTE}')
    out.append(f'- **Beyond the tests:** {p["why_tests_cant"]}')
    if id in NOTES:
        out.append(f'- **Notes:** {NOTES[id]}')
    out.append(f'- **Cost:** about {SEC.get(id, "?")} s quick on 8 cores.')
    for k in known:
        if f'property={id} ' in k:
            out.append(f'- **Known finding:** {k.split(" ", 2)[2]}')
out.append('\n## Planted bugs\n\nEach is in `seeded/<id>`, with the check that was confirmed to report it (others that see the same effect may too):\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
for id in sorted(seeds):
    for m in seeds[id]:
        out.append(f'| {m["id"]} | {id} | {m["needs"]} | {caught.get(m["id"], "?")} |')
out.append('\n## Not applicable\n\nNone: every property is claimed.\n')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
