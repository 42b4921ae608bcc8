#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl.md, properties.jsonl, MANIFEST.json, known_findings.json and seeded/."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(p):
    with open(os.path.join(HERE, p), encoding='utf-8') as f:
        return f.read()


HOW = {}      # id -> (what a run does, oracle, faults and schedules, bounds and cost, why tests cannot)
exec(read('tools/how.py'))
props = [json.loads(line) for line in read('properties.jsonl').split('\n') if line]
manifest = json.loads(read('MANIFEST.json'))
na = {e['property']: e['reason'] for e in manifest['not_applicable']}
import sys
sys.path.insert(0, HERE)
from checks.spec import CHECKS

parts = []
for p in props:
    i = p['id']
    if i in na:
        continue
    run, oracle, faults, bounds = HOW[i]
    parts.append('### {} {}\n\n{}\n\n* *A run:* {}\n* *Oracle:* {}\n* *Faults, schedules:* {}\n* *Bounds and cost:* {} Quick: {} runs; thorough: {} runs.\n'
                 '* *Assumed:* {}.\n* *Beyond tests:* {}'.format(
                     i, p['title'], p['statement'], run, oracle, faults, bounds, CHECKS[i]['RUNS']['quick'], CHECKS[i]['RUNS']['thorough'],
                     '; '.join(CHECKS[i]['ASSUMPTIONS']), p['why_tests_cant']))
t = read('tools/DESIGN.tmpl.md').replace('PROPERTY_TABLE', '\n\n'.join(parts))
t = t.replace('NA_TABLE', '\n'.join('* **{} {}**: {}.'.format(p['id'], p['title'], na[p['id']]) for p in props if p['id'] in na))
known = json.loads(read('known_findings.json'))
rows = ['| property | commit | what failed |', '| --- | --- | --- |']
for line in known['fixed']:
    _, prop, commit, what = line.split(' ', 3)
    rows.append('| {} | {} | {} |'.format(prop.split('=')[1], commit, what))
t = t.replace('FIXED_TABLE', '\n'.join(rows))
caught = json.loads(read('tools/caught.json'))
rows = ['| change | property | needs | breaks | caught by |', '| --- | --- | --- | --- | --- |']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(d))
    with open(d, encoding='utf-8') as f:
        m = json.load(f)
    rows.append('| {} | {} | {} | {} | {} |'.format(name, m['property'], m['needs'], m['what_it_breaks'], caught.get(name, '')))
t = t.replace('SEEDED_TABLE', '\n'.join(rows))
with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
    f.write(t)
