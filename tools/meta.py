#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
P = []
TECH = 'deterministic simulation with fault injection'


def prop(id, title, statement, over, text, why, files, mechanism, level, note, state=(), observe=()):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = None
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': anchors}, level, note))


exec(open(os.path.join(HERE, 'tools', 'properties.py'), encoding='utf-8').read())



def main():
    from importlib import import_module
    sys.path.insert(0, HERE)
    spec = import_module('checks.spec')
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    na = [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE]
    checks = []
    for p, level, note in P:
        if p['id'] in {i for i, _ in NOT_APPLICABLE}:
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': '{} run_check.py {} --tier quick'.format(PY, p['id']),
            'thorough_cmd': '{} run_check.py {} --tier thorough'.format(PY, p['id']),
            'evidence_file': 'evidence/{}.json'.format(p['id']),
            'technique': TECHNIQUES[p['id']], 'level': spec.CHECKS[p['id']]['LEVEL'] if level is None else level,
            'level_note': note})
    m = {'version': 1,
         'setup_cmd': 'mkdir -p build && gcc -O2 -shared -fPIC -o build/simio.so sim/simio.c -ldl -lpthread && '
                      + PY + ' -c "import soynlp, numpy, scipy, sklearn"',
         'hooks': {'guard': 'none', 'enable': 'no hook was needed: libc is interposed with LD_PRELOAD, threads and interrupts '
                   'are driven by sys.settrace, callbacks and corpora are passed through the public API', 'source_commits': []},
         'checks': checks, 'not_applicable': na, 'notes': NOTES}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write('\n')


main()
