#!/usr/bin/env python3
"""mkplant.py <id> <property> <file> — reads a JSON-free spec from stdin:
sections separated by lines '=== old', '=== new' (repeatable), '=== demo', '=== needs', '=== breaks', '=== file <path>'"""
import json, os, subprocess, sys, shutil
id_, prop = sys.argv[1:3]
sec, cur, secs = None, [], []
for line in sys.stdin.read().split('\n'):
    if line.startswith('=== '):
        if sec: secs.append((sec, '\n'.join(cur)))
        sec, cur = line[4:], []
    else:
        cur.append(line)
secs.append((sec, '\n'.join(cur)))
w = '/tmp/mkplant'
shutil.rmtree(w, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', w], check=True)
f = None
old = None
meta = {'property': prop}
demo = None
for s, text in secs:
    if s.startswith('file '): f = os.path.join(w, s[5:].strip())
    elif s == 'old': old = text
    elif s == 'new':
        src = open(f, encoding='utf-8').read()
        assert src.count(old) == 1, (f, src.count(old), old)
        open(f, 'w', encoding='utf-8').write(src.replace(old, text))
    elif s == 'demo': demo = text
    elif s == 'needs': meta['needs'] = ' '.join(text.split())
    elif s == 'breaks': meta['what_it_breaks'] = ' '.join(text.split())
diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
d = '/verif/seeded/' + id_
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w', encoding='utf-8').write(diff)
open(d + '/demo.py', 'w', encoding='utf-8').write(demo.lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
json.dump(meta, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
shutil.rmtree(w)
# does it change lines of the original repository?
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
path, n = None, 0
for line in diff.split('\n'):
    if line.startswith('--- a/'): path = line[6:]; orig = subprocess.run(['git', '-C', '/repo', 'show', base + ':' + path], capture_output=True, text=True).stdout.split('\n')
    elif line.startswith('-') and not line.startswith('---'):
        ok = line[1:] in orig
        n += ok
        print('   original' if ok else '   MINE', line)
print(id_, 'changed original lines:', n)
