#!/usr/bin/env python3
"""Writes DESIGN.md from design.head.md, levels.json, properties.jsonl, the bounds in the checks, numbers.json and design.tail.md."""
import json, os, re, sys, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(here, 'tools')
lv = json.load(open(T + '/levels.json'))
src = ''.join(open(f).read() for f in sorted(glob.glob(here + '/zzv/mc/check_*.go')))
bounds = {}
for m in re.finditer(r'register\(&Check\{\s*ID:\s+"([A-Z]\d\d)"(.*?)\n\t\}\)', src, re.S):
    b = re.search(r'\n\t\tBounds:\s*"(.*)",', m[2])
    if b: bounds[m[1]] = b[1]
num = {}
nf = T + '/numbers.json'
if os.path.exists(nf): num = json.load(open(nf))
for i in (sys.argv[1:] or []):
    e = json.load(open(f'{here}/evidence/{i}.json'))
    if e['tier'] != 'quick' or e['coverage'].get('deadline_hit'): print('skipped', i); continue
    c = e['coverage']
    num[i] = [c['traces_validated_against_impl'], c['states'], c['transitions'], round(e['wall_s']), c['exhaustive']]
json.dump(num, open(nf, 'w'), indent=0, sort_keys=True)
out = [open(T + '/design.head.md').read()]
for l in open(here + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; n = lv[i]
    out.append(f"### {i} – {p['title']}\n\n*Method:* {n['technique']}.  \n*Oracle:* {n['how']}  \n*Bounds:* {bounds[i]}.  ")
    if i in num:
        a = num[i]
        out.append(f"*Cost:* {a[0]} executions, {a[1]} distinct states, {a[2]} transitions, {a[3]} s{'' if a[4] else ' (not exhausted)'}.  ")
    out.append(f"*Beyond tests:* {n['why']}\n")
out.append(open(T + '/design.tail.md').read())
import subprocess
out.append(subprocess.check_output([sys.executable, T + '/seedtable.py'], text=True))
open(here + '/DESIGN.md', 'w').write('\n'.join(out))
