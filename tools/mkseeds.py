#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ (patch.diff, demo.sh, main.rs, h.rs, meta.json) from the list in seeds_list.py, against /repo's HEAD."""
import sys, os, json, subprocess, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seeds_list import SEEDS
only = sys.argv[1:]
root = os.path.join(os.path.dirname(here), 'seeded')
tmp = tempfile.mkdtemp(prefix='mkseeds.')
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
w = os.path.join(tmp, 'w')
subprocess.check_call(['git', 'clone', '-q', '/repo', w])
bad = 0
for s in SEEDS:
    if only and s['id'] not in only: continue
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) != 1:
            print('EDIT', s['id'], f, 'matches', t.count(old), repr(old[:80])); ok = False; bad = 1; continue
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    d = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    o = os.path.join(root, s['id'])
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, 'patch.diff'), 'w').write(d)
    shutil.copy(os.path.join(here, 'seedlib/demo.sh'), os.path.join(o, 'demo.sh'))
    shutil.copy(os.path.join(here, 'seedlib/h.rs'), os.path.join(o, 'h.rs'))
    open(os.path.join(o, 'main.rs'), 'w').write('mod h;\n#[allow(unused_imports)]\nuse h::*;\n' + s['demo'].strip() + '\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
shutil.rmtree(tmp)
sys.exit(bad)
