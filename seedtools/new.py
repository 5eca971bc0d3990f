#!/usr/bin/env python3
"""new.py: helper to make a planted bug: mk(id, prop, needs, breaks, edits, demo or gotest)"""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def mk(id, prop, needs, breaks, edits, demo=None, gotest=None):
    w = tempfile.mkdtemp(prefix='seed.')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in edits:
        p = w + '/r/' + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    subprocess.check_call(['gofmt', '-e', '.'], cwd=w + '/r', stdout=subprocess.DEVNULL)
    d = subprocess.check_output(['git', 'diff'], cwd=w + '/r', text=True)
    shutil.rmtree(w)
    t = ROOT + '/' + id
    os.makedirs(t, exist_ok=True)
    open(t + '/patch.diff', 'w').write(d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(t + '/meta.json', 'w'), indent=1)
    if demo:
        open(t + '/demo.py', 'w').write(demo)
    if gotest:
        open(t + '/demo_test.go.txt', 'w').write(gotest)
    subprocess.check_call([os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mk.sh'), id])
