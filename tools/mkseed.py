"""Helper: mkseed.py ID PROPERTY FILE <<< JSON {old,new,needs,breaks,demo} - writes seeded/ID."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(sid, prop, edits, needs, breaks, demo):
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mkseed'
    subprocess.run(['rm', '-rf', w])
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PWD/segpy-ext/segpy_numpy"\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    subprocess.run(['rm', '-rf', w])
