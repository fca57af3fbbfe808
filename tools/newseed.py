#!/usr/bin/env python3
"""newseed.py <spec file>: lays seeded/<id>/ from a spec: JSON header line, then OLD/NEW pairs, then main.rs.
Format: {json: id, property, needs, what_it_breaks} newline, then blocks
@@ file
OLD
====
NEW
and last: @@main
<main.rs>"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    for part in re.split(r'^#### *$', open(spec).read(), flags=re.M):
        part = part.strip('\n')
        if not part:
            continue
        head, rest = part.split('\n', 1)
        j = json.loads(head)
        d = os.path.join(V, 'seeded', j['id'])
        os.makedirs(d, exist_ok=True)
        W = '/tmp/seedwork'
        if os.path.exists(W):
            shutil.rmtree(W)
        subprocess.check_call(['git', 'clone', '-q', '/repo', W])
        main = None
        for bl in re.split(r'^@@', rest, flags=re.M):
            if not bl.strip():
                continue
            h, body = bl.split('\n', 1)
            h = h.strip()
            if h == 'main':
                main = body
                continue
            old, new = body.split('\n====\n') if '\n====\n' in body else (body.split('\n====')[0], '')
            old, new = old.strip('\n'), new.strip('\n')
            p = os.path.join(W, h)
            s = open(p).read()
            assert s.count(old) == 1, (j['id'], h, s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', W, 'diff'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'main.rs'), 'w').write(main)
        json.dump({k: j[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        subprocess.check_call([os.path.join(V, 'tools', 'mkseed.sh'), j['id']])
        # try it
        r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        env = dict(os.environ, SA_REPO=W)
        r2 = subprocess.run([os.path.join(V, 'check.sh'), j['property'], 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        good = r0.returncode == 0 and r1.returncode not in (0, 3)
        print(j['id'], j['property'], 'demo unchanged', r0.returncode, 'patched', r1.returncode, 'ok' if good else 'BAD DEMO', '| check', r2.returncode, 'CAUGHT' if r2.returncode == 1 else 'missed')
        if not good:
            print(r0.stdout.decode()[-1500:], '---', r1.stdout.decode()[-1500:])
        if r2.returncode != 1:
            print(r2.stdout.decode()[:1500])
        shutil.rmtree(W)
