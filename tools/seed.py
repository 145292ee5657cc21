"""Development aid: validate planted bugs and store them under /verif/seeded.

usage: seed.py SPEC.py [id ...]      SPEC defines BUGS = [dict(id, property, file, old, new, needs, what, demo)]
"""
import json, os, shutil, subprocess, sys, runpy, tempfile
OUT = '/verif/seeded'; BASE = '0c0649b'


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']; only = sys.argv[2:]
    work = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    sh(f'cp -a /repo {work}/repo'); R = work + '/repo'
    sh(f"sed 's#/repo#{R}#g' /opt/vp/test.sh > {work}/test.sh")
    for b in bugs:
        if only and b['id'] not in only: continue
        sh(f'git -C {R} checkout -q -- .')
        edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
        bad = None
        for f, old, new in edits:
            p = f'{R}/{f}'; s = open(p).read()
            if s.count(old) != 1: bad = f'text occurs {s.count(old)} times in {f}: {old[:50]!r}'; break
            open(p, 'w').write(s.replace(old, new))
        if bad: print(b['id'], 'BAD', bad); continue
        diff = sh(f'git -C {R} diff').stdout
        rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
        orig = ''.join(sh(f'git -C {R} show {BASE}:{f}').stdout for f, _, _ in edits).splitlines()
        if rem and not any(l in orig for l in rem): print(b['id'], 'BAD: touches only lines that are not original'); continue
        t = sh(f'bash {work}/test.sh {work}/o.json')
        if '21 passed, 0 failed' not in t.stdout: print(b['id'], 'BAD tests:', t.stdout[-200:]); continue
        d = f'{OUT}/{b["id"]}'; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
        r1 = sh(f'bash {d}/demo.sh', cwd=R)
        sh(f'git -C {R} checkout -q -- .')
        r0 = sh(f'bash {d}/demo.sh', cwd=R)
        if r1.returncode == 0 or r0.returncode != 0:
            print(b['id'], 'BAD demo: patched', r1.returncode, 'clean', r0.returncode, r0.stderr[-300:]); shutil.rmtree(d); continue
        print(b['id'], 'ok', r1.stderr.strip().splitlines()[-1:] )
    shutil.rmtree(work)


main()
