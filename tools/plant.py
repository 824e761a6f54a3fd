#!/usr/bin/env python3
"""Confirms and keeps a planted bug: plant.py SPEC.py

SPEC.py defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python source) and optionally EXTRA [files to lay beside it].
The demo runs with cwd at the repository; it must exit 0 on the unchanged tree and nonzero with the change.
Works in a scratch copy; writes /verif/seeded/ID only once everything is confirmed.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$D/demo.py"\n'


def run(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'TZ': 'UTC'})
    return p.returncode, p.stdout + p.stderr


def stable(repo):
    out = os.path.join(os.path.dirname(repo), 'junit.xml')
    run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--tb=short', '--continue-on-collection-errors',
         '--hypothesis-profile=ci', '--ignore=arroba/tests/test_datastore_storage.py', '--deselect=arroba/tests/test_testdata.py::test_fn',
         '-o', 'junit_family=xunit2', f'--junitxml={out}', 'arroba/tests'] + sorted(
             os.path.join('arroba/tests/hypothesis', f) for f in os.listdir(os.path.join(repo, 'arroba/tests/hypothesis')) if f.endswith('_test.py')), repo)
    ok = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(out).getroot().iter('testcase') if not any(x.tag in ('failure', 'error', 'skipped') for x in c)}
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]


def main(spec):
    s = runpy.run_path(spec)
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        side = os.path.join(tmp, 'side')
        os.mkdir(side)
        open(os.path.join(side, 'demo.py'), 'w').write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))\n" + s['DEMO'])
        open(os.path.join(side, 'demo.sh'), 'w').write(DEMO_SH)
        for f in s.get('EXTRA', ()):
            shutil.copy(os.path.join(ROOT, f), side)
        rc, out = run(['bash', os.path.join(side, 'demo.sh')], repo)
        if rc:
            return f'demo fails on the unchanged tree: {out[-1500:]}'
        for file, old, new in s['EDITS']:
            p = os.path.join(repo, file)
            t = open(p).read()
            if t.count(old) != 1:
                return f'{file}: {t.count(old)} matches of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        rc, out = run(['bash', os.path.join(side, 'demo.sh')], repo)
        print('demo with the change:', rc, '...' + out.strip()[-300:])
        if rc == 0:
            return 'demo passes with the change'
        if failed := stable(repo):
            return f'stable tests fail: {failed[:5]}'
        diff = run(['git', 'diff'], repo)[1]
        dest = os.path.join(ROOT, 'seeded', s['ID'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(side, dest, ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(dest, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(dest, 'meta.json'), 'w'), indent=1)
        if '--check' in sys.argv:
            env = {**os.environ, 'VP_REPO': repo}
            p = subprocess.run(['/opt/venv/bin/python', '-m', 'vp.runner', s['PROPERTY']], cwd=ROOT, env=env, capture_output=True, text=True)
            print('CHECK', s['ID'], s['PROPERTY'], 'exit', p.returncode, [l[:300] for l in p.stdout.splitlines() if 'VIOLATION' in l][:2], p.stdout[-300:] if p.returncode != 1 else '')
        return None
    finally:
        shutil.rmtree(tmp)


err = main(sys.argv[1])
print(sys.argv[1], err or 'PLANTED')
sys.exit(bool(err))
