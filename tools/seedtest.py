"""Validate planted bugs in a scratch copy: tests, demo, and the check.

python tools/seedtest.py [--no-tests] [--no-check] ID...
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(repo, out):
    env = dict(os.environ, PYTHONPATH=repo)
    sh([PY, '-m', 'pytest', '-c', 'pytest.ini', '-q', '-p', 'no:cacheprovider',
        '-n', '6', '--dist', 'loadfile', '--timeout=300', '--tb=short',
        '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
        f'--junitxml={out}'], cwd=repo + '/tests', env=env)
    p = out + '.json'
    sh(['/usr/bin/python3', '/opt/vp/results.py', p, f'junit:{out}'])
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(base - set(json.load(open(p)).get('passed', [])))


def demo(repo, d):
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    t = tempfile.mkdtemp(prefix='demo')
    shutil.copytree(d, t + '/d')
    for f in os.listdir(t + '/d'):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.remove(t + '/d/' + f)
    try:
        r = sh(['bash', t + '/d/demo.sh'], cwd=repo, env=env, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-700:]
    finally:
        shutil.rmtree(t)


def main():
    args = sys.argv[1:]
    do_tests = '--no-tests' not in args
    do_check = '--no-check' not in args
    ids = [a for a in args if not a.startswith('--')] or sorted(
        os.listdir(V + '/seeded'))
    for i in ids:
        d = f'{V}/seeded/{i}'
        meta = json.load(open(d + '/meta.json'))
        t = tempfile.mkdtemp(prefix='scr')
        repo = t + '/repo'
        try:
            sh(['cp', '-a', '/repo', repo])
            print(f'== {i} ({meta["property"]})', flush=True)
            rc, out = demo(repo, d)
            print('  demo unchanged', rc, '' if rc == 0 else out, flush=True)
            r = sh(['git', 'apply', d + '/patch.diff'], cwd=repo)
            if r.returncode:
                print('  PATCH FAILS', r.stderr)
                continue
            rc, out = demo(repo, d)
            print('  demo patched  ', rc, out[-300:].replace('\n', '\n      '),
                  flush=True)
            if do_tests:
                m = tests(repo, t + '/j.xml')
                print('  tests missing ', len(m), m[:4], flush=True)
            if do_check:
                env = dict(os.environ, VSIM_REPO=repo, VERIF_SEED='1')
                r = sh([PY, '-m', 'vsim.run', meta['property'], '--tier',
                        'quick', '--no-evidence'], cwd=V, env=env)
                print('  check rc', r.returncode,
                      r.stdout[-500:].replace('\n', '\n      '), flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)


main()
