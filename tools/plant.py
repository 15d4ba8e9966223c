#!/usr/bin/env python3
"""Development tool: turn a list of planted bugs into seeded/<id>/ after
confirming each one in a scratch copy of /repo, and run the checks on them.

  plant.py make SPEC.py [ID...]     write and confirm (SPEC defines PLANTS)
  plant.py check [ID...]            run the check of every planted bug
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" TZ=UTC
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                          capture_output=True, text=True)


def scratch():
    d = tempfile.mkdtemp(prefix='plant')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d


def tests(repo):
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x',
            '--timeout=300'], repo, dict(ENV, PYTHONPATH=repo))
    return r.returncode == 0, r.stdout[-300:]


def make(p):
    d = scratch()
    repo = d + '/repo'
    try:
        for f, old, new in p['edits']:
            f = os.path.join(repo, 'seismostats', f)
            s = open(f).read()
            if s.count(old) != 1:
                return p['id'], f'edit matches {s.count(old)} times: {old!r}'
            open(f, 'w').write(s.replace(old, new))
        out = os.path.join(SEEDED, p['id'])
        os.makedirs(out, exist_ok=True)
        diff = sh(['git', 'diff'], repo).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(p['demo'].strip() + '\n')
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=p['property'], needs=p['needs'],
                       what_it_breaks=p['breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
        bad = sh(['bash', out + '/demo.sh'], repo)
        ok, text = tests(repo)
        sh(['git', 'checkout', '-q', '--', '.'], repo)
        good = sh(['bash', out + '/demo.sh'], repo)
        msg = []
        if good.returncode:
            msg.append('demo fails on the clean tree: ' + good.stderr[-300:])
        if not bad.returncode:
            msg.append('demo passes with the patch')
        elif 'Assertion' not in bad.stderr:
            msg.append('NOTE demo: ' + bad.stderr[-200:])
        if not ok:
            msg.append('tests fail: ' + text)
        if not original(diff):
            msg.append('changes lines of fix commits only')
        if msg and not all(t.startswith('NOTE') for t in msg):
            shutil.rmtree(out)
        return p['id'], '; '.join(msg) or 'ok'
    finally:
        shutil.rmtree(d)


def original(diff):
    """does the patch change a line of the original repository?"""
    first = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'],
               '/repo').stdout.split()[-1]
    base = sh(['git', 'log', '--format=%H %s'], '/repo').stdout.splitlines()
    base = next((ln.split()[0] for ln in base
                 if not ln.split(' ', 1)[1].startswith('fix:')), first)
    f = None
    for ln in diff.splitlines():
        if ln.startswith('--- a/'):
            f = ln[6:]
            old = sh(['git', 'show', f'{base}:{f}'], '/repo').stdout
            old = set(old.splitlines())
        elif ln.startswith('-') and f and ln[1:] in old and ln[1:].strip():
            return True
        elif ln.startswith('+') and not ln.startswith('+++'):
            pass
    return False


def check(i):
    d = scratch()
    t = time.time()
    try:
        shutil.copytree(VERIF, d + '/verif', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded',
                                                      'replays', 'evidence'))
        src = os.path.join(SEEDED, i)
        prop = json.load(open(src + '/meta.json'))['property']
        r = sh(['git', 'apply', src + '/patch.diff'], d + '/repo')
        if r.returncode:
            return i, prop, 'patch does not apply', ''
        env = dict(ENV, VERIF_REPO=d + '/repo', VERIF_SEED='1',
                   VERIF_TIER='quick')
        r = sh(['python3', 'run.py', prop], d + '/verif', env)
        mech = re.findall(r'^   \[(.*?)\] ', r.stdout, re.M)
        res = {0: 'MISSED', 1: 'caught'}.get(r.returncode,
                                             f'exit {r.returncode}')
        return i, prop, res, ' | '.join(mech[:3])[:100] + \
            f'  {time.time() - t:.0f}s' + (
                r.stderr[-200:] if r.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == 'make':
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        ps = [p for p in ns['PLANTS']
              if not sys.argv[3:] or p['id'] in sys.argv[3:]]
        with cf.ThreadPoolExecutor(4) as ex:
            for i, msg in ex.map(make, ps):
                print(i, msg, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(3) as ex:
            for r in ex.map(check, ids):
                print(*r, flush=True)


if __name__ == '__main__':
    main()
