#!/usr/bin/env python3
"""Makes planted bugs of specifications and tries them:
tools/seed.py SPEC.py [ID ...]   (specifications: a list SEEDS of dicts id, property, edits [(file, old, new)], demo, needs, breaks)
tools/seed.py --check ID ...     runs the checks (of the property, or of --all) against kept ones
In a scratch copy of /repo; a seed is kept only if the demonstration tells and the tests pass."""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the property holds in what is shown here
d=$(cd "$(dirname "$0")" && pwd)
w=$PWD
. /opt/vp/jyenv.sh
cd "$w"
export JYTHONPATH=/opt/jylib:$w
exec timeout 250 $JYTHON "$d/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def original(path, lines):
    """are these lines of the first commit?"""
    out = sh(['git', '-C', '/repo', 'blame', '-s', '--root', '-l', 'HEAD', '--', path]).stdout.decode('utf-8', 'replace').splitlines()
    base = sh('git -C /repo log --format=%H | tail -1').stdout.decode().strip()
    return [n for n in lines if not out[n - 1].lstrip('^').startswith(base[:30])]


def run_check(pid, copy, seed='1'):
    r = sh([sys.executable, os.path.join(HERE, 'rv', 'run.py'), pid], HERE, {'RV_REPO': copy, 'VERIF_SEED': seed, 'VERIF_TIER': 'quick'})
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def record(sid, pid, rc):
    path = os.path.join(HERE, 'tools', 'seed_results.json')
    with open(path, 'a+') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        t = f.read()
        res = json.loads(t) if t else {}
        res.setdefault(sid, {})[pid] = rc
        f.seek(0)
        f.truncate()
        json.dump(res, f, indent=1, sort_keys=True)
        f.write('\n')


def fresh():
    d = tempfile.mkdtemp(prefix='rp-seed-')
    c = os.path.join(d, 'repo')
    sh(['cp', '-a', '/repo', c])
    return d, c


def make(s, test):
    d, c = fresh()
    try:
        for path, old, new in s['edits']:
            f = os.path.join(c, path)
            t = open(f, newline='').read()
            if t.count(old) != 1:
                return 'BAD: %d times %r' % (t.count(old), old[:60])
            open(f, 'w', newline='').write(t.replace(old, new))
        diff = sh('git diff', c).stdout.decode()
        bad = []
        path, at = None, 0
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                path = line[6:]
            elif line.startswith('@@'):
                at = int(re.match(r'@@ -(\d+)', line).group(1)) - 1
            elif line.startswith('-') and not line.startswith('---'):
                at += 1
                if original(path, [at]):
                    bad.append('%s:%d %s' % (path, at, line))
            elif line.startswith(' '):
                at += 1
        target = os.path.join(d, 'seed')
        os.mkdir(target)
        for name, text in [('patch.diff', diff), ('demo.sh', DEMO), ('demo.py', s['demo'].lstrip('\n'))]:
            open(os.path.join(target, name), 'w').write(text)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(target, 'meta.json'), 'w'), indent=1)
        demo = ['bash', os.path.join(target, 'demo.sh')]
        a = sh(demo, '/repo', timeout=300)
        b = sh(demo, c, timeout=300)
        if a.returncode or not b.returncode:
            return 'BAD demo: %d unchanged, %d changed\n%s\n%s' % (a.returncode, b.returncode, a.stdout.decode()[-700:], b.stdout.decode()[-700:])
        if bad:
            return 'NOT ORIGINAL: ' + '; '.join(bad)
        if test:
            # /opt/vp/test.sh tests /repo: show the copy there, in a mount namespace of its own
            r = sh(['unshare', '-Urm', 'sh', '-c', 'mount --bind "$0" /repo && exec bash /opt/vp/test.sh "$1"', c, os.path.join(d, 'o.json')]).stdout.decode('utf-8', 'replace')
            if '26 passed, 0 failed' not in r:
                return 'TESTS: ' + r[-400:]
        rc, out = run_check(s['property'], c)
        record(s['id'], s['property'], rc)
        keep = os.path.join(SEEDED, s['id'])
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(target, keep)
        tail = out.strip().splitlines()
        return ('caught' if rc == 1 else 'MISSED (%d)' % rc) + ': ' + ' | '.join(x[:230] for x in tail[-2:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(sid, pids, seed):
    d, c = fresh()
    try:
        f = os.path.join(SEEDED, sid)
        r = sh(['git', 'apply', os.path.join(f, 'patch.diff')], c)
        if r.returncode:
            return 'does not apply'
        own = json.load(open(os.path.join(f, 'meta.json')))['property']
        res = []
        for p in pids or [own]:
            rc, out = run_check(p, c, seed)
            record(sid, p, rc)
            if rc or p == own:
                res.append('%s %s' % (p, {1: 'caught', 0: 'MISSED'}.get(rc, 'rc %d %s' % (rc, out[-200:]))))
        return ', '.join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--check':
        pids = []
        if '--all' in a:
            a.remove('--all')
            pids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
        seed = os.environ.get('VERIF_SEED', '1')
        for sid in a[1:] or sorted(os.listdir(SEEDED)):
            if os.path.isdir(os.path.join(SEEDED, sid)):
                print(sid, check(sid, pids, seed), flush=True)
    else:
        spec = {}
        exec(open(a[0]).read(), spec)
        for s in spec['SEEDS']:
            if not a[1:] or s['id'] in a[1:]:
                print(s['id'], make(s, True), flush=True)
