#!/usr/bin/env python3
"""
Confirms a planted bug in a scratch copy and stores it:  plant.py DEFINITION.py [--checks C01,C02] [--keep]

The definition sets: id, property, needs, breaks, edits = [(file, old, new), ...], demo (python source).
The bug is kept in /verif/seeded/<id> if the patch applies, the stable tests pass with it, and the demonstration passes on
the unchanged tree and fails with the patch.  Then the quick check of the property is run against the scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig')
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds in this demonstration, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
[ -d /opt/venv/mplconfig ] && export MPLCONFIGDIR=/opt/venv/mplconfig
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, **kw.pop('env', {})), **kw)


def main():
    d = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), d)
    checks = [d['property']]
    if '--checks' in sys.argv:
        checks = sys.argv[sys.argv.index('--checks') + 1].split(',')
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(tmp, 'repo')
        sh(['git', 'clone', '-q', '/repo', repo], tmp)
        seed = os.path.join(tmp, 'seed')
        os.mkdir(seed)
        open(os.path.join(seed, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(seed, 'demo.sh'), 0o755)
        open(os.path.join(seed, 'demo.py'), 'w').write(d['demo'].lstrip())
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(os.path.join(seed, 'meta.json'), 'w'), indent=1)
        r = sh(['bash', os.path.join(seed, 'demo.sh')], repo, timeout=300)
        if r.returncode != 0:
            print(d['id'], 'demo FAILS on the unchanged tree\n', r.stdout.decode()[-1500:])
            return 1
        orig = set(l.strip() for l in sh(['git', 'show', 'fd05ebf:' + d['edits'][0][0]], repo).stdout.decode().splitlines())
        for f, old, new in d['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(d['id'], 'pattern occurs %d times in %s: %r' % (s.count(old), f, old))
                return 1
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout.decode()
        removed = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        notorig = [l for l in removed if l and l not in orig]
        if notorig and len(d['edits']) == 1:
            print(d['id'], 'WARNING: removed lines that are not original:', notorig)
        r = sh(['bash', os.path.join(seed, 'demo.sh')], repo, timeout=300)
        if r.returncode == 0:
            print(d['id'], 'demo PASSES with the patch')
            return 1
        demo_out = r.stdout.decode().strip().splitlines()[-1:]
        r = sh([PY, '-m', 'pytest', '-q', '--rootdir=' + repo, '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/j.xml', '.'],
               os.path.join(repo, 'tests'), env={'PYTHONPATH': repo})
        sh(['python3', '/opt/vp/results.py', tmp + '/o.json', 'junit:' + tmp + '/j.xml'], tmp)
        base = json.load(open('/opt/vp/BASELINE.json'))
        base = base.get('passed') or base.get('stable') or base
        missing = sorted(set(base) - set(json.load(open(tmp + '/o.json'))['passed']))
        if missing:
            print(d['id'], 'existing tests FAIL:', missing[:5])
            return 1
        open(os.path.join(seed, 'patch.diff'), 'w').write(diff)
        out = os.path.join(V, 'seeded', d['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(seed, out)
        print(d['id'], 'kept;', demo_out)
        for c in checks:
            ev = os.path.join(V, 'evidence', c + '.json')
            r = sh([os.path.join(V, 'check'), c, 'quick'], V, env={'MC_REPO': repo})
            o = r.stdout.decode()
            print('   %s: %s %s' % (c, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + c in o else 'MISSED rc=%d' % r.returncode,
                                    [l for l in o.splitlines() if l.startswith('  ')][:1]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
