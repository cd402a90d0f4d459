"""Plant a bug: python3 tools/plant.py FILE.py  (FILE defines ID, PROP, EDITS [(file, old, new)], DEMO, NEEDS, WHAT).

Writes seeded/<ID>/ and confirms in a scratch copy: builds, passes the tests, demo passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')


def sh(cmd, cwd, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def one(path):
    d = {}
    exec(open(path).read(), d)
    out = os.path.join(HERE, 'seeded', d['ID'])
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
        sh(['git', 'checkout', '-q', '--', '.'], repo)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(d['DEMO'].lstrip('\n'))
        shutil.copy(os.path.join(HERE, 'tools', 'tzrun.py'), out)
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['WHAT']}, f, indent=1)
            f.write('\n')
        r0, o0 = sh(['bash', os.path.join(out, 'demo.sh')], repo)
        for fn, old, new in d['EDITS']:
            p = os.path.join(repo, 'src/acetimetools', fn)
            if not os.path.exists(p):
                p = os.path.join(repo, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: %d matches of %r' % (d['ID'], s.count(old), old))
                return False
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh(['git', 'diff'], repo)
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        r1, o1 = sh(['bash', os.path.join(out, 'demo.sh')], repo)
        env = dict(ENV, PYTHONPATH=os.path.join(repo, 'src'))
        rt, ot = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], repo, env)
        print('%-40s %s demo clean=%s bug=%s tests=%s' % (d['ID'], d['PROP'], r0, r1, rt))
        if r0 or not r1 or rt:
            print(o0[-1500:], '\n----\n', o1[-800:], '\n----\n', ot[-800:] if rt else '')
            return False
        if '-v' in sys.argv:
            print(o1[-600:])
        return True
    finally:
        shutil.rmtree(tmp)


ok = [one(p) for p in sys.argv[1:] if p != '-v']
sys.exit(0 if all(ok) else 1)
