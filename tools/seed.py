#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and store it in /verif/seeded.

usage: seed.py SPEC.py [...]     (SPEC defines id, property, edits, needs,
                                  what_it_breaks, demo)
Never used by the checks.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

DEMO_SH = '''#!/bin/bash
export HOME=/root PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
export OMP_NUM_THREADS=1 MPLBACKEND=Agg
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export PYTHONPATH=$PWD
DIR=$(cd "$(dirname "$0")" && pwd)
WORK=$(mktemp -d) || exit 2
trap 'rm -rf "$WORK"' EXIT
cd "$WORK" || exit 2
%s
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
        **kw)

def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    work = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = work + '/repo'
        sh('cp -a /repo %s' % repo)
        out = '/verif/seeded/' + ns['id']
        d = work + '/' + ns['id']
        os.makedirs(d)
        with open(d + '/demo.py', 'w') as f:
            f.write(ns['demo'].lstrip('\n'))
        run = ns.get('run', '/opt/venv/bin/python "$DIR/demo.py"')
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO_SH % run)
        os.chmod(d + '/demo.sh', 0o755)
        r = sh('bash %s/demo.sh' % d, cwd=repo)
        if r.returncode != 0:
            print(ns['id'], 'DEMO FAILS ON CLEAN TREE\n', r.stdout[-2000:],
                r.stderr[-3000:])
            return False
        for path, old, new in ns['edits']:
            s = open(repo + '/' + path).read()
            if s.count(old) != 1:
                print(ns['id'], 'edit matches %d times: %r' % (s.count(old),
                    old))
                return False
            open(repo + '/' + path, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=repo).stdout
        with open(d + '/patch.diff', 'w') as f:
            f.write(diff)
        json.dump(dict(property=ns['property'], needs=ns['needs'],
            what_it_breaks=ns['what_it_breaks']),
            open(d + '/meta.json', 'w'), indent=1)
        # lines changed must be original
        removed = [l[1:] for l in diff.split('\n') if l.startswith('-')
            and not l.startswith('---')]
        base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
        orig = sh('cd /repo && git ls-tree -r --name-only %s elphmod | grep "[.]py$" | xargs -I{} '
            'git show %s:{} 2>/dev/null' % (base, base)).stdout
        for l in removed:
            if l not in orig:
                print(ns['id'], 'WARNING: not an original line:', l)
        r = sh('bash %s/demo.sh' % d, cwd=repo)
        if r.returncode == 0:
            print(ns['id'], 'DEMO PASSES WITH BUG', r.stdout[-1000:])
            return False
        print(ns['id'], 'demo fails with bug:', (r.stderr.strip() or r.stdout
            .strip()).split('\n')[-1][:200])
        for s in 'build', 'test':
            t = open('/opt/vp/%s.sh' % s).read()
            t = t.replace('/repo', repo).replace('PYTHONPATH=/opt/vp/plugin',
                'PYTHONPATH=/opt/vp/plugin:' + repo).replace('PYTHONPATH= ',
                'PYTHONPATH=%s ' % repo)
            open(work + '/%s.sh' % s, 'w').write(t)
        r = sh('bash %s/build.sh' % work)
        if r.returncode:
            print(ns['id'], 'BUILD FAILS', r.stdout, r.stderr[-2000:])
            return False
        sh('bash %s/test.sh %s/out.json' % (work, work))
        got = json.load(open(work + '/out.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = sorted(set(stable) - set(got['passed']))
        if bad:
            print(ns['id'], 'TESTS FAIL', bad)
            return False
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        print(ns['id'], 'stored')
        return True
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(not all([main(s) for s in sys.argv[1:]]))
