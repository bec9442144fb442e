#!/usr/bin/env python3
"""seed.py ID PROPERTY: makes /verif/seeded/ID from a spec file, confirms it in /repo and runs checks.
spec (python literal dict): prop, edits [(file, old, new)], demo (c++ source), needs, breaks"""
import ast
import json
import os
import subprocess
import sys

REPO = '/repo'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.cpp against the library sources of the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -O1 -g -std=c++14 -fsanitize=undefined -fno-sanitize-recover=undefined -D__forceinline=inline -include cstring \\
    -w -I include "$d/demo.cpp" src/*.cpp -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    sid, spec = sys.argv[1], ast.literal_eval(open(sys.argv[2]).read())
    checks = sys.argv[3:] or [spec['prop']]
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
    open(d + '/demo.cpp', 'w').write(spec['demo'])
    open(d + '/demo.sh', 'w').write(DEMO if not spec.get('san') else DEMO.replace('undefined -fno-sanitize-recover=undefined', spec['san']))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=spec['prop'], needs=spec['needs'], what_it_breaks=spec['breaks']),
              open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
    print(sid, 'demo on the unchanged tree:', r0.returncode, r0.stdout[-200:], r0.stderr[-300:])
    try:
        for f, a, b in spec['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
        print('demo with the change:', r1.returncode, r1.stdout[-200:], r1.stderr[-200:])
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        o = open('/tmp/seed_out.json').read() if os.path.exists('/tmp/seed_out.json') else ''
        print('build', b.returncode, 'tests', t.returncode, passed(o))
        for c in checks:
            r = sh('./check.py %s' % c, cwd=ROOT)
            print(c, r.returncode, r.stdout.strip().split('\n')[0][:300], '|', r.stdout.strip().split('\n')[-1][:100])
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')


def passed(o):
    try:
        j = json.loads(o)
    except ValueError:
        return o[:200]
    base = json.load(open('/opt/vp/BASELINE.json'))
    return str({k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in j.items()})[:300]


main()
