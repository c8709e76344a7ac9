#!/usr/bin/env python3
"""Make and confirm a planted change.  usage: seed.py DEF.py [ID...]
DEF.py holds  SEEDS = [dict(id, property, module, pkg, edits=[(file, old, new)], test=..., needs=..., breaks=...)]
A scratch copy of /repo under /tmp is used; nothing in /repo changes."""
import sys, os, subprocess, json, shutil, tempfile, importlib.util
SCRATCH = '/tmp/seedcopy'
DEMO = '''#!/bin/bash
# run in the repository root after a build: exit 0 where the property holds
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" >"$t/o.json"
cd %s && go test -vet=off -overlay "$t/o.json" -count=1 -timeout 120s -run '^TestZZDemo$' ./%s
'''
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    spec = importlib.util.spec_from_file_location('d', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    sh(f'rm -rf {SCRATCH}'); sh(f'cp -a /repo {SCRATCH}')
    script = open('/opt/vp/test.sh').read().replace('/repo/', SCRATCH + '/')
    bscript = open('/opt/vp/build.sh').read().replace('/repo/', SCRATCH + '/')
    open('/tmp/seedtest.sh', 'w').write(script); open('/tmp/seedbuild.sh', 'w').write(bscript)
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in m.SEEDS:
        if only and s['id'] not in only: continue
        dst = f"/verif/seeded/{s['id']}"
        sh('git checkout -- .', cwd=SCRATCH)
        for f, old, new in s['edits']:
            p = os.path.join(SCRATCH, f); t = open(p).read()
            if t.count(old) != 1: print(s['id'], 'EDIT MATCHES', t.count(old), f, repr(old[:60])); break
            open(p, 'w').write(t.replace(old, new))
        else:
            tmp = tempfile.mkdtemp()
            open(tmp + '/demo_test.go', 'w').write(s['test'])
            pkg = s['pkg']
            open(tmp + '/demo.sh', 'w').write(DEMO % (s['module'], pkg, s['module'], pkg))
            diff = sh('git diff', cwd=SCRATCH).stdout
            open(tmp + '/patch.diff', 'w').write(diff)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
            sh(f'chmod +x {tmp}/demo.sh')
            bad = []
            r1 = sh(f'bash {tmp}/demo.sh', cwd='/repo')
            if r1.returncode: bad.append('demo fails on clean tree: ' + r1.stdout[-600:])
            r2 = sh(f'bash {tmp}/demo.sh', cwd=SCRATCH)
            if r2.returncode == 0: bad.append('demo passes with the patch')
            elif 'FAIL' not in r2.stdout or 'build failed' in r2.stdout: bad.append('demo broken: ' + r2.stdout[-600:])
            if not bad:
                b = sh('bash /tmp/seedbuild.sh')
                if b.returncode: bad.append('build: ' + b.stdout[-500:])
            if not bad:
                sh('bash /tmp/seedtest.sh /tmp/seedout.json')
                out = json.load(open('/tmp/seedout.json'))
                want = set(base['stable'])
                got = set(out.get('passed') or out.get('pass') or [])
                miss = sorted(want - got)
                if miss: bad.append('tests broken: ' + ', '.join(miss[:6]) + f' ({len(miss)})')
            if bad: print(s['id'], 'REJECTED', *bad)
            else:
                sh(f'rm -rf {dst}'); shutil.copytree(tmp, dst); print(s['id'], 'ok')
            shutil.rmtree(tmp)
    sh(f'rm -rf {SCRATCH}')
main()
