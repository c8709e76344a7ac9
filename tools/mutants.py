#!/usr/bin/env python3
"""mutants.py: small syntactic changes of the functions under contract; keeps those that compile and pass the
module's tests and asks the property's check about them.  Work log in /tmp/mut/log.jsonl (one line per mutant that
survives the tests).  Not used by any registered check.
usage: mutants.py PER_FUNC WORKERS SEED [PROP...]"""
import json, glob, subprocess, random, sys, os, threading, queue, shutil
per, workers, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
props = set(sys.argv[4:])
env = dict(os.environ, GOFLAGS='', GOWORK='off', GOTOOLCHAIN='local', GOPROXY='off', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
fs = {}
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    e = json.load(open(f)); c = e['coverage']
    if props and e['property'] not in props: continue
    for r in (c.get('functions') or []): fs.setdefault(r['function'], []).append(e['property'])
    for r in (c.get('inlined_functions') or []): fs.setdefault(r, []).append(e['property'])
o = subprocess.run(['/tmp/mutate', '/repo'], input='\n'.join(fs), capture_output=True, text=True).stdout
by = {}
for l in o.splitlines():
    m = json.loads(l); by.setdefault(m['func'], []).append(m)
rnd = random.Random(seed)
jobs = []
for f in sorted(by):
    ms = by[f]; rnd.shuffle(ms); jobs += ms[:per]
rnd.shuffle(jobs)
print(len(jobs), 'mutants', flush=True)
q = queue.Queue()
for j in jobs: q.put(j)
lock = threading.Lock()
cnt = {}
def note(k):
    with lock: cnt[k] = cnt.get(k, 0) + 1
def run(cmd, cwd, t, **kw):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, **kw)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
def worker(i):
    w = f'/tmp/mut/w{i}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', w])
    shutil.rmtree(w + '.verif', ignore_errors=True); os.makedirs(w + '.verif/evidence')
    subprocess.run('cp -a /verif/contracts /verif/replay /verif/known-findings.txt ' + w + '.verif/', shell=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(w, m['file'])
        src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
        try:
            d = os.path.dirname(p); mod = d
            while not os.path.exists(mod + '/go.mod'): mod = os.path.dirname(mod)
            rc, _ = run(['go', 'build', './...'], mod, 120)
            if rc: note('nobuild'); continue
            rc, _ = run(['go', 'test', '-count=1', './' + os.path.relpath(d, mod)], mod, 60)
            if rc: note('killed'); continue
            rc, _ = run(['go', 'test', '-count=1', './...'], mod, 200)
            if rc: note('killed'); continue
            res = 'missed'; out = ''
            rest = []
            for pr in fs[m['func']]:
                fn = m['func'].split('/')[-1].split('.', 1)[1]
                rc, out = run(['/tmp/gov', '-prop', pr, '-repo', w, '-verif', w + '.verif', '-noreplay', '-only', fn], '/verif', 300)
                if rc == 1: res = 'caught-only ' + pr; break
            else:
                for pr in fs[m['func']]:
                    rc, out = run(['/tmp/gov', '-prop', pr, '-repo', w, '-verif', w + '.verif'], '/verif', 700)
                    if rc == 1: res = 'caught-full ' + pr; break
            note(res.split()[0])
            m['res'] = res
            m['props'] = fs[m['func']]
            line = src.decode().splitlines()[m['line'] - 1].strip()
            m['src'] = line
            with lock:
                open('/tmp/mut/log.jsonl', 'a').write(json.dumps(m) + '\n')
                print(cnt, res, m['file'], m['line'], m['func'].split('.', 1)[1], '|', m['desc'], '|', line[:100], flush=True)
        finally:
            open(p, 'wb').write(src)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print(cnt)
for i in range(workers): shutil.rmtree(f'/tmp/mut/w{i}', ignore_errors=True); shutil.rmtree(f'/tmp/mut/w{i}.verif', ignore_errors=True)
