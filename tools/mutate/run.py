#!/usr/bin/env python3
"""tools/mutate/run.py OUT.jsonl MINUTES LANES [FILE-SUBSTRING] [CAP]

Mutation test of the checks: applies small changes to a clone of /repo, drops
those that don't compile or that the tests of the package notice, and runs the
quick checks of the properties anchored there against the others until one
reports a violation. Works in /tmp/mut only."""
import json, os, random, re, shutil, signal, subprocess, sys, threading, time
OUT, MIN, LANES = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
SUB = sys.argv[4] if len(sys.argv) > 4 else ''
CAP = int(sys.argv[5]) if len(sys.argv) > 5 else 10**9
MAP = [
 ('identity/issuer/issuer.go', 'C13 C10 C12 C17 C11 C32 C20 C16'), ('identity/issuer/noncegen.go', 'C12 C11'),
 ('merkletree/merkletree.go', 'C01 C05 C03 C06 C04 C02 C07'), ('merkletree/utils.go', 'C29 C01 C02'), ('merkletree/node.go', 'C03 C01 C04 C02'),
 ('utils/zk/zk.go', 'C28 C32'), ('identity/holder', 'C15 C32'), ('keystore', 'C23 C26 C25 C24'),
 ('components/verifier', 'C14 C15 C32'), ('writerhttp', 'C20 C21'), ('core/claims', 'C19 C12'), ('core/id.go', 'C18'),
 ('core/genesis', 'C17'), ('core/proof', 'C14'), ('eth/client', 'C30 C22'), ('noncedb', 'C27'), ('common/', 'C29'),
 ('idenpubonchain/local', 'C22 C10'), ('idenpubonchain/', 'C22 C30'), ('db/storageutils', 'C08 C10'), ('db/', 'C08 C09'),
 ('crypto/signatures', 'C26 C29'), ('crypto/', 'C29'), ('httpclient', 'C31'), ('readerhttp', 'C31 C21'), ('idenpuboffchain/local', 'C20'),
 ('idenpuboffchain/', 'C21 C20'), ('idensigner', 'C26'), ('utils/', 'C29'),
]
LOCKS = [('identity/issuer', 'C16 C12'), ('merkletree', 'C07'), ('keystore', 'C23 C25 C24'), ('noncedb', 'C27'), ('zk.go', 'C28'), ('db/', 'C08 C07'),
 ('idenpubonchain', 'C22'), ('idenpuboffchain', 'C20 C21')]
ONLY = os.environ.get('ONLY', '')  # what the changes must be described as
def checks(f, what=''):
    if what.startswith('locks'):
        for k, v in LOCKS:
            if k in f: return v.split()
    for k, v in MAP:
        if k in f: return v.split()
    return []
def sh(cmd, cwd=None, timeout=None, stop=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, executable='/bin/bash')
    t = threading.Timer(timeout, lambda: os.killpg(p.pid, 9)) if timeout else None
    if t: t.start()
    out = []
    for l in p.stdout:
        if len(out) < 4000: out.append(l)
        if stop and re.search(stop, l):
            try: os.killpg(p.pid, 9)
            except OSError: pass
            break
    p.wait()
    if t: t.cancel()
    try: os.killpg(p.pid, 9)
    except OSError: pass
    return p.returncode, ''.join(out)
files = subprocess.check_output("git ls-files '*.go' | grep -v _test.go | grep -v 'mock\\|contracts/state.go\\|testgen'", shell=True, cwd='/repo', text=True).split()
files = [f for f in files if SUB in f]
random.seed(int(os.environ.get('SEED', '1')))
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d['file'], d['From'], d['To'], d['Text']))
queues = []
for f in files:
    ms = [json.loads(l) for l in subprocess.check_output(['/tmp/mutate', f], cwd='/repo', text=True).splitlines()]
    ms = [m for m in ms if not m['What'].startswith('ignore') and not (m['What'].startswith('swap:') and 'if err != nil' in m['Text'])]
    ms = [m for m in ms if re.search(ONLY, m['What'])]
    random.shuffle(ms)
    queues.append([m for m in ms[:CAP]])
todo = []
while any(queues):  # more of the big files, but something of each
    for q in queues:
        for _ in range(1 + len(q) // 60):
            if q: todo.append(q.pop())
todo = [m for m in todo if (m['file'], m['From'], m['To'], m['Text']) not in done]
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
stable = {x.split('/')[-1] for x in base}
end = time.time() + MIN * 60
lock = threading.Lock()
def lane(k):
    d = '/tmp/mut/%d' % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('cp -a /repo %s/repo && cd %s/repo && git checkout -q -- . && cp -r /verif %s/verif && rm -rf %s/verif/.git %s/verif/seeded %s/verif/evidence/* %s/verif/build' % ((d,) * 7))
    sh("grep -rlE '/repo|/verif' mc run.sh *.txt | xargs sed -i 's#/repo#%s/repo#g; s#\\([^a-z./]\\)/verif#\\1%s/verif#g'" % (d, d), cwd=d + '/verif')
    while time.time() < end:
        with lock:
            if not todo: return
            m = todo.pop(0)
        p = d + '/repo/' + m['file']
        src = open('/repo/' + m['file'], 'rb').read()
        open(p, 'wb').write(src[:m['From']] + m['Text'].encode() + src[m['To']:])
        t0 = time.time(); res = None; det = ''
        pkg = './' + os.path.dirname(m['file'])
        env = '. /opt/vp/env.sh; cd %s/repo; ' % d
        rc, out = sh(env + 'go build ./... && go vet -copylocks=false -printf=false %s >/dev/null 2>&1; go build ./...' % pkg, timeout=300)
        if rc: res = 'nocompile'
        elif not re.search('verifier|issuer', pkg):
            rc, out = sh(env + 'go test -vet=off -count=1 -timeout 100s %s' % pkg, timeout=200)
            failed = set(re.findall(r'--- FAIL: (\S+)', out))
            if (failed & stable) or 'panic:' in out and pkg != './core/claims': res = 'tests'
        if not res:
            res = 'MISSED'
            for c in checks(m['file'], m['What']):
                rc, out = sh('cd %s/verif && bash run.sh %s quick' % (d, c), timeout=600, stop='^VIOLATION|^violation in')
                if re.search('^VIOLATION|^violation in', out, re.M): res = c; break
                if rc not in (0,): res = 'noanswer ' + c; det = out[-600:]; break
        open(p, 'wb').write(src)
        m['res'] = res; m['sec'] = round(time.time() - t0); m['det'] = det
        with lock:
            open(OUT, 'a').write(json.dumps(m) + '\n')
ts = [threading.Thread(target=lane, args=(k,)) for k in range(LANES)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree('/tmp/mut', ignore_errors=True)
