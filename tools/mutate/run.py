#!/usr/bin/env python3
"""run.py LIST OUT N SEED [WORKERS] [FILEPREFIX]: sample N mutants of LIST, keep those which compile and pass the stable tests, and run the
checks which watch the mutated file (at a reduced scale) until one reports a violation.  Works in scratch copies under /tmp."""
import json, os, random, subprocess, sys, shutil, threading, queue, time
lst, out, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
workers = int(sys.argv[5]) if len(sys.argv) > 5 else 3
prefix = sys.argv[6] if len(sys.argv) > 6 else ''
SCALE = os.environ.get('SCALE', '0.2')
MAP = [('visitor.go', 'C18 C19 C23 C30 C31'), ('vfilter_group', 'C05 C11 C12 C36 C39'), ('vfilter.go', 'C01 C02 C08 C35 C34 C10 C05 C30 C31 C36 C07 C04 C09 C16 C17 C20 C21 C27 C15 C28 C13'),
 ('scope/scope.go', 'C09 C11 C35 C08 C28 C16 C15 C12 C32 C38 C37 C39 C17'), ('scope/dispatcher', 'C32 C09 C11 C03 C26 C38 C37 C17'), ('scope/marshal', 'C23'), ('scope/aggregators', 'C05 C33 C36 C15'), ('scope/', 'C09 C11 C28 C37 C17'), ('arg_parser', 'C22 C33 C35 C17 C10'),
 ('protocols/protocol_associative', 'C27 C34 C25 C08 C32 C17 C01'), ('unquote', 'C21'), ('utils/dict', 'C25 C33 C22 C23 C27 C17'), ('outline', 'C30'),
 ('introspection', 'C37 C17 C22'), ('functions/aggregates', 'C05 C33 C36 C15'), ('functions/if', 'C33 C04 C17'), ('functions/', 'C33 C35 C17'), ('stored.go', 'C08 C35 C10 C34 C11 C16 C23 C04'),
 ('protocols/protocol_lt', 'C03 C06 C02 C32 C17'), ('protocols/protocol_gt', 'C03 C06 C02 C32 C17'), ('protocols/protocol_eq', 'C03 C27 C02 C32 C17'), ('utils/', 'C22 C33 C17 C25 C02'),
 ('plugins/foreach', 'C10 C12 C13 C15 C11 C39'), ('lazy_wrapper', 'C32 C03 C27 C02 C26 C17'), ('protocols/utils', 'C03 C02 C17 C05 C22'), ('marshal', 'C23'), ('lazy.go', 'C04 C25 C01 C17 C35 C34'),
 ('plugins/', 'C10 C12 C13 C17 C33'), ('protocols/protocol_add', 'C02 C32 C08 C12 C17'), ('protocols/protocol_regex', 'C26 C32 C17'), ('api.go', 'C24'), ('protocols/protocol_membership', 'C27 C02 C32 C17'),
 ('protocols/protocol_iterate', 'C10 C34 C01 C32 C17'), ('stored_query', 'C34 C08 C13 C27 C12 C17'), ('throttle', 'C28 C14'), ('tokenizer', 'C20'), ('grouper', 'C05 C11 C12 C38'), ('sort', 'C06 C12 C38'), ('lambda', 'C29'),
 ('explain', 'C28 C17'), ('protocols/protocol_bool', 'C02 C13 C32 C17 C05'), ('protocols/', 'C02 C32 C17 C27 C25'), ('materializer', 'C08 C25 C36 C38'), ('', 'C01 C17 C33 C28 C25')]
def props(f):
    for p, v in MAP:
        if p in f: return v.split()
muts = [json.loads(l) for l in open(lst)]
muts = [m for m in muts if m['File'].startswith(prefix) and not m['File'].startswith('cmd')]
random.Random(seed).shuffle(muts)
muts = muts[:n]
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('tests') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
done = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l); done.add((m['File'], m['Off'], m['End'], m['New']))
lock = threading.Lock()
q = queue.Queue()
for m in muts:
    if (m['File'], m['Off'], m['End'], m['New']) not in done: q.put(m)
def sh(cmd, t):
    p = subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, ''
def verdict(w, m):
    repo = '/tmp/mut%d/repo' % w; work = '/tmp/mut%d/work' % w
    f = os.path.join(repo, m['File']); src = open(f, 'rb').read()
    try:
        open(f, 'wb').write(src[:m['Off']] + m['New'].encode() + src[m['End']:])
        rc, o = sh('. /opt/vp/env.sh; cd %s && go build ./...' % repo, 300)
        if rc: return 'nobuild', ''
        rc, o = sh('ulimit -v 9000000; . /opt/vp/env.sh; cd %s && go test -json -vet=off -count=1 -cpu 1 -timeout 60s ./...' % repo, 200)
        passed = set()
        for l in o.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Package'] + '/' + e['Test'])
        if not STABLE <= passed: return 'tests', ''
        rc, o = sh('bash /tmp/vsnap/build.sh C01 %s %s' % (work, repo), 300)
        if rc: return 'nobuild', o[-300:]
        for p in props(m['File']):
            if p == 'C14': continue
            sh('rm -rf %s/root; mkdir -p %s/root/evidence; cp /verif/KNOWN_FINDINGS.txt %s/root/' % (work, work, work), 10)
            rc, o = sh('ulimit -v 5000000; cd /tmp; VERIF_ROOT=%s/root nice %s/vmon -prop %s -tier quick -seed 1 -scale %s -work %s' % (work, work, p, SCALE, work), 400)
            if rc == 1 and 'VIOLATION property=%s' % p in o: return 'caught', p
            if rc != 0: return 'error', '%s rc=%d %s' % (p, rc, o[-300:])
        return 'MISSED', ''
    finally:
        open(f, 'wb').write(src)
def worker(w):
    d = '/tmp/mut%d' % w
    sh('rm -rf %s; mkdir -p %s/work; cp -a /repo %s/repo' % (d, d, d), 60)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        t = time.time()
        try: v, by = verdict(w, m)
        except Exception as e: v, by = 'exception', repr(e)
        m['verdict'], m['by'], m['secs'] = v, by, round(time.time() - t)
        with lock: open(out, 'a').write(json.dumps(m) + '\n')
    sh('rm -rf %s' % d, 60)
STABLE = stable
ts = [threading.Thread(target=worker, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
