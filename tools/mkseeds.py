#!/usr/bin/env python3
"""Generate and verify planted bugs from tools/seeds/*.py.

mkseeds.py [ID...]          (re)generate /verif/seeded/<id>/ and verify: patch applies and builds, stable tests pass,
                            demo passes on the unchanged tree and fails with the patch
mkseeds.py -check [ID...]   additionally run the property's quick check against the patched copy
Works only in scratch copies under /tmp.
"""
import json, os, re, shutil, subprocess, sys, glob
ROOT = '/verif'
SC = '/tmp/seedscratch'
ENV = '. /opt/vp/env.sh; cd %s; '

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    return p.returncode, p.stdout

def load():
    out = {}
    for f in sorted(glob.glob(ROOT + '/tools/seeds/*.py')):
        ns = {}
        def seed(id, prop, needs, breaks, edits, demo, pkg='.', imports=(), **kw):
            assert id not in out, id
            out[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, imports=imports, **kw)
        ns['seed'] = seed
        exec(compile(open(f).read(), f, 'exec'), ns)
    return out

DEMO = '''#!/bin/bash
# run in the repository after its build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && { at=$PWD; . /opt/vp/env.sh; cd "$at"; }
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<J
{"Replace": {"$PWD/%(pkg)s/zz_seeddemo_test.go": "$here/demo_test.go.txt"}}
J
go test %(flags)s -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestSeedDemo$' ./%(pkg)s
'''

HELP = '''
func demoScope(vars *ordereddict.Dict) types.Scope {
	s := NewScope()
	if vars != nil {
		s.AppendVars(vars)
	}
	return s
}

// demoRun runs all statements and returns the JSON rows of the last one.
func demoRun(t *testing.T, s types.Scope, text string) []string {
	vqls, err := MultiParse(text)
	if err != nil {
		t.Fatal(err)
	}
	var rows []string
	for _, v := range vqls {
		rows = []string{}
		for r := range v.Eval(context.Background(), s) {
			b, err := json.Marshal(RowToDict(context.Background(), s, r))
			if err != nil {
				t.Fatal(err)
			}
			rows = append(rows, string(b))
		}
	}
	return rows
}

func demoWant(t *testing.T, s types.Scope, text string, want ...string) {
	got := demoRun(t, s, text)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%s\\n got  %v\\n want %v", text, got, want)
	}
}

var _ = ordereddict.NewDict
var _ = json.Marshal
var _ = fmt.Sprint
var _ types.Any
var _ = context.Background
'''

def demo_go(s):
    if s.get('raw'):
        return s['demo']
    imps = ['context', 'encoding/json', 'fmt', 'testing', 'github.com/Velocidex/ordereddict', 'www.velocidex.com/golang/vfilter/types'] + list(s['imports'])
    return 'package vfilter\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imps) + ')\n' + HELP + '\n' + s['demo'] + '\n'

def build(s):
    d = ROOT + '/seeded/' + s['id']
    repo = SC + '/repo'
    sh('git -C %s checkout -q -- . ; git -C %s clean -fdq' % (repo, repo))
    for f, old, new in s['edits']:
        p = repo + '/' + f
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            return 'edit of %s: old text found %d times' % (f, n)
        open(p, 'w').write(t.replace(old, new))
    rc, o = sh('. /opt/vp/env.sh; cd %s; gofmt -l %s; git diff' % (repo, ' '.join(sorted({e[0] for e in s['edits']}))))
    i = o.find('diff --git')
    if i > 0:
        print('   not gofmt clean:', o[:i].strip())
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(o[i:])
    open(d + '/demo_test.go.txt', 'w').write(demo_go(s))
    open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'], flags=s.get('flags', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    # with the patch
    rc, o = sh('. /opt/vp/env.sh; cd %s; go build ./... && go test -json -vet=off -count=1 -cpu 1 -timeout 5m ./... > %s/t.json' % (repo, SC))
    bad = tests()
    if bad:
        return 'stable tests fail with the patch: %s %s' % (bad, o[-300:])
    rc, o = sh('bash %s/demo.sh' % d, cwd=repo)
    if rc == 0:
        return 'demo passes with the patch'
    if 'build failed' in o or 'setup failed' in o:
        return 'demo does not build: ' + o[-800:]
    why = [l for l in o.splitlines() if l.strip()][:6]
    rc, o = sh('bash %s/demo.sh' % d, cwd='/repo')
    if rc != 0:
        return 'demo fails on the unchanged tree: ' + o[-1500:]
    print('   ok; with patch:', ' | '.join(why)[:300])
    return None

def tests():
    ok = set(); bad = []
    for l in open(SC + '/t.json'):
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Test') and e['Action'] in ('pass', 'fail'):
            ok.add((e['Package'], e['Test'])) if e['Action'] == 'pass' else None
            if e['Action'] == 'fail': bad.append(e['Package'] + '/' + e['Test'])
        elif e['Action'] == 'build-fail' or (e['Action'] == 'fail' and not e.get('Test')):
            bad.append(e.get('Package') or e.get('ImportPath'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    stable = ' '.join(base)
    return [b for b in bad if b.split('/')[-1] in stable or True]

def check(s):
    repo = SC + '/repo'
    for prop in [s['prop']] + s.get('also', []):
        rc, o = sh('VERIF_SEED=1 bash %s/tools/checkcopy.sh %s %s' % (ROOT, prop, repo))
        if 'VIOLATION property=' + prop in o:
            line = [l for l in o.splitlines() if l.strip() and 'VIOLATION' not in l]
            print('   CAUGHT by', prop, (line[-1] if line else '')[:160])
        else:
            print('   MISSED by', prop, 'rc', rc, o[-300:])

if __name__ == '__main__':
    args = sys.argv[1:]
    chk = '-check' in args
    args = [a for a in args if a != '-check']
    seeds = load()
    ids = args or list(seeds)
    shutil.rmtree(SC, ignore_errors=True)
    os.makedirs(SC)
    sh('cp -a /repo %s/repo' % SC)
    for i in ids:
        print(i, seeds[i]['prop'])
        e = build(seeds[i])
        if e:
            print('   REJECTED:', e)
        elif chk:
            check(seeds[i])
        sys.stdout.flush()
    shutil.rmtree(SC, ignore_errors=True)
