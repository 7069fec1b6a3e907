#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms it in a scratch copy (not a check).

  seed.py ID...      each seeds/<id>.py defines prop, needs, breaks, edits [(file, old, new)],
                     demo [(package dir, Go test source)] and optionally race=True, run='TestX'"""
import sys, os, json, subprocess, shutil, tempfile, runpy, concurrent.futures as cf
V = '/verif'
ENV = '. /opt/vp/env.sh; '
DEMO = '''#!/bin/bash
# exit 0: the property holds on the scenario; otherwise not
set -u
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap '/bin/rm -rf "$t"' EXIT
cat > "$t/ov.json" <<J
{"Replace": {%s}}
J
timeout 250 go test -overlay "$t/ov.json" %s -count=1 -vet=off -run '%s' %s
'''

def sh(c, cwd, **k):
    return subprocess.run(['bash', '-c', c], cwd=cwd, capture_output=True, text=True, **k)

def one(i):
    s = runpy.run_path('%s/tools/seeds/%s.py' % (V, i))
    d = '%s/seeded/%s' % (V, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        repo = w + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        sh('git checkout -q . && git clean -fdq', repo)
        rep, pk = [], []
        for n, (p, src) in enumerate(s['demo']):
            f = 'demo%d_test.go.txt' % n
            open(d + '/' + f, 'w').write(src)
            rep.append('"$PWD/%s/seed%d_verif_test.go": "$d/%s"' % (p, n, f))
            pk.append('./' + p)
        open(d + '/demo.sh', 'w').write(DEMO % (', '.join(rep), '-race' if s.get('race') else '', s.get('run', 'TestSeed'), ' '.join(pk)))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, repo)
        if a.returncode != 0:
            return i, 'DEMO FAILS on the unchanged tree\n' + (a.stdout + a.stderr)[-1500:]
        for f, old, new in s['edits']:
            t = open(repo + '/' + f).read()
            if t.count(old) != 1:
                return i, 'EDIT %s: %d occurrences of %r' % (f, t.count(old), old[:60])
            open(repo + '/' + f, 'w').write(t.replace(old, new))
        b = sh(ENV + 'go build ./... && gofmt -l $(git diff --name-only)', repo)
        if b.returncode != 0:
            return i, 'BUILD ' + b.stdout + b.stderr
        g = sh('git diff', repo)
        open(d + '/patch.diff', 'w').write(g.stdout)
        # lines of fix commits are not to be changed
        for f, old, new in s['edits']:
            orig = subprocess.run(['git', '-C', '/repo', 'show', '9643896:' + f], capture_output=True, text=True).stdout
            rm = [l[1:] for l in g.stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
            if rm and not any(l.strip() in orig for l in rm if len(l.strip()) > 3):
                return i, 'CHANGES only lines of fixes'
        a = sh('bash %s/demo.sh' % d, repo)
        if a.returncode == 0:
            return i, 'DEMO PASSES with the change'
        why = (a.stdout + a.stderr)[-700:] if '-v' in sys.argv else ''
        if 'build failed' in a.stdout + a.stderr:
            return i, 'DEMO BUILD ' + a.stdout + a.stderr
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        ts = open('/opt/vp/test.sh').read().replace('/opt/vp/testwork', w + '/work').replace('cd /repo', 'cd ' + repo)
        open(w + '/test.sh', 'w').write(ts)
        sh('bash %s/test.sh %s/t.json' % (w, w), repo)
        passed = set(json.load(open(w + '/t.json'))['passed'])
        miss = [x for x in stable if x not in passed]
        for x in list(miss) if len(miss) < 4 else []: # alone
            k, n = x.rsplit('/', 1)
            if sh(ENV + "GOMAXPROCS=1 go test -vet=off -count=1 -run '^%s$' ./%s" % (n, k.split('distclus/')[1]), repo).returncode == 0:
                miss.remove(x)
        if miss:
            return i, 'STABLE TESTS FAIL %d %s' % (len(miss), sorted(miss)[:6])
        out = w + '/out'
        os.makedirs(out)
        shutil.copy(V + '/known-findings.txt', out)
        c = sh('%s/.bin/distcheck -repo %s -out %s check all' % (V, repo, out), repo)
        v = [l.split('property=')[1].split()[0] for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        return i, '%s %s by %s %s' % (s['prop'], 'CAUGHT' if s['prop'] in v else 'MISSED', v, why)
    finally:
        shutil.rmtree(w)

ids = [a for a in sys.argv[1:] if not a.startswith('-')]
if ids == ['all']:
    ids = sorted(f[:-3] for f in os.listdir(V + '/tools/seeds') if f.endswith('.py'))
with cf.ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, ids):
        print(i, m, flush=True)
