#!/usr/bin/env python3
"""Self test of the checker (not a check): applies small edits to scratch copies of /repo.

  run.py [-k PATTERN] [refactors|mutants ...]

refactors.py lists edits that keep the behaviour: no rule may report anything.
mutants.py lists edits that break a property: its rule must report it.
Each entry: (name, property or '', [(file, old, new), ...]); old must occur once."""
import re, subprocess, sys, os, shutil, tempfile, importlib.util, concurrent.futures as cf

here = os.path.dirname(os.path.abspath(__file__))
checker = os.environ.get('CHECKER', '/verif/.bin/distcheck')
known = os.path.join(here, '../../known-findings.txt')

def load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(here, n + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.entries

def one(kind, e):
    name, prop, edits = e
    tmp = tempfile.mkdtemp(prefix='battery.')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read() if os.path.exists(p) else ''
            if old == '':
                s = s + new
            else:
                if s.count(old) != 1:
                    return name, 'EDIT %s: %d occurrences' % (f, s.count(old)), False
                s = s.replace(old, new)
            open(p, 'w').write(s)
        env = dict(os.environ)
        b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd %s && go build ./... && go vet ./core ./kmeans ./mcmc ./streaming ./dtw ./euclid ./cosinus 2>&1 | grep -E "^[a-z/_]+\\.go:[0-9]+:[0-9]+: (undefined|declared)" ; exit ${PIPESTATUS[0]}' % repo], capture_output=True, text=True, env=env)
        if b.returncode != 0:
            return name, 'BUILD ' + (b.stdout + b.stderr)[:300], False
        out = os.path.join(tmp, 'out')
        os.makedirs(out)
        shutil.copy(known, out)
        ids = ['all'] if kind == 'refactors' or not os.environ.get('FAST') else [prop]
        if os.environ.get('ONLY'):
            ids = os.environ['ONLY'].split(',')
        c = subprocess.run([checker, '-repo', repo, '-out', out, 'check'] + ids, capture_output=True, text=True, env=env, timeout=900)
        lines = c.stdout.splitlines()
        viol = [l.split('property=')[1].split()[0] for l in lines if l.startswith('VIOLATION')]
        if kind == 'refactors':
            if viol or c.returncode not in (0, 1):
                det = [l for l in lines if ': ' in l and not l.startswith(('OK', 'KNOWN', 'VIOLATION'))]
                return name, 'ALARM %s\n      %s' % (viol, '\n      '.join(x[:300] for x in det[:6]) or c.stderr[-500:]), False
            return name, 'quiet', True
        if prop in viol:
            det = [l for l in lines if ': ' in l and not l.startswith(('OK', 'KNOWN', 'VIOLATION'))]
            return name, 'caught by %s' % ' '.join(viol), True
        return name, 'MISSED (%s) others: %s' % (prop, viol), False
    finally:
        shutil.rmtree(tmp)

def main():
    args = sys.argv[1:]
    pat = ''
    if args and args[0] == '-k':
        pat = args[1]
        args = args[2:]
    bad = n = 0
    for kind in [a for a in args if a != '-v'] or ['refactors', 'mutants']:
        es = [e for e in load(kind) if re.search(pat, e[0]) or pat == e[1]]
        with cf.ThreadPoolExecutor(6) as ex:
            for name, res, ok in ex.map(lambda e: one(kind, e), es):
                n += 1
                if not ok:
                    bad += 1
                if not ok or '-v' in sys.argv or kind == 'mutants':
                    print(kind[:-1], name, res, flush=True)
    print(n, 'edits,', bad, 'failures')
main()
