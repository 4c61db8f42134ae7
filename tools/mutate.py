#!/usr/bin/env python3
"""Developer tool: applies small edits to scratch copies of /repo and reports what the checks say.

usage: mutate.py FILE... [-k substring]
Each FILE is a Python file defining
  M: list of (name, property or '', [(file, old, new), ...])
A property means the edit breaks it (expect a violation of it); '' means the edit keeps the behaviour (expect quiet).
"""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
BIN = os.environ.get('FABCHECK', '/tmp/fabcheck')
args = sys.argv[1:]
key = ''
if '-k' in args:
    i = args.index('-k'); key = args[i+1]; del args[i:i+2]
tests = '-t' in args
if tests: args.remove('-t')
M = []
for f in args:
    g = {}
    exec(open(f).read(), g)
    M += g['M']
env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', CGO_ENABLED='0')
def one(m):
    name, prop, edits = m
    d = tempfile.mkdtemp(prefix='mut')
    try:
        r = d + '/r'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'), symlinks=True)
        for f, old, new in edits:
            s = open(r + '/' + f).read()
            if s.count(old) != 1:
                return name, prop, 'BADEDIT', f'{s.count(old)} matches in {f}: {old!r}'
            open(r + '/' + f, 'w').write(s.replace(old, new))
        b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; go build ./...'], cwd=r, capture_output=True, text=True)
        if b.returncode:
            return name, prop, 'NOBUILD', b.stderr
        t = ''
        if tests:
            q = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; go test ./... 2>&1 | grep -E "^(---|FAIL|\\s+--- FAIL)"'], cwd=r, capture_output=True, text=True)
            t = ' TESTS:' + ' '.join(q.stdout.split('\n'))
        props = [prop] if prop else ['all']
        c = subprocess.run([BIN] + props, env=dict(env, FABCHECK_REPO=r, FABCHECK_OUT=d + '/out'), capture_output=True, text=True, timeout=900)
        if c.returncode not in (0, 1):
            return name, prop, 'BROKEN', (c.stdout + c.stderr)[-2000:] + t
        v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        if prop:
            st = 'caught' if c.returncode == 1 and v else 'MISSED'
        else:
            st = 'quiet' if c.returncode == 0 else 'ALARM'
        return name, prop, st, c.stdout[-3000:] + t
    finally:
        shutil.rmtree(d)
ms = [m for m in M if key in m[0]]
with cf.ThreadPoolExecutor(4) as ex:
    n = {}
    for name, prop, st, out in ex.map(one, ms):
        n[st] = n.get(st, 0) + 1
        first = [l for l in out.split('\n') if l.startswith('[')][:3]
        print(f'{st:8} {prop:4} {name}: ' + (' | '.join(first) if st in ('caught',) else '') + (out[out.index('TESTS:'):].strip() if 'TESTS:' in out else ''))
        if st not in ('caught', 'quiet', 'MISSED'):
            print('    ' + out.replace('\n', '\n    '))
    print(n)
