#!/usr/bin/env python3
"""Development helper: confirms planted bugs in a scratch clone (/tmp/sw/repo, see DESIGN.md) and stores them under /verif/seeded.
usage: mkseed.py SPEC.py [id...]   (SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, srcs, needs, breaks[, flags])])"""
import sys, os, subprocess, json, shutil, runpy
V = '/verif'; W = os.environ.get('SEEDW', '/tmp/sw'); R = W + '/repo'
DEMO = '''#!/bin/bash
# run in the repository's root after the build: exits 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -include cstdint -O1 -g %s -Iinclude "$D/demo.cc" %s -o "$T/demo" || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
spec = runpy.run_path(sys.argv[1])['SEEDS']; want = sys.argv[2:]
sh('git -C %s checkout -q -- . && git -C %s pull -q /repo' % (R, R))
for s in spec:
    if want and s['id'] not in want: continue
    d = '%s/seeded/%s' % (V, s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('git -C %s checkout -q -- .' % R)
    if s.get('demo_sh'): open(d + '/demo.sh', 'w').write(s['demo_sh'])
    else:
        open(d + '/demo.sh', 'w').write(DEMO % (s.get('flags', '-fsanitize=address,undefined -fno-sanitize=alignment,shift -fno-sanitize-recover=all'), s.get('srcs', 'src/buf.cc src/asn1.cc')))
        open(d + '/demo.cc', 'w').write(s['demo'])
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    clean = sh('bash %s/demo.sh' % d, cwd=R)
    for f, o, n in s['edits']:
        t = open(R + '/' + f).read()
        assert t.count(o) == 1, (s['id'], f, t.count(o), o)
        open(R + '/' + f, 'w').write(t.replace(o, n))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
    b = sh('bash %s/build.sh' % W)
    t = sh('bash %s/test.sh %s/o.json >%s/t.log 2>&1; tail -1 %s/t.log' % (W, W, W, W)) if b.returncode == 0 else None
    bad = sh('bash %s/demo.sh' % d, cwd=R)
    c = sh('VERIF_REPO=%s VERIF_NOEV=1 ./check %s' % (R, s['prop']), cwd=V) if not os.environ.get('NOCHECK') else None
    ok = clean.returncode == 0 and b.returncode == 0 and t.stdout.startswith('75 passed, 0 failed') and bad.returncode not in (0, 3)
    print('%-24s %s  demo clean %d build %d tests %s demo patched %d check %s' % (s['id'], 'OK ' if ok else 'BAD', clean.returncode, b.returncode, t.stdout.strip() if t else '', bad.returncode, c.returncode if c else '-'), flush=True)
    if not ok: print(clean.stdout[-800:], b.stdout[-800:] if b.returncode else '', bad.stdout[-500:])
    if c: print('   ' + '\n   '.join(c.stdout.splitlines()[:3]), flush=True)
    sh('git -C %s checkout -q -- .' % R)
