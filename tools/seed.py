#!/usr/bin/env python3
"""Packs a planted bug: seed.py ID PROPERTY "needs" "what it breaks" DEMO_TEST.go [PKGDIR] [--fakes]
The change is the working-tree difference of the scratch copy /tmp/wt2 (a copy of /repo).  The demonstration is a Go test
laid over the repository (default package directory internal/verifdemo); it is checked on the unchanged and on the changed tree."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/wt2'
DEMO = '''#!/bin/bash
# Run with cwd /repo after the build: exit 0 when the property holds, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
tar xzf "$here/stubs.tgz" -C "$tmp" || exit 2
cp go.sum "$tmp/go.sum"
{ cat go.mod; while read -r mod dir; do echo "replace $mod => $tmp/stubs/$dir"; done < "$tmp/stubs/replace.txt"; } > "$tmp/go.mod"
python3 - "$here" "$repo" "$tmp" <<'P'
import json, os, sys
here, repo, tmp = sys.argv[1:]
r = {}
pkg = open(here + '/pkgdir').read().strip()
for f in sorted(os.listdir(here + '/demo')):
    r[f'{repo}/{pkg}/{f[:-3]}'] = f'{here}/demo/{f}'     # *.go.in
json.dump({'Replace': r}, open(tmp + '/ov.json', 'w'))
P
GOFLAGS=-mod=mod timeout 200 go test -c -o "$tmp/demo.test" -modfile="$tmp/go.mod" -overlay="$tmp/ov.json" -vet=off "./$(cat "$here/pkgdir")" || exit 2
cd "$tmp" && timeout 100 ./demo.test -test.run '^TestDemo' || exit 1
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    fakes = '--fakes' in sys.argv
    av = [a for a in sys.argv[1:] if a != '--fakes']
    id, prop, needs, what, test = av[:5]
    pkg = av[5] if len(av) > 5 else 'internal/verifdemo'
    d = f'{V}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/demo')
    diff = sh('git', '-C', WT, 'diff', '--no-color').stdout
    assert diff, 'no change'
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/pkgdir', 'w').write(pkg + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(test, d + '/demo/demo_test.go.in')
    if pkg == 'internal/verifdemo':
        shutil.copy(V + '/tools/demo/helper.go', d + '/demo/helper_test.go.in')
    if fakes:
        shutil.copy(V + '/tools/demo/fakes.go', d + '/demo/fakes_test.go.in')
        for f in ('fakeredis.go', 'lua.go', 'fakemongo.go'):
            s = open(f'{V}/harness/drv/{f}').read()
            s = re.sub(r'^package main', 'package verifdemo', s, flags=re.M)
            open(f'{d}/demo/{f[:-3]}_test.go.in', 'w').write(s)
    sys.path.insert(0, V + '/lib')
    import vlib
    t = tempfile.mkdtemp()
    shutil.copytree(V + '/stubs', t + '/stubs')
    open(t + '/stubs/replace.txt', 'w').write(''.join(f'{k} {v}\n' for k, v in vlib.STUBS.items()))
    sh('tar', 'czf', d + '/stubs.tgz', '-C', t, '--sort=name', '--mtime=@0', '--owner=0', '--group=0', 'stubs')
    shutil.rmtree(t)
    # does it touch original lines?
    base = sh('git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD').stdout.strip()
    orig = 0
    f = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            bl = sh('git', '-C', '/repo', 'blame', '-s', '--abbrev=40', '-l', 'HEAD', '--', f).stdout.splitlines()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1)) - 1
            continue
        if f and l[:1] in ' -' and not l.startswith('---'):
            n += 1
            if l[0] == '-':
                o = bl[n - 1].lstrip('^').startswith(base[:39])
                orig += o
                if not o:
                    print('NOT ORIGINAL:', f, n, l)
    print('original lines changed:', orig)
    # the demonstration on both trees
    a = sh(d + '/demo.sh', cwd='/repo')
    print('unchanged:', a.returncode, a.stdout[-1500:] + a.stderr[-1500:] if a.returncode else '')
    w = '/tmp/seedwt'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    p = sh('git', '-C', w, 'apply', d + '/patch.diff')
    assert p.returncode == 0, p.stderr
    b = sh('git', 'apply', '--check', d + '/patch.diff', cwd='/repo')
    # demo.sh uses its cwd
    b = subprocess.run(['bash', '-c', 'cd %s && sed "s#^cd /repo.*##" /opt/vp/env.sh > /tmp/seedenv.sh && sed "s#/opt/vp/env.sh#/tmp/seedenv.sh#" %s/demo.sh > /tmp/seeddemo.sh && sed -i "s#^here=.*#here=%s#" /tmp/seeddemo.sh && bash /tmp/seeddemo.sh' % (w, d, d)], capture_output=True, text=True)
    print('changed:', b.returncode, b.stdout[-1500:] + b.stderr[-500:])
    shutil.rmtree(w)
    ok = a.returncode == 0 and b.returncode == 1 and 'FAIL' in b.stdout and '[build failed]' not in b.stdout
    print('OK' if ok else 'BAD SEED')


main()
