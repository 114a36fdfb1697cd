#!/usr/bin/env python3
"""mkseed.py FILE.seed...: builds /verif/seeded/<id>/ from a description and confirms it.
== id | property
needs: ...
breaks: ...
@@ file
old
--
new
@@ ...
%% demo
Go test source with TestDemo (package ustack_test or ustack)
"""
import sys, os, re, subprocess, shutil, tempfile, json
DEMO = '''#!/bin/bash
# run in the repository: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
timeout 200 go test -vet=off -overlay "$t/o.json" -run '^TestDemo$' -count=1 -timeout 100s .
'''
for fn in sys.argv[1:]:
  for b in re.split(r'^== ', open(fn).read(), flags=re.M)[1:]:
    hd, body = b.split('\n', 1)
    sid, prop = [x.strip() for x in hd.split('|')]
    needs = re.search(r'^needs: (.*)$', body, re.M).group(1)
    breaks = re.search(r'^breaks: (.*)$', body, re.M).group(1)
    main, demo = re.split(r'^%% demo\n', body, flags=re.M)
    demo = demo.replace('//RIG\n', open('/verif/tools/seeds/rig.txt').read() + '\n')
    d = tempfile.mkdtemp(prefix='seed'); r = d + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    ok = True
    for ed in re.split(r'^@@ ', main, flags=re.M)[1:]:
        f, t = ed.split('\n', 1)
        old, new = re.split(r'^--\n', t, maxsplit=1, flags=re.M)
        old, new = old.rstrip('\n'), new.rstrip('\n')
        s = open(r + '/' + f.strip()).read()
        if s.count(old) != 1:
            print(sid, 'pattern count', s.count(old), f); ok = False; continue
        open(r + '/' + f.strip(), 'w').write(s.replace(old, new))
    if not ok: shutil.rmtree(d); continue
    out = '/verif/seeded/' + sid
    os.makedirs(out, exist_ok=True)
    open(out + '/demo_test.go', 'w').write(demo)
    open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
    diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
    run = lambda c, cwd: subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
    t = run('gofmt -l . ; go vet . && go test . 2>&1', r)
    bad = run('bash %s/demo.sh' % out, r)
    good = run('bash %s/demo.sh' % out, '/repo')
    print(sid, prop, 'tests:', 'pass' if re.search(r'^ok', t.stdout, re.M) else 'FAIL ' + t.stdout + t.stderr, '| demo good rc', good.returncode, 'bad rc', bad.returncode,
          '' if good.returncode == 0 and bad.returncode else good.stdout[-800:] + '\n----\n' + bad.stdout[-800:], flush=True)
    c = subprocess.run(['/verif/bin/gover', '-repo', r, '-prop', prop, '-evidence', d + '/ev'], capture_output=True, text=True)
    v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
    fl = [l for l in c.stdout.split('\n') if l.startswith('FAILED')]
    print('    check rc', c.returncode, v, (fl or [''])[0][:160], c.stderr[-200:], flush=True)
    shutil.rmtree(d)
