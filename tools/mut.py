#!/usr/bin/env python3
"""Mutation trials: mut.py FILE.mut [filter].  A .mut file has blocks:
== name | props | file
old text
--
new text
Each is applied to a scratch copy of /repo and the listed properties' checks are run against it."""
import sys, os, subprocess, shutil, re, tempfile
flt = sys.argv[2] if len(sys.argv) > 2 else ''
blocks = re.split(r'^== ', open(sys.argv[1]).read(), flags=re.M)[1:]
tests = os.environ.get('MUT_TESTS')
for b in blocks:
    hd, body = b.split('\n', 1)
    name, props, f = [x.strip() for x in hd.split('|')]
    if flt and flt not in name and flt not in props: continue
    old, new = re.split(r'^--\n', body, maxsplit=1, flags=re.M)
    old = old.rstrip('\n'); new = new.rstrip('\n')
    d = tempfile.mkdtemp(prefix='mut')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r)
    p = os.path.join(r, f)
    s = open(p).read()
    if s.count(old) < 1:
        print('%-28s PATTERN NOT FOUND' % name); shutil.rmtree(d); continue
    open(p, 'w').write(s.replace(old, new, 1))
    c = subprocess.run('go build . && go vet . 2>/dev/null; go test . 2>&1 | tail -3', shell=True, cwd=r, capture_output=True, text=True)
    tp = 'tests-pass' if c.stdout.strip().startswith('ok') else 'TESTS-FAIL ' + c.stdout[-200:] + c.stderr[-200:]
    for pr in props.split():
        c = subprocess.run(['/verif/bin/gover', '-repo', r, '-prop', pr, '-evidence', d + '/ev'], capture_output=True, text=True)
        v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        fl = [l for l in c.stdout.split('\n') if l.startswith('FAILED')]
        res = 'rc=%d ' % c.returncode + ('CAUGHT' + (' (no input)' if v and 'no-failing' in v[0] else ' +input') if v else 'MISSED')
        print('%-28s %s %s %s  [%s]' % (name, pr, res, tp, fl[0][:150] if fl else c.stderr[-150:]), flush=True)
    shutil.rmtree(d)
