#!/usr/bin/env python3
import sys, os, subprocess, shutil, re, tempfile
from concurrent.futures import ThreadPoolExecutor
V=os.environ.get('VDIR',os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
flt = sys.argv[2] if len(sys.argv) > 2 else ''
blocks = re.split(r'^== ', open(sys.argv[1]).read(), flags=re.M)[1:]
def one(b):
    hd, body = b.split('\n', 1)
    name, props = [x.strip() for x in hd.split('|')]
    if flt and not re.search(flt,name): return
    d = tempfile.mkdtemp(prefix='ref')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r)
    try:
        for e in re.split(r'^@@ ', body, flags=re.M)[1:]:
            f, t = e.split('\n',1); f=f.strip()
            old, new = re.split(r'^--\n', t, maxsplit=1, flags=re.M)
            old=old.rstrip('\n'); new=new.rstrip('\n')
            p=os.path.join(r,f); s=open(p).read()
            if old=='<EOF>': s=s+'\n'+new+'\n'
            else:
                if s.count(old)<1: print('%-22s PATTERN NOT FOUND in %s: %s'%(name,f,old[:60])); return
                s=s.replace(old,new,1)
            open(p,'w').write(s)
        c = subprocess.run('goimports -w *.go 2>/dev/null; go vet . 2>&1; go test . 2>&1 | tail -3', shell=True, cwd=r, capture_output=True, text=True)
        tp = '' if '\nok' in '\n'+c.stdout else 'TESTS-FAIL ' + c.stdout[-400:] + c.stderr[-200:]
        if tp: print(name, tp, flush=True); return
        out=[]
        for pr in props.split():
            c = subprocess.run([V+'/bin/gover','-verif',V,'-repo', r, '-prop', pr, '-noreplay','-evidence', d + '/ev'], capture_output=True, text=True)
            fl = [l for l in c.stdout.split('\n') if l.startswith('FAILED')]
            if c.returncode!=0: out.append('   ALARM %s rc=%d %s'%(pr,c.returncode,(fl[0][:300] if fl else (c.stdout+c.stderr)[-300:])))
        print('%-22s %s %s'%(name, props, 'quiet' if not out else '\n'+'\n'.join(out)), flush=True)
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex: list(ex.map(one,blocks))
