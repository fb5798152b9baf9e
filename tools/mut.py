#!/usr/bin/env python3
"""Tries mutants (no demos): tools/mut.py FILE [-t] [ID ...]

FILE holds blocks  "#### id PROP,PROP description"  followed by edits as in
tools/seeds/*.bug.  Each is applied to a scratch clone of /repo, built, tested
with the stable tests and tried by the checks of its properties.
A block whose properties start with '=' must stay quiet (it changes nothing)."""
import re, sys, subprocess, tempfile, shutil, os
sys.path.insert(0,os.path.dirname(__file__))
import seed
def main():
    a=sys.argv[1:]; f=a.pop(0); tier='quick'; test=True
    while a and a[0].startswith('-'):
        o=a.pop(0)
        if o=='-t': tier='thorough'
        if o=='-f': test=False
    bad=0
    for b in re.split(r'^#### ',open(f).read(),flags=re.M)[1:]:
        head,body=b.split('\n',1)
        id,props,desc=(head.split(' ',2)+[''])[:3]
        if a and id not in a: continue
        quiet=props.startswith('=')
        props=props.lstrip('=').split(',')
        if props==['ALL']: props=['ALL','C05']
        tmp=tempfile.mkdtemp(prefix='mut.'); repo=tmp+'/repo'
        try:
            subprocess.run(['git','clone','-q','/repo',repo],check=True)
            files=set(); err=None
            for m in re.finditer(r'^@@ (\S+)\n<<<\n(.*?)\n?===\n(.*?)\n?>>>$', body, re.M|re.S):
                fn,o,n=m.groups(); files.add(fn)
                s=open(repo+'/'+fn).read()
                pat=re.compile(''.join(r'[ \t]+' if w.strip(' \t')=='' and w else re.escape(w) for w in re.split(r'((?<=\S)[ \t]+)',o)))
                k=len(pat.findall(s))
                if k!=1: err='edit of %s matches %d times: %r'%(fn,k,o[:70]); break
                open(repo+'/'+fn,'w').write(pat.sub(lambda m:n,s))
            if err: print('%-28s %s'%(id,err),flush=True); continue
            rc,o=seed.sh('gofmt -w '+' '.join(files)+' && go build ./...',repo)
            if rc: print('%-28s DOES NOT BUILD %s'%(id,o[-400:]),flush=True); continue
            tm=''
            if test:
                miss=seed.tests(repo)
                if miss: miss=seed.tests(repo)
                if miss: tm='[TESTS FAIL %s] '%(','.join(x.split('/')[-1] for x in miss))
            env=dict(os.environ, MC_REPO=repo, MC_BUILD=seed.V+'/.build/mut%d'%os.getpid(), MC_EVID=tmp+'/ev', MC_REPL=tmp+'/rep', VERIF_TIER=tier)
            for p in props:
                c=subprocess.run('./check.sh '+p,shell=True,cwd=seed.V,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                v=re.search(r'^VIOLATION.*',c.stdout,re.M)
                sc=re.search(r'^scenario .*',c.stdout,re.M)
                if quiet:
                    r='quiet' if c.returncode==0 else 'ALARM rc %d %s'%(c.returncode,sc.group(0)[:200] if sc else c.stdout[-200:])
                    if r=='quiet' and len(props)>1: continue
                else:
                    r=('CAUGHT ' if c.returncode==1 and v else 'MISSED rc %d '%c.returncode)+(sc.group(0)[:150] if sc else c.stdout[-200:] if c.returncode!=0 else '')
                print('%-28s %s%s %s'%(id,tm,p,r),flush=True)
            if quiet: print('%-28s done'%id,flush=True)
        finally:
            shutil.rmtree(tmp)
    shutil.rmtree(seed.V+'/.build/mut%d'%os.getpid(),ignore_errors=True)
main()
