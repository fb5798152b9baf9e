#!/usr/bin/env python3
"""Mechanical mutation analysis: tools/mutall.py OUT [-j N] [-s STEP] [-r] FILE ...

Every mutant (tools/mutate) of the files of /repo is built and tried by all
checks together (the plain checker, quick bounds); survivors are tried by the
stable tests and, with -r, by the data race check.  Results are appended to
OUT, one JSON object per line."""
import sys, os, json, subprocess, tempfile, shutil, threading, re, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'tools'))
import seed
def skip(f):
    if f.startswith('soap') or f.startswith('internal/service/soap'): return '-skip conn-hist-6,conn-hist-one-7,e2e-hist-5,conn-hist-three-5,json-data-2,json-data-3,json-strict,msg-race-cp-1,scale-big-cs,scale-big-cp,json-data-2,json-data-3,json-strict'
    if f.startswith('messages'): return '-skip conn-hist-6,conn-hist-one-7,e2e-hist-5,conn-hist-three-5,msg-race-cp-1,scale-big-cs,scale-big-cp,hist-cs-4,hist-cp-4'
    return '-skip conn-hist-6,e2e-hist-5,json-data-2,json-data-3,json-strict,soap-data-2,soap-data-3,scale-big-cs,scale-big-cp'
def main():
    a=sys.argv[1:]; out=a.pop(0); j=4; step=1; race=False; only=None
    while a and a[0].startswith('-'):
        o=a.pop(0)
        if o=='-j': j=int(a.pop(0))
        if o=='-s': step=int(a.pop(0))
        if o=='-r': race=True
        if o=='-i': only=set(int(x) for x in a.pop(0).split(','))
    done=set()
    if os.path.exists(out) and not only:
        for l in open(out):
            d=json.loads(l); done.add((d['file'],d['id']))
    work=[]
    for f in a:
        o=subprocess.run(['/tmp/mutate','/repo/'+f],stdout=subprocess.PIPE,text=True).stdout
        for i,l in enumerate(o.splitlines()):
            m=json.loads(l); m['file']=f
            if i%step==0 and (f,m['id']) not in done and (not only or m['id'] in only): work.append(m)
    work.reverse(); total=len(work)
    lock=threading.Lock(); tlock=threading.Lock()
    # a fixed copy of the checker's sources, so that /verif may change meanwhile
    base=tempfile.mkdtemp(prefix='mutall.')
    subprocess.run('cp -r %s/mc %s/*.sh %s/known-findings.jsonl %s/'%(V,V,V,base),shell=True,check=True)
    def run(k):
        repo='%s/repo%d'%(base,k)
        subprocess.run(['git','clone','-q','/repo',repo],check=True)
        env=dict(os.environ, MC_REPO=repo, MC_BUILD='%s/build%d'%(base,k))
        while 1:
            with lock:
                if not work: return
                m=work.pop()
            t0=time.time()
            p=repo+'/'+m['file']; s=open(p,'rb').read()
            open(p,'wb').write(s[:m['start']]+m['new'].encode()+s[m['end']:])
            try:
                r=subprocess.run('go build ./...',shell=True,cwd=repo,env=seed.ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                if r.returncode: m['res']='nobuild'
                else:
                    r=subprocess.run(
                        'cd %s && ./build.sh norace >%s/build%d.log 2>&1 && . ./env.sh && timeout 1500 $B/mc check -prop ALL %s -workers 2 -budget 1200 -known none -replays %s/rep%d'%(base,base,k,skip(m['file']),base,k),
                        shell=True,executable='/bin/bash',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                    v=re.search(r'^scenario .*',r.stdout,re.M)
                    if r.returncode==1 and v: m['res']='caught'; m['by']=v.group(0)[:200]
                    else:
                        m['res']='survived' if r.returncode==0 else 'error %d'%r.returncode
                        m['out']=r.stdout[-300:]
                        notes=[l for l in r.stdout.splitlines() if l.startswith('note:')]
                        if notes: m['notes']=notes[:3]
                        if r.returncode==0 and race:
                            r=subprocess.run('cd %s && . ./env.sh && ./build.sh race >%s/build%d.log 2>&1 && timeout 1500 $B/mc check -prop C05 -racebin $B/mcrace -workers 2 -budget 150 -known none -replays %s/rep%d'%(base,base,k,base,k),
                                shell=True,executable='/bin/bash',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                            v=re.search(r'^scenario .*',r.stdout,re.M)
                            if r.returncode==1 and v: m['res']='caught'; m['by']='C05 '+v.group(0)[:200]
                        if m['res']=='survived':
                            with tlock:
                                miss=seed.tests(repo)
                                if miss: miss=seed.tests(repo)
                            m['tests']='fail' if miss else 'pass'
            finally:
                open(p,'wb').write(s)
            m['t']=round(time.time()-t0,1)
            with lock:
                open(out,'a').write(json.dumps(m)+'\n')
                if m['res'] not in('caught','nobuild'):
                    print('%d left, %s %s'%(len(work),m['res'],{k:m[k] for k in m if k in('file','line','op','old','new','tests')}),flush=True)
    try:
        ts=[threading.Thread(target=run,args=(k,)) for k in range(j)]
        [t.start() for t in ts]; [t.join() for t in ts]
    finally: shutil.rmtree(base)
main()
