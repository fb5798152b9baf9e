#!/usr/bin/env python3
"""Builds, validates and tries planted bugs.

tools/seed.py [-n] [-c PROP,PROP] [ID ...]   (-n: do not run the checks)

Each tools/seeds/*.bug is a text:  property / needs / breaks lines, edits
(@@ file, <<<, ===, >>>) and a demo (after a line "demo:").  Everything is
done in scratch copies of /repo under /tmp, which are removed.
"""
import json, os, re, shutil, subprocess, sys, glob, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S=V+'/tools/seeds'
ENV=dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
         GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOPATH='/root/go', GOCACHE='/root/.cache/go-build')
STABLE=json.load(open('/opt/vp/BASELINE.json'))

def parse(path):
    t=open(path).read()
    head,demo=t.split('\ndemo:\n',1)
    d={'race':False}
    for k in ('property','needs','breaks'):
        d[k]=re.search(r'^%s: (.*)$'%k, head, re.M).group(1)
    d['race']=bool(re.search(r'^race: yes', head, re.M))
    edits=[]
    for m in re.finditer(r'^@@ (\S+)\n<<<\n(.*?)\n?===\n(.*?)\n?>>>$', head, re.M|re.S):
        edits.append(m.groups())
    d['edits']=edits; d['demo']=demo
    return d

def sh(cmd, cwd, timeout=900, env=ENV):
    p=subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def tests(repo):
    rc,out=sh('go test -json -vet=off -count=1 -cpu 1 -timeout 2m ./...', repo)
    ok=set()
    for l in out.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'):
            ok.add((e['Package'],e['Test']))
    names={t for _,t in ok}
    want={'Test_Connection/anomalous_connection','Test_Connection/double_connect_before_disconnecting','Test_Connection/multiple_chargepoints','TestMeterValues','TestSOAPUnmarshal'}
    return sorted(want-names)

def one(id, run_checks, props):
    d=parse(S+'/%s.bug'%id)
    out=V+'/seeded/'+id
    tmp=tempfile.mkdtemp(prefix='seed.')
    repo=tmp+'/repo'
    try:
        subprocess.run(['git','clone','-q','/repo',repo],check=True)
        for f,o,n in d['edits']:
            s=open(repo+'/'+f).read()
            pat=re.compile(''.join(r'[ \t]+' if w.strip(' \t')=='' and w else re.escape(w) for w in re.split(r'((?<=\S)[ \t]+)',o)))
            k=len(pat.findall(s))
            if k!=1: return 'edit of %s matches %d times: %r'%(f,k,o[:60])
            open(repo+'/'+f,'w').write(pat.sub(lambda m:n,s))
        rc,o=sh('gofmt -w '+' '.join(sorted({f for f,_,_ in d['edits']})),repo)
        patch=subprocess.run(['git','diff'],cwd=repo,stdout=subprocess.PIPE,text=True).stdout
        # lines of the original repository must change
        files={}
        for m in re.finditer(r'^--- a/(.*?)\n.*?(?=^diff|\Z)',patch,re.M|re.S): files[m.group(1)]=1
        base=0
        for f in {f for f,_,_ in d['edits']}:
            bl=subprocess.run(['git','blame','-s','HEAD','--',f],cwd=repo,stdout=subprocess.PIPE,text=True).stdout.splitlines()
            mine=[not l.startswith('^') for l in bl]
            df=subprocess.run(['git','diff','-U0','--',f],cwd=repo,stdout=subprocess.PIPE,text=True).stdout
            cur=0; rem=[]
            for l in df.splitlines():
                m=re.match(r'@@ -(\d+)',l)
                if m: cur=int(m.group(1)); continue
                if l.startswith('-') and not l.startswith('---'):
                    rem.append(mine[cur-1]); cur+=1
            base+=sum(1 for x in rem if not x)
            if any(rem): print('   note: %s changes %d lines of our own commits'%(f,sum(rem)))
        if base==0: print('   note: no line of the original repository is changed')
        os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(patch)
        open(out+'/demo.go','w').write(d['demo'])
        shutil.copy(S+'/helper.go.txt',out+'/helper.go')
        open(out+'/demo.sh','w').write(open(S+'/demo.sh.txt').read().replace('RACE','-race ' if d['race'] else ''))
        os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':d['property'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(out+'/meta.json','w'),indent=1)
        sh('gofmt -w demo.go',out)
        rc,o=sh('go build ./...',repo)
        if rc: return 'does not build: '+o[-500:]
        miss=tests(repo)
        if miss: miss=tests(repo)
        if miss: return 'existing tests fail: %s'%miss
        rc,o=sh('bash %s/demo.sh'%out,repo,320)
        if rc==0: return 'the demo passes with the patch'
        if rc==2 and 'FAILED' not in o and 'panic' not in o: return 'the demo does not build: '+o[-800:]
        msg=o.strip().splitlines()[-1] if o.strip() else ''
        m=re.search(r'FAILED.*|panic:.*|DATA RACE',o)
        print('   demo with the patch: rc %d %s'%(rc,(m.group(0) if m else msg)[:200]))
        clean=tmp+'/clean'
        subprocess.run(['git','clone','-q','/repo',clean],check=True)
        for _ in range(2):
            rc,o=sh('bash %s/demo.sh'%out,clean,320)
            if rc: return 'the demo fails on the unchanged tree: '+o[-500:]
        if not run_checks: return 'valid'
        bld=V+'/.build/seed'
        e=dict(os.environ, MC_REPO=repo, MC_BUILD=bld)
        res=[]
        for p in (props or [d['property']]):
            c=subprocess.run('./check.sh '+p,shell=True,cwd=V,env=dict(e,MC_EVID=tmp+'/ev',MC_REPL=tmp+'/replays'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            v=re.search(r'^VIOLATION.*',c.stdout,re.M)
            sc=re.search(r'^scenario .*',c.stdout,re.M)
            res.append('%s: %s (rc %d) %s'%(p,'CAUGHT' if c.returncode==1 and v else 'MISSED',c.returncode,sc.group(0)[:260] if sc else c.stdout[-300:]))
        return ' | '.join(res)
    finally:
        shutil.rmtree(tmp)

if __name__=='__main__':
    a=sys.argv[1:]; run=True; props=None
    while a and a[0].startswith('-'):
        o=a.pop(0)
        if o=='-n': run=False
        if o=='-c': props=a.pop(0).split(',')
    ids=a or sorted(os.path.basename(p)[:-4] for p in glob.glob(S+'/*.bug'))
    for i in ids:
        print('==',i,flush=True)
        print('  ',one(i,run,props),flush=True)
