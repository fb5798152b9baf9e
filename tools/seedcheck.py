#!/usr/bin/env python3
"""tools/seedcheck.py [ID ...]: runs the check of its property against every
planted bug (patch only, no tests, no demo) in a scratch clone of /repo and
prints one line of a table per bug: id, property, what it needs, verdict."""
import sys, os, subprocess, tempfile, shutil, json, re, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S=os.environ.get('SEEDED',V+'/seeded')
for id in sys.argv[1:] or sorted(os.listdir(S)):
    m=json.load(open(f'{S}/{id}/meta.json'))
    tmp=tempfile.mkdtemp(prefix='mut.'); repo=tmp+'/repo'
    try:
        subprocess.run(['git','clone','-q','/repo',repo],check=True)
        subprocess.run(['git','-C',repo,'apply',f'{S}/{id}/patch.diff'],check=True)
        env=dict(os.environ, MC_REPO=repo, MC_BUILD=V+'/.build/sc%d'%os.getpid(), MC_EVID=tmp+'/ev', MC_REPL=tmp+'/rep', VERIF_TIER='quick')
        t=time.time()
        c=subprocess.run('./check.sh '+m['property'],shell=True,cwd=V,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        sc=re.search(r'^scenario ([^,]*),',c.stdout,re.M)
        ok=c.returncode==1 and re.search(r'^VIOLATION',c.stdout,re.M)
        print('| %s | %s | %s | %d s |'%(id,m['property'],sc.group(1) if ok and sc else 'MISSED rc %d'%c.returncode,time.time()-t),flush=True)
    finally: shutil.rmtree(tmp)
shutil.rmtree(V+'/.build/sc%d'%os.getpid(),ignore_errors=True)
