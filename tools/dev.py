#!/usr/bin/env python3
# dev: run a harness directly: dev.py harness.c entry [k=v...] [-x file.c] [-t secs] [-n]
import os,sys,time; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vbuild, vrun
h=sys.argv[1]; entry='harness'; args={}; ex=[]; secs=120; nat=False; procs=8; defs=[]
i=2
while i<len(sys.argv):
    a=sys.argv[i]
    if a=='-x': i+=1; ex.append(sys.argv[i])
    elif a=='-t': i+=1; secs=float(sys.argv[i])
    elif a=='-n': nat=True
    elif a=='-p': i+=1; procs=int(sys.argv[i])
    elif a.startswith('-D'): defs.append(a)
    elif '=' in a: k,v=a.split('='); args[int(k)]=int(v)
    else: entry=a
    i+=1
import registry; ex=ex or registry.excluded(os.path.basename(h))
t=time.time()
import shutil; symx=vbuild.engine()+'dev'; shutil.copy(symx[:-3],symx+str(os.getpid())); os.rename(symx+str(os.getpid()),symx); bcs,g,tr=vbuild.bitcode(ex)
w='/tmp/work-'+os.path.basename(h).replace('.c','')
bc=vrun.link(os.path.abspath(h) if os.path.exists(h) else h,ex,w,g,bcs,defs); print('link',round(time.time()-t,1))
r=vrun.engine_run(symx,bc,w+'/out',entry,args,secs,procs)
print(r['log'][-6000:]); print({k:v for k,v in r.items() if k not in('log','functions')}); print(len(r.get('functions',[])),'functions')
if nat:
    t=time.time(); exe=vrun.native_build(os.path.abspath(h) if os.path.exists(h) else h,ex,w+'/nat',entry,defs); print('native',round(time.time()-t,1))
    import glob
    for c in sorted(glob.glob(w+'/out/*.case')):
        rc,o=vrun.replay(exe,c,args); print(os.path.basename(c),rc,o[-7000 if rc else -150:].strip())
