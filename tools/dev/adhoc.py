import subprocess, sys, os, time, shutil
M=[]
exec(open(sys.argv[1]).read())
D=sys.argv[2] if len(sys.argv)>2 else '/tmp/adhoc/r0'
if os.path.exists(D): shutil.rmtree(D)
os.makedirs(os.path.dirname(D),exist_ok=True)
shutil.copytree('/repo',D,symlinks=True)
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
for name, edits, checks in M:
    ok=True
    for f,old,new in edits:
        p=os.path.join(D,f); s=open(p).read()
        if s.count(old)!=1: print(name,'BAD',s.count(old),repr(old)); ok=False; break
        open(p,'w').write(s.replace(old,new))
    try:
        if not ok: continue
        t=subprocess.run(['timeout','100','go','test','-vet=off','-count=1','./...'],capture_output=True,text=True,cwd=D,env=env)
        failed=[l for l in t.stdout.splitlines() if l.startswith('FAIL') or l.startswith('--- FAIL')]
        if t.returncode: print(name,'TESTS',failed[:3],t.stderr[-300:])
        if 'build failed' in t.stdout: print(t.stdout[-500:]); continue
        out=[]
        for c in checks.split():
            t0=time.time()
            k=subprocess.run(['unshare','-Urm','bash','-c','mount --rbind /dev /dev; mount -o remount,ro,bind /dev; mount --bind /usr /usr; mount -o remount,ro,bind /usr; mount --bind %s /repo; cd /verif; timeout 850 python3 check.py %s'%(D,c)],capture_output=True,text=True)
            out.append('%s:%s(%ds)'%(c,{0:'QUIET',1:'caught'}.get(k.returncode,k.returncode),time.time()-t0))
            if k.returncode==1:
                ls=[l for l in k.stdout.splitlines() if l.startswith('  ')]
                out.append(ls[0][:160] if ls else ''); break
        print(name,' '.join(out),flush=True)
    finally:
        subprocess.run(['git','-C',D,'checkout','-q','--','.'])
shutil.rmtree(D)
