import json,subprocess,os,shutil,time,re
d=json.load(open('/verif/known-findings.json'))
D='/tmp/adhoc-rv'
for f in d['fixed']:
    if isinstance(f,str):
        m=re.match(r'fixed: property=(\S+) (\S+) (.*)',f); prop,com,what=m.groups()
    else: prop,com,what=f['property'],f['commit'],f.get('what','')
    if os.path.exists(D): shutil.rmtree(D)
    subprocess.run(['git','clone','-q','--local','/repo',D],check=True)
    r=subprocess.run(['git','-C',D,'revert','-n',com],capture_output=True,text=True)
    if r.returncode: print(prop,com,'CONFLICT',what[:80],flush=True); continue
    env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
    b=subprocess.run(['go','build','./...'],cwd=D,env=env,capture_output=True,text=True)
    if b.returncode: print(prop,com,'NOBUILD',b.stderr[-200:],flush=True); continue
    t0=time.time()
    k=subprocess.run(['unshare','-Urm','bash','-c','mount --rbind /dev /dev; mount -o remount,ro,bind /dev; mount --bind /usr /usr; mount -o remount,ro,bind /usr; mount --bind %s /repo; cd /verif; timeout 850 python3 check.py %s'%(D,prop.split(',')[0])],capture_output=True,text=True)
    ls=[l for l in k.stdout.splitlines() if l.startswith('  ')]
    print(prop,com,{0:'QUIET',1:'caught'}.get(k.returncode,k.returncode),'%ds'%(time.time()-t0),what[:60],'|',ls[0][:80] if ls else '',flush=True)
