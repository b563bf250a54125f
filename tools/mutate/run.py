import subprocess,os,sys,re,shutil,threading,queue,time,json
OUT='/tmp/mut/results.jsonl'
SRC='/tmp/mut/src'   # harness copy
lines=open(sys.argv[1]).read().split('\n')
workers=int(sys.argv[2]) if len(sys.argv)>2 else 6
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        r=json.loads(l); done.add((r['file'],r['n']))
def props(f):
    if f.startswith('pkg/storage'): return ['S01','S03','S04','S05','S06','S02']
    if f=='pkg/dag/idx.go': return ['D01','D02','D03']
    if f.startswith('pkg/dag/utils'): return ['D04']
    if f.startswith('pkg/dag'): return ['D02','D05','D01','D03','I02']
    if f.startswith('pkg/common'): return ['P01','D03','O04','O07']
    if f.startswith('internal/index'): return ['I02','I01','I09','I03','I05','I04','I06','I10','I07','I08']
    if f.endswith(('parser.go','dictionary.go')): return ['O01','O02']
    if f.endswith('xmlutils.go'): return ['O08','O02','O01']
    if f.endswith('loader.go'): return ['O03','O04','O06','O02','O05','O07','O09']
    if f.startswith('pkg/opencorpora'): return ['O08','O01']
    if f.startswith('cmd/opencorpora_update'): return ['C02']
    return ['C01']
jobs=queue.Queue()
n=0
for l in lines:
    if not l: continue
    f,k,line,what=l.split(' ',3)
    if (f,int(k)) in done: continue
    if what.startswith('text ') and (('%' in what) or re.search(r'\w \w|: |cmd/',what[5:])): continue
    if re.search(r'drop: (loader|parser|logger|log)\.(Debug|Info|Warn|Error)|drop: debug\.',what): continue
    jobs.put((f,int(k),int(line),what)); n+=1
print(n,'jobs',flush=True)
lock=threading.Lock()
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOSUMDB='off',GO111MODULE='on',VERIF_SEED='1',VERIF_TIER='quick',VERIF_SHARDS='2')
def work(w):
    base='/tmp/mut/w%d'%w
    shutil.rmtree(base,ignore_errors=True); os.makedirs(base+'/home')
    subprocess.check_call(['cp','-a','/repo',base+'/repo'])
    subprocess.check_call(['cp','-r','/verif/harness',base+'/harness'])
    shutil.copy('/verif/known_findings.txt',base+'/home/')
    m=open(base+'/harness/go.mod').read().replace('=> /repo\n','=> %s/repo\n'%base); open(base+'/harness/go.mod','w').write(m)
    e=dict(env,VERIF_HOME=base+'/home',TMPDIR=base+'/tmp'); os.makedirs(base+'/tmp')
    while True:
        try: f,k,line,what=jobs.get_nowait()
        except queue.Empty: return
        orig=open('/repo/'+f).read()
        mut=subprocess.run(['/tmp/w/mutate','write','/repo/'+f,str(k)],capture_output=True,text=True).stdout
        open(base+'/repo/'+f,'w').write(mut)
        res=None; t0=time.time()
        built={}
        for p in props(f):
            cmd={'S':'storage','D':'dag','P':'dag'}.get(p[0],'index'); race=p=='I08'
            key=(cmd,race)
            if key not in built:
                r=subprocess.run(['go','build']+(['-race'] if race else [])+['-o',base+'/bin-%s-%s'%(cmd,race),'./cmd/'+cmd],cwd=base+'/harness',env=e,capture_output=True,text=True)
                if r.returncode: res=('nobuild',r.stderr[-200:]); break
                built[key]=1
            if p[0]=='C':
                r=subprocess.run(['go','build','-o',base+'/tmp/bin/','github.com/amarin/gomorphy/cmd/...'],cwd=base+'/harness',env=e,capture_output=True,text=True)
                if r.returncode: res=('nobuild',r.stderr[-200:]); break
            try:
                proc=subprocess.Popen([base+'/bin-%s-%s'%key,p],cwd=base+'/home',env=dict(e,VERIF_BUILD=base+'/tmp'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
                # check takes ID as argument
                out,_=proc.communicate(timeout=600)
                rc=proc.returncode
            except subprocess.TimeoutExpired:
                os.killpg(proc.pid,9); out='';rc=124
            if rc==1 and 'VIOLATION property='+p in out: res=('killed',p); break
            if rc!=0: res=('noanswer',p+' rc=%d '%rc+out[-300:]); break
        if res is None: res=('SURVIVED','')
        open(base+'/repo/'+f,'w').write(orig)
        subprocess.run('rm -rf /tmp/mut/w%d/tmp/*'%w,shell=True)
        with lock:
            open(OUT,'a').write(json.dumps(dict(file=f,n=k,line=line,what=what,res=res[0],info=res[1],sec=round(time.time()-t0,1)))+'\n')
ts=[threading.Thread(target=work,args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print('finished')
