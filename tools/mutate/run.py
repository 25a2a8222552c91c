import json,os,subprocess,sys,random,shutil,threading,queue,time,tempfile
# run.py IN OUT workers checks seed [all]
inp,outp,W,checks,seed=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4]),int(sys.argv[5])
SRC='/tmp/mut/src'
ENV=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',HOME='/root')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
muts=json.load(open(inp))
done={}
if os.path.exists(outp):
    for l in open(outp):
        d=json.loads(l); done[d['id']]=d
todo=[m for m in muts if m['id'] not in done]
q=queue.Queue()
for m in todo:q.put(m)
PROPS=['C03','C02','C16','C18','C14','C13','C20','C08','C09','C06','C19','C01','C04','C05','C07','C11','C12','C15','C17','C21','C22','C10']
BY={'builder':['C09'],'style':['C15'],'flags':['C16','C20','C18'],'config':['C16','C19','C14'],'values':['C17'],'template':['C17'],'overlays/documentquery':['C08'],'onmissing':['C09'],'delete':['C04'],'combine':['C05'],'format':['C13'],'aliases':['C22'],'yamlfile':['C14','C19'],'overlays/query':['C06']}
lock=threading.Lock()
def sh(cmd,cwd,env=ENV,timeout=180):
    p=subprocess.Popen(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try:
        o,_=p.communicate(timeout=timeout)
        return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9);p.wait();return -99,''
def one(m,w):
    repo=w+'/repo'
    f=repo+'/'+m['File']
    src=open(SRC+'/'+m['File'],'rb').read()
    try:
        open(f,'wb').write(src[:m['Start']]+m['New'].encode()+src[m['End']:])
        rc,o=sh(['go','build','-o',w+'/yot','./cmd/yot'],repo,dict(ENV,CGO_ENABLED='0'))
        if rc: 
            # unused variable/imports: not a mutant
            return dict(r='nobuild',o=o[-200:])
        if not m.get('notest'):
            shutil.rmtree(repo+'/internal/instructions/output',ignore_errors=True)
            rc,o=sh(['go','test','-json','-vet=off','-count=1','-parallel','1','-timeout','60s','./...'],repo,dict(ENV,CGO_ENABLED='0'))
            ps=set();fl=set()
            for l in o.splitlines():
                try:d=json.loads(l)
                except ValueError:continue
                if d.get('Test'):
                    k=d['Package']+'/'+d['Test']
                    if d['Action']=='pass':ps.add(k)
                    if d['Action']=='fail':fl.add(k)
            if stable-(ps-fl): return dict(r='tests')
        order=[]
        for k,v in BY.items():
            if k in m['File']:order+=v
        order+=[p for p in PROPS if p not in order]
        odd=[]
        for p in order:
            ho=tempfile.mkdtemp(dir=w)
            e=dict(ENV,YOT_BIN=w+'/yot',YOT_RACE_BIN=w+'/yot',VERIF_OUT=ho,TMPDIR=ho,GOMAXPROCS='1')
            rc,o=sh(['/tmp/mut/h.test','-test.run','^Test%s$'%p,'-rapid.checks=%d'%(max(5,checks//10) if p=='C10' else checks),'-rapid.seed=%d'%seed,'-rapid.nofailfile','-rapid.shrinktime=0s'],ho,e,timeout=600)
            ff=os.path.exists(ho+'/fail.json')
            shutil.rmtree(ho,ignore_errors=True)
            if rc==1 and ff: return dict(r='killed',by=p,odd=odd)
            if rc!=0: odd.append([p,rc,o[-300:]])
        return dict(r='SURVIVED' if not odd else 'ODD',odd=odd)
    finally:
        open(f,'wb').write(src)
def worker(i):
    w='/tmp/mut/w%d'%i
    shutil.rmtree(w,ignore_errors=True);os.makedirs(w)
    subprocess.check_call(['cp','-a',SRC,w+'/repo'])
    while True:
        try:m=q.get_nowait()
        except queue.Empty:break
        t=time.time()
        try:r=one(m,w)
        except Exception as e:r=dict(r='ERR',o=repr(e))
        r.update(id=m['id'],t=round(time.time()-t,1))
        with lock:
            with open(outp,'a') as f:f.write(json.dumps(r)+'\n')
    shutil.rmtree(w,ignore_errors=True)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
