# Mutation driver: applies the mutants of sim/cmd/mutate one by one to copies of /repo and runs the
# checks against each that builds and passes the tests.
#   python3 tools/mutate.py WORKERS SECONDS_PER_CHECK [FILE-SUBSTRING...]
# Results: $MUT/results.jsonl (default /tmp/mut). Uses a snapshot of this directory, so that it can be edited meanwhile.
import subprocess,sys,os,json,random,shutil,time,threading,queue
MUT=os.environ.get('MUT','/tmp/mut'); OUT=MUT+'/results.jsonl'; SNAP=MUT+'/verif'; REPO=MUT+'/repo'; TOOL=MUT+'/mutate'
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(MUT,exist_ok=True)
for d,src in ((SNAP,V),(REPO,'/repo')):
    shutil.rmtree(d,ignore_errors=True); subprocess.check_call(['cp','-a',src,d])
subprocess.check_call('. /opt/vp/env.sh; cd %s/sim && go build -o %s ./cmd/mutate'%(SNAP,TOOL),shell=True)
NW=int(sys.argv[1]); BUD=sys.argv[2]; sel=sys.argv[3:]
ids=[l.split('\t') for l in subprocess.check_output([TOOL,'-repo',REPO],text=True).splitlines()]
done=set()
if os.path.exists(OUT):
    for l in open(OUT): done.add(json.loads(l)['id'])
todo=[x for x in ids if int(x[0]) not in done and (not sel or any(s in x[1] for s in sel))]
random.Random(7).shuffle(todo)
env=dict(os.environ); env['GOMAXPROCS']='2'
ALL=['C%02d'%i for i in range(1,28)]
first={'datastruct/skiplist':['C17'],'datastruct/zset':['C17'],'commandzset':['C17','C14'],'quicklist':['C15'],'commandlist':['C15','C14'],'datastruct/dict':['C16'],
 'datastruct/set':['C16'],'commandset':['C14','C16'],'commandhash':['C14','C16'],'aof':['C05','C02','C06'],'resp':['C11','C13'],'ae/ae':['C23','C24'],'socket':['C25'],'tcp':['C25'],'config':['C26','C27'],'log/':['C26'],'cmd/':['C26'],'client':['C12','C19']}
q=queue.Queue()
for t in todo: q.put(t)
lock=threading.Lock()
def sh(c,timeout,**k):
    try:
        p=subprocess.run(c,shell=isinstance(c,str),timeout=timeout,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k); return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e: return -99,(e.stdout or b'').decode(errors='replace')
def work(n):
    W=MUT+'/w%d'%n; B=MUT+'/b%d'%n
    shutil.rmtree(W,ignore_errors=True); subprocess.check_call(['cp','-a',REPO,W])
    e=dict(env); e['VERIF_REPO']=W; e['VERIF_BUILD']=B
    while True:
        try: i,where,what=q.get_nowait()
        except queue.Empty: return
        t0=time.time()
        subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
        subprocess.check_call([TOOL,'-repo',W,'-apply',i])
        r=dict(id=int(i),where=where,what=what)
        def fin(s,**k):
            r['res']=s; r.update(k); r['t']=round(time.time()-t0,1)
            with lock:
                open(OUT,'a').write(json.dumps(r)+'\n')
        rc,o=sh('. /opt/vp/env.sh; cd %s && go build ./...'%W,120,env=e)
        if rc: fin('nobuild'); continue
        rc,o=sh("unshare -Urn sh -c '. /opt/vp/env.sh; ip link set lo up; cd %s && GODEBUG=randautoseed=0 timeout 50 go test -vet=off -count=1 -timeout 40s ./...'"%W,70,env=e)
        if rc: fin('tests',out=o[-300:]); continue
        rc,o=sh('bash %s/tools/build.sh'%SNAP,200,env=e)
        if rc: fin('simbuild',out=o[-400:]); continue
        ordr=[]
        for k,v in first.items():
            if k in where: ordr+=v
        ordr+=[p for p in ['C14','C26','C07','C16','C05','C21','C20']+ALL if p not in ordr]
        seen=[];killed=None
        for p in ordr:
            if p in seen: continue
            seen.append(p)
            rc,o=sh([B+'/metisim','worker','-prop',p,'-workers','1','-budget',BUD],60,env=e)
            v=None
            for l in o.splitlines():
                if l.startswith('{"T":"viol"') or l.startswith('{"T":"error"'):
                    x=json.loads(l); v=(x.get('Rep') or {}).get('class','error')+': '+((x.get('Rep') or {}).get('message') or x.get('Msg') or '')
            if v: killed=(p,v[:200]); break
            if rc: killed=(p,'rc %d '%rc+o[-200:]); break
        if killed: fin('killed',by=killed[0],msg=killed[1])
        else: fin('SURVIVED')
ts=[threading.Thread(target=work,args=(n,)) for n in range(NW)]
[t.start() for t in ts];[t.join() for t in ts]
