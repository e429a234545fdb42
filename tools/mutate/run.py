"""Mutation campaign: python3 run.py WORKERS OUT.jsonl [file-substring...]
Applies each mutant listed by main.go to a scratch copy of /repo, drops those
that do not build or fail the tests, and runs the checks of that part of the
code until one reports a violation. Survivors are to be read by a person."""
import collections,json,os,random,shutil,subprocess,sys,threading,queue,time
W=int(sys.argv[1]); OUT=sys.argv[2]; SUB=sys.argv[3:]
BASE='/tmp/mut'; SCALE=int(os.environ.get('SCALE','1'))
kills=collections.defaultdict(collections.Counter)
MAP=[('prodos/',['C18','C05','C27','C20','C09','C17','C02','C23']),
('supermon/',['C28','C08','C18','C26','C07','C06','C14','C09','C23','C02']),
('dos3/',['C18','C03','C04','C27','C20','C09','C17','C02','C23']),
('basic/integer',['C12','C10','C22']),('basic/applesoft',['C11','C10','C22']),('basic/',['C22','C11']),
('disk/open',['C17','C01','C02','C24','C16','C15','C19','C23']),('disk/',['C19','C01','C02','C17','C13','C09']),
('types/',['C21','C03','C25','C24']),
('cmd/sd',['C13','C15','C25','C24','C16']),('cmd/reorder',['C01','C15','C24','C25','C16']),
('cmd/nakedos',['C14','C24','C15','C25','C16']),('cmd/applesoft',['C11','C22','C16','C25','C24','C15']),
('cmd/',['C15','C24','C25','C16','C03','C05','C06','C04','C21','C26']),
('',['C15','C24','C25','C16','C26','C13','C09'])]
env=dict(os.environ,GOMAXPROCS='2',VERIF_SEED='1',VERIF_TIER='quick')
def sh(cmd,cwd,t):
    p=subprocess.Popen(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True,executable='/bin/bash')
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode('utf8','replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 'timeout',''
def setup(i):
    w=f'{BASE}/w{i}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    sh(f'cp -a /repo {w}/repo && mkdir {w}/verif && cp -a /verif/harness /verif/run.sh /verif/KNOWN_FINDINGS.txt {w}/verif/ && sed -i s,/repo,{w}/repo,g {w}/verif/run.sh {w}/verif/harness/go.mod',w,60)
    if SCALE>1: sh(f"sed -i 's/^\tn := q$/\tn := (q+{SCALE-1})\\/{SCALE}/' {w}/verif/harness/vf/vf.go",w,9)
    return w
muts=[json.loads(l) for l in open('/tmp/muts.jsonl')]
muts=[m for m in muts if not SUB or any(s in m['file'] for s in SUB)]
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        m=json.loads(l); done.add((m['file'],m['off'],m['end'],m['text']))
muts=[m for m in muts if (m['file'],m['off'],m['end'],m['text']) not in done]
def dull(m):
    b=open('/repo/'+m['file'],'rb').read(); l=b[b.rfind(b'\n',0,m['off'])+1:b.find(b'\n',m['end'])].decode().strip()
    return (any(x in l for x in ('debug','panic(','var _ ','Fprintf(os.Stderr','fmt.Printf','_ = ')) or m['kind'].startswith('int') and ('LittleEndian' in l and 'high' in m['kind'] or 'make(' in l)
        or m['kind'].startswith('string') and ('return' in l and 'err' in l) or 'LittleEndian' in l and m['kind'].startswith('int') and b[m['end']:m['end']+1]==b']' and m['kind'].endswith('+1') or m['func'] in ('main','(decl)') and m['kind']=='string')
muts=[m for m in muts if not dull(m)]
print(len(muts),flush=True)
random.Random(5).shuffle(muts)
q=queue.Queue()
for m in muts:q.put(m)
lock=threading.Lock(); out=open(OUT,'a')
def work(i):
    w=setup(i)
    while True:
        try:m=q.get_nowait()
        except queue.Empty:return
        f=f'{w}/repo/{m["file"]}'; orig=open(f,'rb').read()
        open(f,'wb').write(orig[:m['off']]+m['text'].encode()+orig[m['end']:])
        t0=time.time(); res=''
        try:
            pre='. /opt/vp/env.sh; '
            rc,o=sh(pre+'go build ./... ',f'{w}/repo',120)
            if rc!=0: res='nobuild'
            else:
                rc,o=sh(pre+'go test -vet=off ./basic/... ./dos3 ./prodos ./supermon ./disk ./cmd ',f'{w}/repo',120)
                if rc!=0: res='tests'
            if not res:
                checks=next(c for p,c in MAP if m['file'].startswith(p))
                res='SURVIVED'
                k=kills[m['file']+m['func']]; kf=kills[m['file']]
                checks=sorted(checks,key=lambda c:(-k[c],-kf[c]))
                for c in checks:
                    rc,o=sh(f'bash run.sh {c}',f'{w}/verif',400)
                    if rc==1: res=c; k[c]+=1; kf[c]+=1; break
                    if rc=='timeout' or rc!=0 and SCALE==1: res=f'{c} rc {rc} '+o[-200:];break
        finally:
            open(f,'wb').write(orig)
        m['res']=res; m['t']=round(time.time()-t0,1)
        with lock: out.write(json.dumps(m)+'\n'); out.flush()
ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
