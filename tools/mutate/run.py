#!/usr/bin/env python3
"""run.py OUT.jsonl [WORKERS] [FILE...]: mutation run over /repo's files, in
scratch clones. For each mutant that builds and passes the stable tests, runs
the checks that concern the file until one reports a violation."""
import json, random, os, re, subprocess, sys, threading, queue, shutil
BASE='/tmp/mut'
out, workers = sys.argv[1], int(sys.argv[2])
files = sys.argv[3:]
V=BASE+'/verif'
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOCACHE=BASE+'/cache',VERIF_SCALE=os.environ.get('VERIF_SCALE','0.4'),VERIF_SEED='7',VERIF_SHRINK='2')
MAP=[
 ('internal/codec/hex','C17 C04 C05'),('internal/codec/gbk','C17 C05'),('internal/codec/hash','C11 C09'),('internal/codec/region','C05'),
 ('internal/server/','C19 C20 C18 C08 C12 C02 C23 C22'),('internal/config','C25 C24'),
 ('internal/protocol/model/header','C04 C05 C01 C08 C20 C07'),('internal/protocol/model/device_params','C06 C05 C23 C24'),('internal/protocol/model/device_args','C06 C05 C24'),
 ('internal/protocol/model/device_media','C05 C24 C20'),('internal/protocol/model/device.go','C14 C15 C16 C11 C09 C22 C05 C20'),('internal/protocol/model/session','C20 C19 C21'),('internal/protocol/model/segment','C07'),
 ('internal/protocol/model/msg_8','C05 C08 C20 C23 C24'),('internal/protocol/model/msg_9','C05 C20 C24'),('internal/protocol/model/msg_0','C05 C08 C11 C09 C16 C24 C18'),('internal/protocol/model/msg','C05 C24 C18'),
 ('internal/protocol/msg_processor','C08 C09 C11 C12 C13 C14 C15 C16 C07 C24 C10 C18 C20 C22 C23 C05'),('internal/protocol/pipeline','C08 C02 C07 C12 C18 C24 C20'),('internal/protocol/keepalive','C14 C15 C13 C08 C21'),
 ('internal/protocol/packet_codec','C01 C02 C04 C07 C08 C12 C18'),('internal/protocol/frame_handler','C03 C01 C20 C18 C19'),
 ('internal/api','C22 C23 C25'),('internal/storage/param','C21 C24 C06'),('internal/storage/segment','C07 C12 C18'),('internal/storage/geo','C16 C13 C21 C22'),('internal/storage/device','C21 C10 C09 C13'),('internal/storage/session','C21 C19 C20'),
 ('internal/client','C24'),('pkg/routines','C18 C24'),('pkg/logger','C25'),('pkg/container','C16 C21'),('main.go','C25 C22'),('test/client','C24'),('test/datagen','C24'),
]
def props(f):
    for k,v in MAP:
        if f.startswith(k): return v.split()
    raise SystemExit('no map for '+f)
def sh(cmd,cwd,t=120):
    try: return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,timeout=t,errors='replace')
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd,124,'','timeout')
def tests(cwd):
    p=sh(['go','test','-json','-vet=off','-count=1','-timeout','60s','./...'],cwd)
    ok=set()
    for l in p.stdout.splitlines():
        try: d=json.loads(l)
        except ValueError: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add((d['Package'],d['Test']))
    return ok
if not os.path.exists(V):
    subprocess.run(['git','clone','-q','/verif',V],check=True)
    shutil.rmtree(V+'/seeded',ignore_errors=True)
stable=set()
base=None
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d['file'],d['index']))
q=queue.Queue(); todo=[]
for f in files:
    for l in subprocess.run(['/tmp/mutate','list','/repo/'+f],capture_output=True,check=True).stdout.decode(errors='replace').strip().split('\n'):
        if not l: continue
        i,line,op,desc=l.split('\t',3)
        dull=op=='argswap' and 'errors.Is' in desc or op=='stmtswap' and ('defer ' in desc or '.Lock()' in desc) or op in('string','stmtswap') or 'log.' in desc.split('<>')[0] and op in('del','stmtswap')
        if (f,int(i)) not in done and not dull: todo.append((f,int(i),int(line),op,desc))
random.Random(1).shuffle(todo)
for x in todo: q.put(x)
print(q.qsize(),'mutants',flush=True)
lock=threading.Lock()
def work(n):
    global base
    wt=f'{BASE}/w{n}'
    subprocess.run(['rm','-rf',wt]); subprocess.run(['git','clone','-q','/repo',wt],check=True)
    with lock:
        if base is None: base=tests(wt); print('baseline',len(base),flush=True)
    while True:
        try: f,i,line,op,desc=q.get_nowait()
        except queue.Empty: return
        p=os.path.join(wt,f); orig=open(p).read()
        mut=subprocess.run(['/tmp/mutate','apply','/repo/'+f,str(i)],capture_output=True).stdout.decode()
        res='?'; log=''
        try:
            open(p,'w').write(mut)
            sh(['goimports','-w',p],wt)
            if sh(['go','build','./...'],wt).returncode: res='nobuild'
            elif base-tests(wt): res='tests'
            else:
                res='SURVIVED'
                for c in props(f):
                    r=sh(['python3',V+'/check.py',c,'--repo',wt,'--shards','2'],V,880)
                    if r.returncode==1: res=c; log=r.stdout[:300]; break
                    if r.returncode!=0: log+=f'[{c} rc={r.returncode}: {r.stdout[-300:]}]'
        finally:
            open(p,'w').write(orig)
        with lock:
            open(out,'a').write(json.dumps(dict(file=f,index=i,line=line,op=op,desc=desc,res=res,log=log),ensure_ascii=False)+'\n')
ts=[threading.Thread(target=work,args=(n,)) for n in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
