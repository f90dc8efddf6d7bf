#!/usr/bin/env python3
"""mutrun.py MUTANTS.jsonl OUT.jsonl WORKERS [STAGES]
Runs every mutant in a scratch copy: build, the repository's tests, then the
replay drivers (and, with stage V, the contracts).  One result per line."""
import json,sys,os,subprocess,shutil,threading,queue,time
muts=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]; W=int(sys.argv[3]); stages=sys.argv[4] if len(sys.argv)>4 else 'R'
done=set()
if os.path.exists(out):
    for l in open(out):
        r=json.loads(l); done.add((r['file'],r['start'],r['end'],r['repl']))
slow=['C05','C22','C15','C13','C06']
order=['C17','C12','C07','C18','C20','C23','C03','C08','C16','C09','C10','C02','C14','C04','C21','C11','C01','C19',]
env=dict(os.environ,GOCACHE='/tmp/mutcache',GOFLAGS='-mod=mod',GOPROXY='off',GOMAXPROCS='2')
def pk(f):
    d=os.path.dirname(f)
    return {'state/record':'record','groups/state/record':'grecord','groups/state/store':'gstore','groups/ratchet':'gratchet','keys/session':'ksession'}.get(d,d.split('/')[-1])
q=queue.Queue(); lock=threading.Lock()
for m in muts:
    if (m['file'],m['start'],m['end'],m['repl']) not in done: q.put(m)
def sh(c,cwd,t):
    try:
        p=subprocess.run(c,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
        return p.returncode,p.stdout.decode('utf8','replace')
    except subprocess.TimeoutExpired: return 99,'timeout'
def work(i):
    d='/tmp/mw/%d'%i
    if not os.path.isdir(d): shutil.copytree('/repo',d,symlinks=True,ignore=shutil.ignore_patterns('.git'))
    mf='/tmp/mw/%d.mod'%i
    open(mf,'w').write(open('/verif/replay/go.mod').read().replace('=> /repo','=> '+d)); shutil.copy('/verif/replay/go.sum','/tmp/mw/%d.sum'%i)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=os.path.join(d,m['file']); src=open(os.path.join('/repo',m['file']),'rb').read()
        open(p,'wb').write(src[:m['start']]+m['repl'].encode()+src[m['end']:])
        r=dict(m); t0=time.time()
        try:
            rc,o=sh(['go','build','./...'],d,300)
            if rc: r['res']='nobuild'
            else:
                rc,o=sh(['go','test','-vet=off','-count=1','-timeout','120s','./...'],d,200)
                if rc: r['res']='tests'
                elif stages=='T': r['res']='alive'
                else:
                    b='/tmp/mw/replay%d'%i
                    rc,o=sh(['go','build','-modfile',mf,'-o',b,'.'],'/verif/replay',300)
                    if rc: r['res']='replay-nobuild'; r['out']=o[-300:]
                    else:
                        r['res']='survived'
                        for P in order+['V']+slow:
                            if P=='V':
                                rc,o=sh(['/tmp/gover','-repo',d,'verify','^'+pk(m['file'])+r'\.'],'/verif/gover',300)
                                bad=[l for l in o.split('\n') if l[:7] not in ('proved ','loaded ') and l.strip()]
                                bad=[l for l in bad if 'VerifySignature' not in l and 'CalculateSignature' not in l and not l.startswith(' ')]
                                if 'FAILED' in o: r['res']='contract'; r['by']='V'; r['out']='\n'.join(bad)[:400]; break
                                continue
                            rc,o=sh([b,'-prop',P,'-tier','quick','-seed','1'],'/tmp/mw',200)
                            if rc: r['res']='replay'; r['by']=P; r['out']=o[-300:]; break
        finally: open(p,'wb').write(src)
        r['t']=round(time.time()-t0,1)
        with lock:
            with open(out,'a') as f: f.write(json.dumps(r)+'\n')
ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
os.makedirs('/tmp/mw',exist_ok=True)
[t.start() for t in ts]; [t.join() for t in ts]
