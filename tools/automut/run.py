# run.py OUT.jsonl [FILE...]: builds every small change automut lists, drops those the
# repository's own tests notice, and runs a small share of the quick checks on the rest.
# SHARE (default 0.02) and J (workers) are taken from the environment; ONLY=ids restricts.
import json,os,subprocess,sys,shutil,threading,queue,re
AM='/tmp/am'; SHARE=float(os.environ.get('SHARE','0.02')); J=int(os.environ.get('J','8'))
out=sys.argv[1]; files=sys.argv[2:] or [f for f in sorted(os.listdir('/repo')) if f.endswith('.go') and not f.endswith('_test.go')]
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOWORK='off',GOMAXPROCS='4')
quick={}
for f in os.listdir('/verif/harness'):
    if f.endswith('.go'):
        for a,b in re.findall(r'ID: "(C\d\d)", Quick: (\d+)',open('/verif/harness/'+f).read()): quick[a]=int(b)
REL={'matrix':'C01 C02 C31 C08 C09 C26 C28 C03 C05 C23','activation':'C31 C03 C05 C04 C06 C07 C10 C26','accuracy':'C17 C26 C16 C28','binomial':'C06 C07 C23','loss':'C08 C09 C04 C26 C10 C25 C19','layer_data':'C19 C20 C21 C22 C26','model_data':'C32 C19 C20 C21 C22 C25 C26 C14','misc':'C17 C18 C26 C04 C24 C28','model':'C32 C13 C14 C16 C26 C29 C25 C15 C07 C10 C17 C30','network':'C03 C05 C06 C07 C10 C24 C25 C26 C19 C28 C29 C04','nn':'C16 C32 C23','optimizers':'C11 C12 C25 C26 C14 C19 C15 C29 C28'}
def sh(c,cwd=None,timeout=300):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,env=ENV,errors='replace'); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,'timeout'
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add(d['id'])
only=set(os.environ.get('ONLY','').split()); q=queue.Queue()
for f in files:
    src=open('/repo/'+f).read()
    for l in sh(f'{AM}/automut {f}','/repo')[1].splitlines():
        m=json.loads(l); m['id']=f"{f}:{m['at']}:{m['len']}:{m['new']}"
        if (m['id'] not in done) and (not only or m['id'] in only): q.put(m)
print(q.qsize(),'to try',flush=True)
lock=threading.Lock()
def worker(k):
    w=f'{AM}/w{k}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    sh(f'git clone -q /repo {w}/repo; cp -r /verif/harness {w}/h; sed -i "s#=> /repo#=> {w}/repo#" {w}/h/go.mod; sed -i "s/cpuLimitPerCase = 90.0/cpuLimitPerCase = 8.0/" {w}/h/main.go; chmod 755 {AM} {w}; mkdir {w}/root')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=f"{w}/repo/{m['file']}"; b=open('/repo/'+m['file'],'rb').read()
        open(p,'wb').write(b[:m['at']]+m['new'].encode()+b[m['at']+m['len']:])
        rc,o=sh('go build .',f'{w}/repo')
        if rc: r='nobuild'
        else:
            rc,o=sh('timeout -k 5 20 go test -vet=off -count=1 .',f'{w}/repo')
            if rc: r='tests'
            else:
                rc,o=sh(f'go build -o {w}/nn .',f'{w}/h')
                r='survived'
                if rc: r='noharness '+o[-200:]
                else:
                    for id in REL[m['file'][:-3]].split() if os.environ.get('ALL')!='1' else sorted(quick,key=lambda i:(i not in REL[m['file'][:-3]],i)):
                        n=max(24,int(quick[id]*SHARE))
                        rc,o=sh(f'{w}/nn -prop {id} -tier quick -seed 1 -cases {n} -root {w}/root',timeout=600)
                        if rc==1 and 'VIOLATION' in o: r='caught '+id; break
                        if rc==124: r='timeout '+id; break
        open(p,'wb').write(b); sh('git checkout -q . && git clean -fdq',f'{w}/repo')
        m['result']=r
        with lock: open(out,'a').write(json.dumps(m)+'\n')
ts=[threading.Thread(target=worker,args=(k,)) for k in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
