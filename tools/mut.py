# quick trials of changes: python3 mut.py FILE [ID...]; FILE defines MUTS = [(id, props, [(file, old, new[, k])])]
# old matches with any white space; k picks the k-th match (default: must be unique; 'all' replaces all).
import re,sys,subprocess,os,shutil,concurrent.futures as cf
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
def rx(s):
    return re.compile(r'\s+'.join(re.escape(t) for t in s.split()))
def apply(w,edits):
    for e in edits:
        f,old,new=e[:3]; k=e[3] if len(e)>3 else None
        p=f'{w}/{f}'; s=open(p).read(); ms=list(rx(old).finditer(s))
        if not ms: return f'NOT FOUND {f} {old[:50]!r}'
        if k=='all':
            for m in reversed(ms): s=s[:m.start()]+new+s[m.end():]
        else:
            if k is None:
                if len(ms)>1: return f'AMBIGUOUS {len(ms)} {old[:50]!r}'
                k=0
            m=ms[k]; s=s[:m.start()]+new+s[m.end():]
        open(p,'w').write(s)
    return ''
def sh(c,cwd=None):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); return p.returncode,p.stdout
def one(m):
    id,props,edits=m; w='/tmp/mut/w-'+id
    shutil.rmtree(w,ignore_errors=True)
    rc,o=sh(f'git clone -q /repo {w}')
    e=apply(w,edits)
    if e: return f'{id}: EDIT {e}'
    sh('goimports -w *.go',w)
    rc,o=sh('go build . && go vet . 2>&1 | head -5',w)
    if rc or 'vet:' in o: return f'{id}: BUILD {o}'
    t=''
    if not os.environ.get('NOTEST'):
        rc,o=sh('go test . 2>&1 | tail -30',w)
        if 'FAIL' in o: t=' [TESTS FAIL '+' '.join(l for l in o.split('\n') if '--- FAIL' in l)[:100]+']'
    rc,o=sh(f'V=1 W=170 {os.path.dirname(os.path.abspath(__file__))}/try.sh {w} {props}')
    return f'{id}{t}: '+o.strip().replace('\n',' || ')
if __name__=='__main__':
    ns={}; exec(open(sys.argv[1]).read(),ns)
    only=sys.argv[2:]
    with cf.ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
        for r in ex.map(one,[m for m in ns['MUTS'] if not only or m[0] in only]): print(r,flush=True)
