import sys,os,json,subprocess,shutil
sys.path.insert(0,'/tmp/seed')
from bugs import B
only=set(sys.argv[1:])
WT='/tmp/wt'
def sh(*a,**k): return subprocess.run(a,capture_output=True,text=True,**k)
pre=open('/tmp/seed/prelude.rs').read()
for b in B:
    if only and b['id'] not in only: continue
    sh('git','-C',WT,'checkout','-q','--','.')
    ok=True
    for f,o,n in b['edits']:
        p=f'{WT}/{f}'; s=open(p).read()
        if o.endswith('$END'):
            o=o[:-5]; n=n[:-5]; i=s.rfind(o)
            if i<0: print(b['id'],'NOT FOUND',f); ok=False; break
            s=s[:i]+n+s[i+len(o):]
        else:
            c=s.count(o)
            if c<1: print(b['id'],'NOT FOUND',f,repr(o[:60])); ok=False; break
            if c>1: print(b['id'],'note: multiple',c,repr(o[:60]))
            i=s.find(o)
            s=s[:i]+n+s[i+len(o):]
        open(p,'w').write(s)
    if not ok: continue
    d=f"/verif/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
    diff=sh('git','-C',WT,'diff').stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.rs','w').write(pre+b['demo'].lstrip('\n'))
    shutil.copy('/tmp/seed/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    sh('git','-C',WT,'checkout','-q','--','.')
    print(b['id'],'written',len(diff.splitlines()))
