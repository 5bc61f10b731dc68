"""auto.py LANE SEED COUNT FILE:CHECK,CHECK.. — random small mutations of a source file, each judged by the checks in order."""

import re,sys,random,subprocess,os,time
ROOT=os.environ.get('MUT_ROOT','/w2')   # ROOT/repoLANE and ROOT/verifLANE: scratch copies
NS=['unshare','-m','bash','-c','mount --bind %s/repo$0 /repo && mount --bind %s/verif$0 /verif && cd /verif && VERIF_SEED=1 python3 check.py $1 quick 2>&1'%(ROOT,ROOT)]
lane,seed,count=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
rng=random.Random(seed)
OPS=[(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.is_empty\(\)','.len() > 1'),(r'!(?=[a-z_]+\.(is|contains|starts|insert))',''),
 (r'Ordering::Less','Ordering::Greater'),(r'Ordering::Greater','Ordering::Less'),(r'\b([1-9]\d*)\b',lambda m:str(int(m.group(1))+1)),(r'\b0\b','1'),
 (r'"([a-z][a-zA-Z_/ -]+)"',lambda m:'"'+m.group(1)[:-1]+'"'),(r'Case::Pascal','Case::Snake'),(r'Case::Snake','Case::Pascal'),
 (r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),(r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),
 (r'\bSome\((\w+)\) =>',r'Some(\1) if false =>'),(r'\.insert\(','.remove(&'),(r'\.filter\(','.skip_while('),(r'\.any\(','.all('),(r'\.all\(','.any('),
 (r'\.trim_end_matches\(.*?\)',''),(r'\.to_ascii_lowercase\(\)',''),(r'\.clone\(\)\.unwrap_or_default\(\)',''),(r'\.as_deref\(\)',''),(r'\.sort\(\);',';'),(r'\.and_then\(',' .map('),
 (r'\.min\(','.max('),(r'\.next\(\)','.last()'),(r' \+ ',' - '),(r' - ',' + '),(r'\.chain\(.*?\)',''),(r'\.rev\(\)',''),(r'\?;',';'),
 (r'^(\s*)([a-z_.#]+\(.*\);)$',r'\1'),(r'^(\s*)\.(\w+)\((?:.*)\)$',r'\1'),(r'\|\|',' | '),(r'\.append\(','.insert('),(r'^(\s*)(\w+\.push.*;)$',r'\1'),(r'^(\s*)continue;$',r'\1'),(r'^(\s*)return .*;$',r'\1')]
def muts(lines):
    out=[];skip=False
    for k,l in enumerate(lines):
        if '#[cfg(test)]' in l: break
        s=l.strip()
        if re.match(r'fn make_(stream_)?doc_comment',s): skip=True
        elif l.startswith('}') and skip: skip=False
        if skip or s.startswith(('//','#[','use ','pub use','pub struct','Copyright')) or not s: continue
        if 'doc = ' in s or 'doc_' in s or 'err_msg' in s: continue
        for p,r in OPS:
            for m in re.finditer(p,l):
                n=l[:m.start()]+(m.expand(r) if isinstance(r,str) else r(m))+l[m.end():]
                if n!=l: out.append((k,l,n))
    return out
spec=sys.argv[4:]
allm=[]
for sp in spec:
    f,cs=sp.split(':'); lines=open(ROOT+'/repo%s/%s'%(lane,f)).read().split('\n')
    ms=muts(lines); allm+=[(f,cs.split(','),m) for m in ms]
byf={}
rng.shuffle(allm)
for f,cs,(k,a,b) in allm[:count]:
    p=ROOT+'/repo%s/%s'%(lane,f); t=open(p).read(); L=t.split('\n')
    if L[k]!=a: continue
    L[k]=b; open(p,'w').write('\n'.join(L)); res='SURVIVED'
    t0=time.time()
    try:
        for c in cs:
            r=subprocess.run(NS+[lane,c],stdout=subprocess.PIPE)
            o=r.stdout.decode('utf8','replace')
            if r.returncode==1: res='killed by '+c+' '+([x for x in o.splitlines() if x.startswith('violation:')]+['?'])[0][:90]; break
            if r.returncode==2:
                res='nobuild' if 'does not build' in o or 'error' in o else 'TOOL '+c+' '+o[-300:]; break
    finally: open(p,'w').write(t)
    print('%s:%d [%s] => [%s] %s (%.0fs)'%(f.split('/')[-1],k+1,a.strip()[:90],b.strip()[:90],res,time.time()-t0),flush=True)
