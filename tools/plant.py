import os,sys,json,subprocess,shutil
REPO='/repo'; S='/verif/seeded'; I='include/boost/astronomy/'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def plant(id,prop,edits,demo,needs,breaks):
    """creates the patch in a scratch clone, tests demo and check there"""
    W='/tmp/pl/'+id
    shutil.rmtree(W,ignore_errors=True); os.makedirs('/tmp/pl',exist_ok=True)
    sh('git clone -q %s %s'%(REPO,W))
    for f,old,new in edits:
        p=os.path.join(W,I+f); t=open(p,newline='').read()
        crlf='\r\n' in t
        if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if t.count(old)!=1: return (id,'EDIT count %d in %s'%(t.count(old),f))
        open(p,'w',newline='').write(t.replace(old,new))
    d=S+'/'+id; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    diff=subprocess.run(['git','-C',W,'diff'],stdout=subprocess.PIPE).stdout
    open(d+'/patch.diff','wb').write(diff)
    # removed lines must be original
    orig=True
    for f,old,new in edits:
        b=sh('git -C %s diff -U0 -- %s%s'%(W,I,f)).stdout
        import re
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?',b,re.M):
            a=int(m.group(1)); n=int(m.group(2) or 1)
            if n:
                bl=sh('git -C %s blame -s -L %d,+%d HEAD -- %s%s'%(REPO,a,n,I,f)).stdout
                base='2bcb583'
                for l in bl.splitlines():
                    if not l.startswith('^'):
                        c=l.split()[0]
                        if sh('git -C %s merge-base --is-ancestor %s 2bcb583'%(REPO,c)).returncode: orig=False
    shutil.copy('/tmp/w/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    if 'mini.hpp' in demo: shutil.copy('/tmp/w/mini.hpp',d+'/mini.hpp')
    open(d+'/demo.cpp','w').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    a=sh('bash %s/demo.sh'%d,cwd=REPO); b=sh('bash %s/demo.sh'%d,cwd=W)
    # keep evidence untouched: run from a copy of verif
    V='/tmp/pl/v_'+id; shutil.rmtree(V,ignore_errors=True); os.makedirs(V)
    sh('cp -r /verif/run.py /verif/checks.json /verif/known-findings.txt /verif/harness %s/'%V)
    c=sh('VERIF_REPO=%s python3 run.py %s quick'%(W,prop),cwd=V)
    shutil.rmtree(W); shutil.rmtree(V)
    return (id,prop,'orig' if orig else 'NOT-ORIGINAL','demo clean=%d bug=%d'%(a.returncode,b.returncode) + ('' if a.returncode==0 else a.stdout[-600:]) + (b.stdout[-300:] if b.returncode==3 else ''),'CAUGHT' if c.returncode==1 else 'missed rc=%d'%c.returncode, c.stdout[-300:] if c.returncode!=1 else '')
def tests():
    """with the patches applied one by one: build and run the stable tests in /repo"""
    base=json.load(open('/opt/vp/BASELINE.json'))
def run(bugs,only=None):
    from concurrent.futures import ThreadPoolExecutor
    bugs=[b for b in bugs if not only or b[0] in only]
    with ThreadPoolExecutor(3) as e:
        for r in e.map(lambda b:plant(*b),bugs): print(*r,flush=True)
