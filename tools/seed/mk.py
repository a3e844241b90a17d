import os, sys, json, subprocess, shutil, re
sys.path.insert(0,'/tmp/w/seed')
SCR='/tmp/w/seed/repo'
OUT='/verif/seeded'
def sh(c,cwd=None,t=600):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
    return r.returncode,r.stdout+r.stderr
def fresh():
    if not os.path.isdir(SCR): sh(f'cp -a /repo {SCR}')
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',SCR)
def make(b):
    fresh()
    orig=False
    for f,old,new in b['edits']:
        p=f'{SCR}/src/{f}'; s=open(p).read()
        n=s.count(old)
        assert n==1,(b['id'],f,n,old)
        s=s.replace(old,new); open(p,'w').write(s)
    rc,d=sh('git diff',SCR)
    # blame removed lines
    for f in {e[0] for e in b['edits']}:
        _,bl=sh(f'git blame -s HEAD -- src/{f}',SCR)
        lines=bl.splitlines()
        _,df=sh(f'git diff -U0 -- src/{f}',SCR)
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',df,re.M):
            a=int(m[1]); c=int(m[2]) if m[2] is not None else 1
            for k in range(a,a+c):
                if lines[k-1].startswith(('^9f47653','9f47653')) : orig=True
    dd=f"{OUT}/{b['id']}"; os.makedirs(dd,exist_ok=True)
    open(dd+'/patch.diff','w').write(d)
    open(dd+'/demo.rs','w').write(b['demo'])
    shutil.copy('kit.rs',dd+'/kit.rs'); shutil.copy('demo.sh',dd+'/demo.sh'); os.chmod(dd+'/demo.sh',0o755)
    json.dump({"property":b['p'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(dd+'/meta.json','w'),indent=1)
    return orig
def test(b):
    dd=f"{OUT}/{b['id']}"
    res={}
    rc,o=sh('cargo build --offline 2>&1 | tail -3; cargo test --offline 2>&1 | grep -E "^test |error|test result"',SCR)
    base=json.load(open('/opt/vp/BASELINE.json'))
    fails=[l for l in o.splitlines() if l.startswith('test ') and 'FAILED' in l]
    res['tests']='ok' if not fails and 'error' not in o else o[-1500:]
    rc,o=sh(f'bash {dd}/demo.sh',SCR,300); res['with']=(rc,o.strip().splitlines()[-2:])
    sh('git checkout -q -- .',SCR)
    rc,o=sh(f'bash {dd}/demo.sh',SCR,300); res['without']=(rc,o.strip().splitlines()[-2:])
    return res
def main():
    import importlib
    ids=sys.argv[2:]
    bugs=importlib.import_module(sys.argv[1]).BUGS
    for b in bugs:
        if ids and b['id'] not in ids: continue
        try:
            o=make(b); r=test(b)
        except Exception as e:
            print(b['id'],'ERR',repr(e)[:600],flush=True); continue
        good=o and r['tests']=='ok' and r['with'][0] not in (0,3,124) and r['without'][0]==0
        print(b['id'],'GOOD' if good else 'BAD','' if o else 'NOT-ORIG','' if good else r,r['with'][1] if good else '',flush=True)
main()
