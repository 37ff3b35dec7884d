"""plant(id, prop, edits, main or None, drive or None, needs, breaks, features='', deps='')"""
import os, subprocess, json, shutil, sys
K='/tmp/kit'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV='. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/plant-target; '
def plant(id, prop, edits, drive, needs, breaks, main=None, features='', deps='', runs=1):
    d='/tmp/plant-repo'
    if os.path.exists(d): shutil.rmtree('/tmp/plant-repo')
    sh('cp -a /repo /tmp/plant-repo; rm -rf /tmp/plant-repo/target; cd /tmp/plant-repo && git checkout -q -- .')
    out='/verif/seeded/'+id
    os.makedirs(out, exist_ok=True)
    for f,a,b,*n in edits:
        p=d+'/'+f; s=open(p).read()
        c=s.count(a)
        assert c==(n[0] if n else 1),(id,f,c,a)
        open(p,'w').write(s.replace(a,b))
    open(out+'/patch.diff','w').write(sh('cd %s && git diff'%d).stdout)
    open(out+'/meta.json','w').write(json.dumps({'property':prop,'needs':needs,'what_it_breaks':breaks},indent=1)+'\n')
    run='python3 "$here/drive.py" $work/target/debug/demo' if drive else '$work/target/debug/demo'
    t=open(K+'/demo.sh.tmpl').read().replace('@ID@',id).replace('@FEATURES@',features).replace('serde_json = "1"\n',deps+('\n' if deps else '')).replace('@RUN@',('timeout 120 '+run))
    open(out+'/demo.sh','w').write(t); os.chmod(out+'/demo.sh',0o755)
    open(out+'/main.rs','w').write(main or open(K+'/main.rs').read())
    shutil.copy(K+'/Cargo.lock.demo',out+'/Cargo.lock.demo')
    if drive:
        open(out+'/drive.py','w').write('import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom kit import *\n'+drive)
        shutil.copy(K+'/kit.py',out+'/kit.py')
    ok=True
    # every removed line must be original (commit ea2ef8e), and there must be one
    cur=None; removed=0
    for l in sh('cd /tmp/plant-repo && git diff -U0').stdout.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        m=__import__('re').match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            n=int(m.group(2) or 1)
            for k in range(int(m.group(1)),int(m.group(1))+n):
                bl=sh('cd /repo && git blame -s -l -L %d,%d -- %s'%(k,k,cur)).stdout
                removed+=1
                if not bl.lstrip('^').startswith('ea2ef8e') and 'ea2ef8e' not in bl[:45]: 
                    if bl.split(')',1)[1].strip() not in ('','}'): print(id,'NOT ORIGINAL:',bl.strip()); ok=False
    if not removed: print(id,'NO LINE REMOVED'); ok=False
    r=sh(ENV+'cd /tmp/plant-repo && (cargo test --workspace --no-run --offline && cargo check --workspace --all-features --offline && cargo check -p liso --no-default-features --offline) 2>&1')
    if r.returncode: print(id,'BUILD FAILS',r.stdout[-1500:]); return False
    r=sh(ENV+'cd /tmp/plant-repo && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 < /dev/null')
    passed=[l for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok')]
    failed=[l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    if len(passed)<13 or failed: print(id,'TESTS',len(passed),failed); ok=len(passed)>=13 and all('src/lib.rs - (' in f or 'Response' in f for f in failed)
    b=sh('cd /tmp/plant-repo && bash %s/demo.sh'%out)
    g=sh('cd /repo && bash %s/demo.sh'%out)
    print(id,'patched exit',b.returncode,repr(b.stdout[-300:]),'| clean exit',g.returncode,repr(g.stdout[-600:]))
    ok=ok and b.returncode not in (0,3) and g.returncode==0
    print(id,'OK' if ok else 'NOT OK')
    return ok
