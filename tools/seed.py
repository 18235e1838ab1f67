#!/usr/bin/env python3
"""seed.py DEFS [ids]  -- verify planted bugs in scratch copies, write /tmp/seedout/<id>"""
import sys,os,subprocess,json,shutil,importlib.util,queue,threading,re
spec=importlib.util.spec_from_file_location('defs',sys.argv[1]);defs=importlib.util.module_from_spec(spec);spec.loader.exec_module(defs)
ids=sys.argv[2:]
N=int(os.environ.get('N','4'))
OUT='/tmp/seedout'
env=dict(os.environ,RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never',RUSTC_WRAPPER='')
env['PATH']='/usr/local/bin:/root/.cargo/bin:'+env['PATH']
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(cmd,cwd,t=900,e=None):
    p=subprocess.run(cmd,cwd=cwd,shell=isinstance(cmd,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=e or env)
    return p.returncode,p.stdout.decode('utf8','replace')
def build(d):
    rc,o=sh('cargo build --offline && cargo test --no-run --offline && cargo test --no-run --offline --manifest-path waterbear-instruction-derive/Cargo.toml && mkdir -p target/libwaterbear-check && rustc --edition 2015 --crate-name waterbear --crate-type staticlib --emit=metadata --out-dir target/libwaterbear-check libwaterbear/src/lib.rs --extern waterbear=target/debug/libwaterbear.rlib -L dependency=target/debug/deps',d)
    return rc,o
def tests(d):
    rc,o=sh('cargo test --no-fail-fast --offline -- --test-threads 4; cargo test --no-fail-fast --offline --manifest-path waterbear-instruction-derive/Cargo.toml -- --test-threads 4',d)
    bad=re.findall(r'^test (\S+) \.\.\. FAILED',o,re.M); ok=re.findall(r'^test (\S+) \.\.\. ok',o,re.M)
    return bad,ok
def one(b,d):
    out=f'{OUT}/{b["id"]}'
    if os.path.exists(out): shutil.rmtree(out)
    os.makedirs(out)
    sh('git checkout -q -- .',d)
    for f,old,new in b['edits']:
        p=f'{d}/{f}';s=open(p).read()
        c=s.count(old)
        if c!=1: return f'{b["id"]}: EDIT matches {c} times: {old[:60]!r}'
        open(p,'w').write(s.replace(old,new))
    rc,diff=sh('git diff',d)
    open(f'{out}/patch.diff','w').write(diff)
    # removed lines original?
    orig=0;tot=0
    rc,bl=sh("git diff -U0",d)
    cur=None
    for l in bl.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m and int(m.group(2) or 1)>0:
            a=int(m.group(1));n=int(m.group(2) or 1)
            rc,x=sh(['git','blame','-s','-L',f'{a},{a+n-1}','HEAD','--',cur],d)
            for y in x.splitlines():
                tot+=1
                if y.startswith('^') or y.startswith('cecff63'): orig+=1
    pre='#!/bin/bash\n# exit 0: the behaviour is right; nonzero: the planted bug shows\nset -u\nWB="$PWD/target/debug/waterbear"\nHERE="$(cd "$(dirname "$0")" && pwd)"\nD="$(mktemp -d)"\ntrap \'rm -r -- "$D"\' EXIT\ncd "$D" || exit 2\nhex() { od -An -v -tx1 "$1" | tr -d \' \\n\'; }\n'
    open(f'{out}/demo.sh','w').write(pre+b['demo'].strip('\n')+'\n'); os.chmod(f'{out}/demo.sh',0o755)
    for n,c in b.get('files',{}).items(): open(f'{out}/{n}','w').write(c)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(f'{out}/meta.json','w'),indent=1)
    rc,o=build(d)
    if rc: return f'{b["id"]}: BUILD FAILS\n'+o[-1500:]
    bad,ok=tests(d)
    if bad or len(ok)<len(stable): return f'{b["id"]}: TESTS {bad} ok={len(ok)}/{len(stable)}'
    rc1,o1=sh(['bash',f'{out}/demo.sh'],d,300)
    rc0,o0=sh(['bash',f'{out}/demo.sh'],'/repo',300)
    st=f'{b["id"]}: orig {orig}/{tot} demo clean={rc0} patched={rc1}'
    if rc0 or not rc1: return st+' BAD\nclean:'+o0[-600:]+'\npatched:'+o1[-600:]
    if orig==0: st+=' NOORIG'
    if os.environ.get('CHECK','1')=='1':
        e=dict(os.environ,WB_REPO=d,WB_TARGET=d+'-t',VERIF_SEED='1',VERIF_TIER='quick',WB_THREADS=str(max(2,8//N)))
        e.pop('RUSTUP_TOOLCHAIN',None)
        for c in [b['prop']]+b.get('also',[]):
            try: rc,o=sh(['/tmp/vcopy/run.sh',c],'/tmp/vcopy',1500,e)
            except subprocess.TimeoutExpired: rc,o=-9,'timeout'
            v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            st+=f'\n   {c}: rc={rc} {"CAUGHT" if rc==1 and v else "MISSED"} {v[:1]}'
            if not v: st+='\n'+o[-700:]
            else: 
                tail=[l for l in o.splitlines() if l.strip()][-6:]
                open(f'/tmp/seedout/{b["id"]}.{c}.log','w').write(o)
    return st
q=queue.Queue()
for b in defs.BUGS:
    if not ids or b['id'] in ids: q.put(b)
def worker(i):
    d=f'/tmp/sb{i}'
    if not os.path.exists(d): subprocess.run(['cp','-a','/repo',d])
    else:
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',d)
    while True:
        try: b=q.get_nowait()
        except queue.Empty: break
        try: print(one(b,d),flush=True)
        except Exception as e: print(b['id'],'EXC',repr(e),flush=True)
    sh('git checkout -q -- .',d)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(N)]
[t.start() for t in ts];[t.join() for t in ts]
