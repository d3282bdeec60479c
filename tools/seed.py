#!/usr/bin/env python3
"""Plant bugs: `seed.py FILE.py` where FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Each is tried in a scratch copy: it has to compile, pass the tests, and its demonstration has to tell the two trees apart.
What is confirmed is written to /verif/seeded/<id>/."""
import subprocess,sys,os,json,shutil,re
SD='/tmp/sd/repo'; BASE='389b814'
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='1.88.0-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUSTC_WRAPPER='')
DEMO='''#!/bin/bash
# Run in the repository: exit 0 when the property holds in this demonstration.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$t/"
cat >"$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
serde = "1"
serde_derive = "1"
serde_yaml = { path = "$repo" }
[workspace]
END
export CARGO_TARGET_DIR=$t/target
cd "$t" || exit 2
cargo build -q --offline 2>"$t/log" || { tail -20 "$t/log" >&2; exit 2; }
timeout 60 "$t/target/debug/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,env=ENV,**k)
def reset(): sh(f'git -C {SD} checkout -q -- . && git -C {SD} fetch -q /repo HEAD && git -C {SD} reset -q --hard FETCH_HEAD')
def tests():
    r=sh('cargo test --workspace --offline 2>&1',cwd=SD)
    fails=re.findall(r'^test (\S+).*FAILED',r.stdout,re.M)
    n=len(re.findall(r'^test .* ok$',r.stdout,re.M))
    return r.returncode,n,fails,r.stdout
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
for b in ns['BUGS']:
    i=b['id']
    if only and i not in only: continue
    reset()
    bad=None
    for f,old,new in b['edits']:
        p=f'{SD}/{f}'; s=open(p).read()
        if s.count(old)!=1: bad=f'{f}: {s.count(old)} matches of {old!r}'; break
        open(p,'w').write(s.replace(old,new))
    if bad: print(i,'EDIT',bad); continue
    diff=sh(f'git -C {SD} diff').stdout
    # lines taken away must be the original's
    mine=set(l[1:].strip() for l in sh(f'git -C {SD} diff {BASE} HEAD').stdout.splitlines() if l.startswith('+') and not l.startswith('+++'))
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---') and len(l.strip())>4 and l[1:].strip() in mine: print(i,'warning: line of a fix commit:',l)
    rc,n,fails,out=tests()
    if rc!=0:
        print(i,'TESTS',n,fails or out[-1500:]); continue
    d=f'/tmp/sd/d-{i}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/main.rs','w').write(b['demo']); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/patch.diff','w').write(diff)
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    r1=sh(f'bash {d}/demo.sh',cwd=SD)
    reset()
    r0=sh(f'bash {d}/demo.sh',cwd=SD)
    print(i,'tests',n,'demo with',r1.returncode,'without',r0.returncode,(r1.stderr+r1.stdout).strip()[-200:].replace('\n',' | '))
    if r0.returncode==0 and r1.returncode not in(0,2):
        t=f'/verif/seeded/{i}'; shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t); print('   kept')
    else: print('   NOT KEPT',r0.stderr[-600:],r0.stdout[-300:])
    shutil.rmtree(d)
reset()
