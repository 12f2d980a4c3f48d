import os,sys,json,shutil,subprocess,re
V='/verif/seeded'; W='/tmp/bugs/wt'
HEAD=lambda: subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()
DEMO='''#!/bin/bash
# cwd: the repository. Exit 0: the behaviour is right, otherwise it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp -r "$here/shims" "$work/shims"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/kit.rs" "$work/src/kit.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "src/main.rs"
@CLI@
[dependencies]
lambdaworks-stark = { path = "$repo"@FEAT@ }
lambdaworks-math = { path = "shims/lambdaworks-math" }
lambdaworks-crypto = { path = "shims/lambdaworks-crypto" }
cairo-vm = { path = "shims/cairo-vm" }
rayon = { path = "shims/rayon" }
bincode = { path = "shims/bincode" }
log = "0.4"
serde_json = "1.0"
sha3 = "0.10.6"
[patch."https://github.com/lambdaclass/lambdaworks"]
lambdaworks-math = { path = "shims/lambdaworks-math" }
lambdaworks-crypto = { path = "shims/lambdaworks-crypto" }
[patch."https://github.com/bincode-org/bincode.git"]
bincode = { path = "shims/bincode" }
[patch.crates-io]
cairo-vm = { path = "shims/cairo-vm" }
cairo-lang-starknet = { path = "shims/cairo-lang-starknet" }
rayon = { path = "shims/rayon" }
[profile.release]
opt-level = 2
END
cd "$work" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
unset RUSTFLAGS
cargo build --offline --release --quiet 2> "$work/log" || { grep -A8 '^error' "$work/log"; exit 3; }
export DEMO_DIR="$work" DEMO_CLI="$work/target/release/lwcli"
timeout 120 "$work/target/release/demo"
'''
def bug(id,prop,needs,breaks,edits,demo,feat='',cli=False,dbg=False):
    only=sys.argv[1:]
    if only and id not in only: return
    d=f'{V}/{id}'
    shutil.rmtree(W,ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(f'git -C /repo archive HEAD | tar -x -C {W}',shell=True)
    subprocess.check_call('git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm x',shell=True,cwd=W)
    for f,old,new in edits:
        p=f'{W}/{f}'; s=open(p).read()
        assert s.count(old)==1 or old.startswith("use "),(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new,1))
    patch=subprocess.check_output(['git','diff'],text=True,cwd=W)
    os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(patch)
    c='[[bin]]\nname = "lwcli"\npath = "$repo/src/main.rs"' if cli else ''
    open(f'{d}/demo.sh','w').write(DEMO.replace('@FEAT@',f', features = [{feat}]' if feat else '').replace('@CLI@',c).replace('opt-level = 2','opt-level = 2\ndebug-assertions = true' if dbg else 'opt-level = 2'))
    os.chmod(f'{d}/demo.sh',0o755)
    open(f'{d}/demo.rs','w').write(demo.strip()+'\n')
    shutil.copy('/tmp/bugs/kit.rs',f'{d}/kit.rs')
    shutil.copy('/tmp/bugs/Cargo.lock',f'{d}/Cargo.lock')
    shutil.rmtree(f'{d}/shims',ignore_errors=True)
    shutil.copytree('/verif/shims',f'{d}/shims',ignore=shutil.ignore_patterns('target'))
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{d}/meta.json','w'),indent=1)
    # try: patched in W, clean in a copy
    C='/tmp/bugs/clean'
    shutil.rmtree(C,ignore_errors=True)
    os.makedirs(C); subprocess.check_call(f'git -C /repo archive HEAD | tar -x -C {C}',shell=True)
    r=[subprocess.Popen(['bash',f'{d}/demo.sh'],cwd=x,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True) for x in (C,W)]
    o=[p.communicate()[0][-600:] for p in r]
    rc=[p.returncode for p in r]
    ok= rc[0]==0 and rc[1] not in (0,3)
    print(('OK ' if ok else 'BAD'),id,prop,'clean',rc[0],'patched',rc[1])
    if not ok or '-v' in os.environ.get('V',''): print('  clean:',o[0],'\n  patched:',o[1])
    else: print('   ',o[1].strip().splitlines()[-1:] )
    sys.stdout.flush()
