# auto.py gen | auto.py SLOT NSLOTS: random small mutations, run against the checks at a fifth of their runs
import sys,os,re,json,random,subprocess,time
R='/repo/src/'
SKIP=('example','mod.rs','lib.rs')
def files():
    for d,_,fs in os.walk(R):
        for f in fs:
            p=os.path.join(d,f)[len('/repo/'):]
            if f.endswith('.rs') and 'example' not in p and f not in('lib.rs','main.rs') and not (f=='mod.rs' and 'fri' not in p): yield p
OPS=[
 (r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),(r' == ',' != '),(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),
 (r'&& ','|| '),(r' & ',' | '),(r'\b0\.\.','1..'),(r'\b1\.\.','0..'),(r'\.\.=','..'),(r'\.rev\(\)',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\.min\(','.max('),(r'\.max\(','.min('),(r'_be\b','_le'),(r'_be_','_le_'),(r'_le_','_be_'),(r'if !','if '),(r'\bcurr\[','next['),(r'\bnext\[','curr['),
 (r'one\(\)','zero()'),(r'zero\(\)','one()'),(r'&one\b','FE::from(2)'),(r'\.skip\(1\)','.skip(2)'),(r'\.inv\(\)',''),(r'Some\((\w+)\) =>',r'Some(\1) if false =>'),
 (r'\b(\d+)\b',lambda m:str(int(m.group(1))+1)),(r'\b([1-9]\d*)\b',lambda m:str(int(m.group(1))-1)),
 (r'_0\b','_1'),(r'_1\b','_2'),(r'_2\b','_1'),(r'\bsymm?\b','x'),(r'F_OPC_CALL','F_OPC_RET'),(r'F_AP_ONE','F_AP_ADD'),(r'\.is_empty\(\)','.is_empty() == false'),
 (r'\.filter\(.*\)$',''),(r'\.sort\(\);',';'),(r'\bbreak;',';'),(r'continue','break'),(r'\.end\b','.start'),(r'\.start\b','.end'),(r'\?;','.unwrap();'),
 (r'even','odd'),(r'odd','even'),(r'alpha','beta'),(r'beta','alpha'),(r'u64\b','u32'),(r'\bas u64',' as u8 as u64'),(r'\bas usize','as u8 as usize'),
]
def gen():
    out=[]
    for p in sorted(files()):
        s=open('/repo/'+p).read().split('\n')
        test=False
        for n,l in enumerate(s):
            t=l.strip()
            if '#[cfg(test)]' in l: 
                if n+1<len(s) and 'mod' in s[n+1]: break
            if not t or t.startswith(('//','#','use ','pub use','impl','where','pub fn','fn ','pub struct','pub enum')): continue
            code=l.split('//')[0]
            for k,(a,b) in enumerate(OPS):
                for m in re.finditer(a,code):
                    new=code[:m.start()]+re.sub(a,b,code[m.start():],count=1)
                    if new!=code: out.append((p,n,l,new,f'op{k}'))
            if t.endswith(';') and not t.startswith(('let ','return','}','pub ','const','static','type')) and l.count('(')==l.count(')') and s[n-1].strip().endswith((';','{','}','')) : out.append((p,n,l,'','del'))
            if t.endswith(',') and re.match(r'^[\w(&].*,$',t) and 0: out.append((p,n,l,'','delel'))
            if t.startswith('&& '): out.append((p,n,l,'','delcond'))
            if t.startswith('.') and t.count('(')==t.count(')') and not t.endswith(';'): out.append((p,n,l,'','delcall'))
    return out
MAP=[('cairo/air.rs',['C05','C03','C12','C01','C09','C08','C07']),('execution_trace',['C12','C01','C05']),('decode',['C12']),('cairo_mem',['C12','C08']),('register_states',['C12','C08']),
 ('runner',['C12','C01']),('frame.rs',['C09','C08','C01','C07']),('fri_decommit',['C09','C08']),('proof/stark',['C09','C08']),('options',['C04','C08']),
 ('verifier',['C02','C07','C05','C04','C08','C03','C13']),('prover.rs',['C01','C06','C07']),('transcript',['C06','C07']),('fri',['C01','C07','C02']),('domain',['C01','C06','C05']),
 ('evaluator',['C01','C13']),('boundary',['C01','C05']),('debug',['C13']),('grinding',['C04','C10']),('traits',['C01','C06','C05']),('trace.rs',['C01']),('',['C01','C12','C04'])]
ALL=['C01','C02','C03','C04','C05','C06','C07','C08','C09','C12','C14','C13','C10']
RUNS={}
def order(p):
    for k,v in MAP:
        if k in p: return v+[c for c in ALL if c not in v]
def sh(cmd,out,env={}):
    return subprocess.run(cmd,shell=True,stdout=open(out,'w'),stderr=subprocess.STDOUT,env={**os.environ,**env}).returncode
if __name__=='__main__':
    if sys.argv[1]=='gen':
        L=gen(); random.seed(int(sys.argv[2]))
        # about the same number from each file: weight by square root of the size
        by={}
        for m in L: by.setdefault(m[0],[]).append(m)
        for v in by.values(): random.shuffle(v)
        pick=[]
        for f,v in by.items():
            # each line once
            seen=set();w=[]
            for m in v:
                if m[1] in seen: continue
                seen.add(m[1]);w.append(m)
            pick+=w[:int(2*len(w)**0.5)+1]
        random.shuffle(pick)
        json.dump(pick,open('/tmp/bugs/auto/list.json','w'))
        print(len(L),len(pick),{f:len(v) for f,v in by.items()})
        sys.exit()
    k,n=int(sys.argv[1]),int(sys.argv[2]); d=f'/tmp/dev/a{k}'
    os.makedirs(d,exist_ok=True)
    sh(f'rsync -a --delete --exclude /target /repo/ {d}/repo/; rm -rf {d}/verif; mkdir -p {d}/verif; git -C /verif archive HEAD | tar x -C {d}/verif; mkdir -p {d}/verif/evidence {d}/verif/replays',f'/tmp/bugs/auto/setup{k}')
    if not os.path.isdir(f'{d}/target'): sh(f'cp -a /verif/target {d}/target',f'/tmp/bugs/auto/setup{k}')
    sh(f'ln -sfn {d}/target {d}/verif/target' if 0 else f'mv {d}/target {d}/verif/target',f'/tmp/bugs/auto/setup{k}')
    L=json.load(open('/tmp/bugs/auto/list.json'))
    # each mutant's private shell script
    for i,m in enumerate(L):
        if i%n!=k or os.path.exists(f'/tmp/bugs/auto/{i}.done'): continue
        p,ln,old,new,op=m
        s=open('/repo/'+p).read().split('\n'); assert s[ln]==old
        s[ln]=new
        open(f'{d}/repo/{p}','w').write('\n'.join(s))
        t0=time.time()
        checks=' '.join(order(p))
        script=f'''mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif || exit 9
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target VERIF_ROOT=/verif VERIF_WORKERS=3 VERIF_MINIMISE_S=1
(cd sim && cargo build --offline --quiet --release --bin starksim) > /tmp/bugs/auto/{i}.build 2>&1 || exit 3
for c in {checks}; do
 b=target/release/starksim
 if [ $c = C13 ]; then (cd sim && cargo build --offline --quiet --profile dbg --features instruments --bin starksim) >/dev/null 2>&1 || continue; b=target/dbg/starksim; fi
 if [ $c = C10 ]; then (cd sim && CARGO_TARGET_DIR=/verif/target/par cargo build --offline --quiet --release --features parallel --bin starksim) >/dev/null 2>&1 || continue; b=target/par/release/starksim; fi
 n=$(grep -o "^$c [0-9]*" /tmp/bugs/auto/runs | cut -d' ' -f2)
 VERIF_RUNS=$n timeout 400 $b check $c > /tmp/bugs/auto/{i}.$c 2>&1; rc=$?
 if [ $rc != 0 ]; then echo "$c rc=$rc $(grep -m1 violated: /tmp/bugs/auto/{i}.$c | cut -c1-150)"; exit 1; fi
done
exit 0'''
        open(f'/tmp/bugs/auto/{i}.sh','w').write(script)
        rc=subprocess.run(['unshare','-Urm','bash',f'/tmp/bugs/auto/{i}.sh'],stdout=open(f'/tmp/bugs/auto/{i}.out','w'),stderr=subprocess.STDOUT).returncode
        sh(f'cp /repo/{p} {d}/repo/{p}','/dev/null')
        open(f'/tmp/bugs/auto/{i}.done','w').write(str(rc))
        what={0:'SURVIVED',1:'killed',3:'nobuild'}.get(rc,str(rc))
        open(f'/tmp/bugs/auto/log','a').write(f'{what} {i} {p}:{ln+1} {op} | {old.strip()[:90]} => {new.strip()[:90]} | {open(f"/tmp/bugs/auto/{i}.out").read().strip()[:170]} {int(time.time()-t0)}s\n')
        if os.path.exists('/tmp/bugs/auto/stop'): break
