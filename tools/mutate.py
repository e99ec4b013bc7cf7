#!/usr/bin/env python3
"""Developer aid: makes small random changes to a copy of the repository and looks which of them the
checks notice.  mutate.py WORKER-DIR OUT.jsonl SEED COUNT [path-prefix...]"""
import sys,os,re,random,subprocess,json,time,shutil
wd,out,seed,count=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
only=sys.argv[5:]
scale=os.environ.get("MSCALE","0.06")
variants=os.environ.get("MVARIANTS","tok").split()
repo=wd+"/repo"; har=wd+"/harness"
env=dict(os.environ,CARGO_NET_OFFLINE="true",CARGO_TERM_COLOR="never",RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_TARGET_DIR=wd+"/target",VH_FIRST="1")
def sh(cmd,t,cwd):
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
        return p.returncode,p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -9 -f {wd}/target/debug/vh",shell=True)
        return 124,"TIMEOUT"
os.makedirs(wd,exist_ok=True)
if not os.path.exists(repo):
    subprocess.check_call(f"mkdir -p {repo} && git -C /repo archive HEAD | tar x -C {repo}",shell=True)
    shutil.copytree("/verif/harness",har)
    s=open(har+"/Cargo.toml").read().replace('path = "/repo"',f'path = "{repo}"')
    open(har+"/Cargo.toml","w").write(s)
    for f in ("Cargo.lock",): shutil.copy("/repo/"+f,repo+"/"+f) if os.path.exists("/repo/"+f) else None
FEAT={"tok":("","all"),"tls":("--features tls","C24"),"astd":("--no-default-features --features astd","C25")}
def sites():
    r=[]
    for d,_,fs in os.walk(repo+"/src"):
        for f in fs:
            if not f.endswith(".rs") or f in("codes.rs",): continue
            p=os.path.join(d,f); rel=p[len(repo)+1:]
            if only and not any(rel.startswith(o) for o in only): continue
            L=open(p).read().split("\n")
            test=False
            for i,l in enumerate(L):
                if "#[cfg(test)]" in l and i+1<len(L) and re.search(r"mod \w+",l+L[i+1]): test=True
                if test: break
                t=l.strip()
                if t.startswith(("//","#","use ","pub use","info!","warn!","write!","log::",".field(","mod ","pub mod","assert","debug_assert")): continue
                r+=[(rel,i,m) for m in muts(l)]
    return r
def muts(l):
    o=[]
    def rep(a,b,reg=False):
        for m in re.finditer(a,l):
            o.append(l[:m.start()]+m.expand(b)+l[m.end():])
    rep(r" < "," <= ");rep(r" > "," >= ");rep(r" <= "," < ");rep(r" >= "," > ")
    rep(r" == "," != ");rep(r" != "," == ")
    rep(r" && "," || ");rep(r" \|\| "," && ")
    if not re.search(r"\bconst\b|&'|dyn |impl |where|: \w+ \+",l):
        rep(r" \+ "," - ");rep(r" - "," + ");rep(r" \* "," + ");rep(r" / "," * ");rep(r" % "," / ")
    rep(r" \+= "," -= ");rep(r" -= "," += ")
    rep(r"\btrue\b","false");rep(r"\bfalse\b","true")
    rep(r"\bis_some\(\)","is_none()");rep(r"\bis_none\(\)","is_some()");rep(r"\bis_empty\(\)","is_empty() == false")
    rep(r"\.min\(",".max(");rep(r"\.max\(",".min(")
    rep(r"if !","if ");rep(r"(\(|= )!(\w)",r"\1\2")
    rep(r"\bif ([a-z_][\w.()]*) \{",r"if !\1 {")
    rep(r"(?<![\w.\[\"'x&])(\d+)(?![\w.\"'\]])",lambda m:None) if False else None
    for m in re.finditer(r"(?<![\w.\"'&])(\d+)(?![\w.\"'])",l):
        o.append(l[:m.start()]+str(int(m.group(1))+1)+l[m.end():])
    t=l.strip()
    if t.endswith(";") and not t.startswith(("let ","return","use ","pub ","type ","const ","static ","}","break","continue",")","]","impl","fn ","extern")) and t.count("(")==t.count(")") and t.count("{")==t.count("}"):
        o.append(l[:len(l)-len(l.lstrip())]+"/* gone */")
    if "saturating_sub" in l: rep(r"saturating_sub","wrapping_sub")
    if "checked_" in l: rep(r"checked_(\w+)",r"wrapping_\1")
    if "..=" in l: rep(r"\.\.=","..")
    rep(r"\bSome\(([a-z_]\w*)\) =>",r"Some(_) if false => unreachable!(), Some(\1) =>") if False else None
    rep(r"\bErr\((\w+)\) => return Err\(\1\)",r"Err(_) => ()")
    return o
S=sites(); rnd=random.Random(seed); rnd.shuffle(S)
done=set()
if os.path.exists(out):
    for x in open(out): 
        d=json.loads(x); done.add((d["file"],d["line"],d["new"]))
n=0
for rel,i,new in S:
    if n>=count: break
    if (rel,i,new) in done: continue
    p=repo+"/"+rel; orig=open(p).read(); L=orig.split("\n"); old=L[i]; L[i]=new
    open(p,"w").write("\n".join(L)); t0=time.time(); res=None
    try:
        for v in variants:
            feat,props=FEAT[v]
            if v=="tok":
                rc,o=sh("cargo check --offline --lib",200,repo)
                if rc: res="nobuild"; break
            rc,o=sh(f"nice -n 5 cargo build --offline {feat}",600,har)
            if rc: res="nobuild"; break
            rc,o=sh(f"nice -n 5 timeout -k 1 400 {wd}/target/debug/vh survey {props} --scale {scale}",420,har)
            f=[x for x in o.split("\n") if x.startswith("FIRST")]
            if f: res=f[0]; break
            if rc: res=f"rc {rc} "+o[-200:]; break
            bad=[x for x in o.split("\n") if re.match(r"\d+ x ",x)]
            if bad: res="survey "+bad[0]; break
            res="SURVIVED"
    finally:
        open(p,"w").write(orig)
    if res!="nobuild": n+=1
    with open(out,"a") as f: f.write(json.dumps(dict(file=rel,line=i,old=old.strip(),new=new,res=res,t=round(time.time()-t0)))+"\n")
