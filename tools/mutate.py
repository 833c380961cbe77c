#!/usr/bin/env python3
"""Mutation sweep (development tool, no check uses it): single-token changes of /repo's non-test code in scratch copies;
those that compile and pass the repository's tests are given to the checks. Usage: mutate.py list | run N_WORKERS [file-regex]
Results: /tmp/m/results.jsonl"""
import re, os, sys, json, subprocess, random, threading, queue, glob, time
R="/repo"; M="/tmp/m"
ALLC=["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C15","C19","C21","C22","C23","C24","C25","C26","C27","C29","C30"]
MATH=["C13","C14","C17","C20"]
CASES={"C13":40000,"C14":40000,"C17":100000,"C18":60000,"C20":60000,"C16":3000,"C21":2000,"C27":2000,"C26":5000}
ENV=dict(os.environ,RUSTUP_TOOLCHAIN="1.76-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",PATH="/root/.cargo/bin:"+os.environ["PATH"])
def files():
    fs=[]
    for d in ("contracts/oraiswap-v3/src","wasm","packages"):
        for p in glob.glob(f"{R}/{d}/**/*.rs",recursive=True):
            r=os.path.relpath(p,R)
            if "/tests/" in r or "target" in r or r.endswith(("error.rs","errors.rs","mod.rs","lib.rs","msg.rs")) and "packages" not in r: continue
            fs.append(r)
    return sorted(fs)
def body(s):
    # line numbers of non-test code
    out=[]; depth=None; skip=False
    for i,l in enumerate(s.split("\n")):
        if l.startswith("#[cfg(test)]") : break
        out.append(i)
    return out
SUB=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),(r" \+ "," - "),(r" - "," + "),(r" \* "," + "),(r" && "," || "),(r" \|\| "," && "),
 (r"\btrue\b","false"),(r"\bfalse\b","true"),
 (r"\bbig_mul\(","big_mul_up("),(r"\bbig_mul_up\(","big_mul("),(r"\bbig_div\(","big_div_up("),(r"\bbig_div_up\(","big_div("),(r"\bmul_up\(","mul("),
 (r"\bchecked_add\(","checked_sub("),(r"\bchecked_sub\(","checked_add("),(r"\bunchecked_add\(","unchecked_sub("),(r"\bunchecked_sub\(","unchecked_add("),
 (r"\bchecked_mul\(","checked_div("),(r"\bchecked_div\(","checked_mul("),
 (r"_up\(","("),(r"\.min\(",".max("),(r"\.max\(",".min("),
 (r"(?<![\w.])(\d+)(?![\w.])",None),
 (r"_x\b","_y"),(r"_y\b","_x"),(r"\blower_","upper_"),(r"\bupper_","lower_"),(r"_lower\b","_upper"),(r"_upper\b","_lower"),
 (r"\.is_zero\(\)",".is_zero() == false"),(r"if !","if "),(r"if (?!let|!)(.*) \{$",r"if !(\1) {"),
 (r"<<",">>"),(r">>","<<"),(r" & "," | "),(r" \| "," & "),(r" % "," / "),(r" / "," * "),
 (r"\bSome\(([a-z_]+)\)$","None"),
 (r"\bbelow\b","above"),(r"token_0","token_1"),(r"token_1","token_0"),(r"amount_in\b","amount_out"),(r"amount_out\b","amount_in"),
 (r"\bowner\b","sender"),(r"Ascending","Descending"),(r"Exclusive","Inclusive"),
 (r"rem_euclid\(","rem("),(r"sqrt_price\b","next_sqrt_price"),(r"checked_from_decimal\(","checked_from_decimal_up("),(r"from_decimal\(","from_decimal_up("),
]
def mutants():
    ms=[]
    for f in files():
        s=open(f"{R}/{f}").read(); L=s.split("\n")
        for i in body(s):
            l=L[i]; st=l.strip()
            if not st or st.startswith(("//","#[","use ","pub use","mod ","pub mod")): continue
            if re.match(r"(pub )?(const )?fn ",st) or st.startswith(("impl","pub struct","struct","pub enum","trait")): continue
            code=l.split(" // ")[0]
            for pat,rep in SUB:
                for m in re.finditer(pat,code):
                    if rep is None:
                        v=int(m.group(1)); n=code[:m.start()]+str(v+1)+code[m.end():]
                    else:
                        n=code[:m.start()]+m.expand(rep)+code[m.end():]
                    if n!=l: ms.append((f,i,n))
            if re.match(r"[A-Za-z_:.*&]+.*;$",st) and not st.startswith(("let","return","use","type","const","pub","break","continue","}")):
                ms.append((f,i,""))
            if st.startswith("return Err"): ms.append((f,i,""))
    seen=set(); o=[]
    for m in ms:
        if m not in seen: seen.add(m); o.append(m)
    return o
def sh(c,cwd,t,log):
    try:
        with open(log,"w") as fh:
            p=subprocess.Popen(c,shell=True,cwd=cwd,env=ENV,stdout=fh,stderr=subprocess.STDOUT,start_new_session=True)
            try: return p.wait(timeout=t)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid,9); p.wait(); return 124
    except Exception as e: return 125
def setup(w):
    b=f"{M}/w{w}"; os.makedirs(b+"/verif",exist_ok=True)
    subprocess.run(["rsync","-a","--delete","--exclude","target","--exclude",".git",R+"/",b+"/repo/"],check=True)
    p=b+"/repo/Cargo.toml"; s=open(p).read()
    if "[patch.crates-io]" in s: open(p,"w").write(s[:s.index("[patch.crates-io]")])
    subprocess.run(["rsync","-a","--delete","/verif/harness","/verif/stubs","/verif/run.sh","/verif/known_findings.json",b+"/verif/"],check=True)
    subprocess.run("find . -name '*.rs' -exec touch {} +",shell=True,cwd=b,check=True)
    return b
def one(w,b,m):
    f,i,n=m; p=f"{b}/repo/{f}"; s=open(p).read(); L=s.split("\n"); old=L[i]; L[i]=n
    r=dict(file=f,line=i+1,old=old.strip(),new=n.strip())
    open(p,"w").write("\n".join(L))
    try:
        # scope of the tests by crate
        pk="-p oraiswap-v3" if f.startswith("contracts") else ("-p oraiswap-v3-wasm" if f.startswith("wasm/") else "--workspace")
        cd=f"CARGO_TARGET_DIR={b}/tt timeout -k 5 170 cargo"
        if sh(f"{cd} check --offline --lib {pk}",b+"/repo",170,b+"/c.log"): r["st"]="nocompile"; return r
        if not f.startswith("wasm/"):
            rc=sh(f"{cd} test {pk} --offline --lib --tests -- --test-threads 3",b+"/repo",170,b+"/t.log")
            if rc: r["st"]="tests" if rc not in(124,137) else "timeout"; return r
        elif f.startswith("wasm/"):
            rc=sh(f"{cd} test -p oraiswap-v3-wasm --offline -- --test-threads 3",b+"/repo",170,b+"/t.log")
            if rc: r["st"]="tests"; return r
        built=set()
        if f.startswith("wasm/"): cs=["C17","C16","C28","C20","C13","C14"]
        elif f.startswith("packages"): cs=["C18","C17","C20","C03","C01"]
        else:
            cs=["C03","C01","C02","C05","C06","C10","C09","C25","C07","C08","C11","C12","C15","C24","C22","C19","C23","C21","C26","C27","C04","C17","C13","C14","C20"]
        caught=[]
        for full in ((False,True) if os.environ.get("FULL") else (False,)):
            for c in cs:
                bin="verif-dec" if c=="C18" else "verif-math" if c in MATH else "verif-sdk" if c in ("C16","C28") else "verif"
                if bin not in built:
                    if sh(f"CARGO_TARGET_DIR={b}/ht cargo build --offline --quiet --bin {bin}",b+"/verif/harness",600,b+"/h.log"): r["st"]="harness-nobuild"; return r
                    built.add(bin)
                v="" if full else f"VERIF_CASES={CASES.get(c,2500)}"
                os.makedirs(b+"/root",exist_ok=True)
                rc=sh(f"{v} VERIF_THREADS=3 VERIF_ROOT={b}/root timeout -k 5 600 {b}/ht/debug/{bin} {c}",b,620,b+"/k.log")
                if rc==1: caught.append(c); r["st"]="caught"; r["by"]=c; r["how"]=next((x for x in open(b+"/k.log",errors="replace") if "counterexample" in x),"")[:160]; return r
                if rc!=0: r.setdefault("odd",[]).append((c,rc))
        r["st"]="SURVIVED"; return r
    finally:
        open(p,"w").write(s)
if __name__=="__main__":
    ms=mutants()
    if sys.argv[1]=="list":
        from collections import Counter
        c=Counter(m[0] for m in ms); print(len(ms)); [print(v,k) for k,v in c.most_common()]; sys.exit()
    pat=sys.argv[3] if len(sys.argv)>3 else "."
    ms=[m for m in ms if re.search(pat,m[0])]
    done=set()
    if os.path.exists(M+"/results.jsonl"):
        for l in open(M+"/results.jsonl"):
            d=json.loads(l); done.add((d["file"],d["line"],d["new"]))
    ms=[m for m in ms if (m[0],m[1]+1,m[2].strip()) not in done]
    random.Random(7).shuffle(ms)
    q=queue.Queue(); [q.put(m) for m in ms]; lock=threading.Lock()
    os.makedirs(M,exist_ok=True)
    print(len(ms),flush=True)
    def work(w):
        b=setup(w)
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            t=time.time(); r=one(w,b,m); r["s"]=round(time.time()-t)
            with lock: open(M+"/results.jsonl","a").write(json.dumps(r)+"\n")
    ts=[threading.Thread(target=work,args=(i,)) for i in range(int(sys.argv[2]))]
    [t.start() for t in ts]; [t.join() for t in ts]
