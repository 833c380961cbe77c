#!/usr/bin/env python3
"""probe.py FILE [ID...]: development tool; FILE defines P = [(id, [checks], [(file, old, new)...])]; each change is made in a scratch copy and the checks are run on it."""
import sys, os, subprocess, re
Q="/tmp/q"; os.makedirs(Q+"/verif",exist_ok=True)
ns={}; X="contracts/oraiswap-v3/src/"; exec(open(sys.argv[1]).read(),ns)
E=dict(os.environ,RUSTUP_TOOLCHAIN="1.76-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",CARGO_TARGET_DIR=Q+"/t",PATH="/root/.cargo/bin:"+os.environ["PATH"])
MATH=("C13","C14","C17","C20")
for id,checks,edits in ns["P"]:
    if sys.argv[2:] and id not in sys.argv[2:]: continue
    subprocess.run(["rsync","-rlpgoD","--checksum","--delete","--exclude","target","--exclude",".git","/repo/",Q+"/repo/"],check=True)
    subprocess.run(["rsync","-rlpgoD","--checksum","--delete","/verif/harness","/verif/stubs","/verif/known_findings.json",Q+"/verif/"],check=True)
    bad=False
    for f,o,n in edits:
        p=f"{Q}/repo/{f}"; s=open(p).read()
        if s.count(o)!=1: print(id,"EDIT",f,s.count(o)); bad=True; break
        open(p,"w").write(s.replace(o,n))
    if bad: continue
    out=[]
    for c in checks:
        b="verif-dec" if c=="C18" else "verif-math" if c in MATH else ("verif-sdk" if c in ("C16","C28") else "verif")
        r=subprocess.run(f"cargo build --offline --quiet --bin {b}",shell=True,cwd=Q+"/verif/harness",env=E,capture_output=True,text=True)
        if r.returncode: out.append("NOBUILD "+r.stderr[:600]); break
        os.makedirs(Q+"/root",exist_ok=True)
        r=subprocess.run(f"timeout 900 {Q}/t/debug/{b} {c}",shell=True,env=dict(E,VERIF_ROOT=Q+"/root"),capture_output=True,text=True,errors="replace")
        m=re.search(r"counterexample.*",r.stdout+r.stderr)
        out.append(f"{c}:{r.returncode} {m.group(0)[:140] if m else ''}")
    print(id,"|"," ; ".join(out),flush=True)
