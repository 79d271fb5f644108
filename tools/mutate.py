#!/usr/bin/env python3
"""Development tool: single-token mutants of /repo/src, each built and explored in scratch copies.
usage: mutate.py OUT [workers] [file-substring]"""
import re,sys,os,subprocess,shutil,threading,queue,json,time
OUT=sys.argv[1]; W=int(sys.argv[2]) if len(sys.argv)>2 else 4; SUB=sys.argv[3] if len(sys.argv)>3 else ""
SRC="/repo/src"
files=[]
for r,_,fs in os.walk(SRC):
    for f in fs:
        p=os.path.join(r,f)
        if f.endswith(".rs") and f not in("test_market.rs","shank_structs.rs","error.rs","log.rs","accounts.rs") and SUB in p: files.append(p)
OPS=[(r"(?<![<>=!-])<(?![<=])(?=\s)"," <","<="),(r"(?<![<>=!-])>(?![>=])(?=\s)",">",">="),(r"<=(?=\s)","<=","<"),(r">=(?=\s)",">=",">"),
 (r"(?<==\s)?==","==","!="),(r"!=","!=","=="),(r"&&","&&","||"),(r"(?<!\|)\|\|(?!\s*[{A-Z])","||","&&"),
 (r"\btrue\b","true","false"),(r"\bfalse\b","false","true"),(r"(?<=\s)\+(?=\s)","+","-"),(r"(?<=\s)-(?=\s)","-","+"),
 (r"(?<=\s)\*(?=\s)","*","/"),(r"(?<=\s)/(?=\s)","/","*"),(r"(?<=\s)%(?=\s)","%","*"),(r"\+=","+=","-="),(r"-=","-=","+="),
 (r"\.min\(",".min(",".max("),(r"\.max\(",".max(",".min("),(r"Side::Bid\b","Side::Bid","Side::Ask"),(r"Side::Ask\b","Side::Ask","Side::Bid"),
 (r"(?<![\w.\[])0(?![\w.x])","0","1"),(r"(?<![\w.\[])1(?![\w.])","1","0"),(r"(?<![\w.\[])2(?![\w.])","2","3"),
 (r"\bquote_(?=lots|context|params|lot|vault|account|mint|decimals)","quote_","base_"),(r"\bbase_(?=lots_|lots\b|context|params|lot_size|vault|account|mint|decimals)","base_","quote_"),
 (r"\.is_some\(\)",".is_some()",".is_none()"),(r"\.is_none\(\)",".is_none()",".is_some()"),(r"(?<=[\s(])!(?=[a-z(*])","!",""),
 (r"saturating_sub","saturating_sub","saturating_add"),(r"\.rev\(\)",".rev()",""),(r"_locked\b","_locked","_free"),(r"_free\b","_free","_locked"),
 (r"\bbreak\b","break","continue"),(r"\.opposite\(\)",".opposite()",""),(r"Status::Active","Status::Active","Status::PostOnly"),(r"Status::PostOnly","Status::PostOnly","Status::Paused"),(r"Status::Closed","Status::Closed","Status::Paused"),(r"Status::Paused","Status::Paused","Status::Closed")]
muts=[]
for p in sorted(files):
    L=open(p).read().split("\n")
    intest=False; depth=0
    for n,l in enumerate(L):
        if "#[cfg(test)]" in l or "#[test]" in l: intest=True
        if intest: continue
        s=l.strip()
        if s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("pub use") or s.startswith("fn ") and "<" in s: continue
        code=l.split("//")[0]
        if '"' in code and not re.search(r'b"',code): 
            continue
        for rx,a,b in OPS:
            if re.search(r"\b(fn|impl|where|struct|trait|enum|type)\b",code) and ("<" in a or ">" in a or a in("+","-","quote_","base_")): continue
            for m in re.finditer(rx,code):
                if "=>" in code[max(0,m.start()-1):m.end()+1] or "->" in code[max(0,m.start()-1):m.end()+1]: continue
                new=l[:m.start()]+b+l[m.end():]
                muts.append((p,n,n,[new]))
        # statement deletion: one-line statements, then multi-line calls ending in )?; or );
        if re.match(r"^[\w.\[\]*&:]+(\(.*\)\??|\s*[-+]?=[^=].*);$",s) and not s.startswith("let") and not s.startswith("return"):
            muts.append((p,n,n,[""]))
        elif re.match(r"^(assert_with_msg|[\w.:]+)\($",s):
            for k in range(n+1,min(n+25,len(L))):
                if L[k].startswith(l[:len(l)-len(l.lstrip())]+")") :
                    if L[k].strip() in (")?;",");"): muts.append((p,n,k,[""]))
                    break
print(len(muts),"mutants",flush=True)
json.dump([(p,a,b,x) for p,a,b,x in muts],open(OUT+".list","w"))
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        done.add(json.loads(l)["i"])
q=queue.Queue()
import random
order=list(range(len(muts))); random.Random(1).shuffle(order)
order.sort(key=lambda i:"builders" in muts[i][0])
for i in order:
    if i not in done: q.put(i)
lock=threading.Lock()
def work(k):
    d=f"/tmp/mut/w{k}"
    if not os.path.exists(d+"/mc"):
        os.makedirs(d,exist_ok=True)
        subprocess.run(f"rsync -a --exclude target --exclude .git /repo/ {d}/repo/ 2>/dev/null || (mkdir -p {d}/repo && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C {d}/repo)",shell=True,check=True)
        subprocess.run(f"cp -a /verif/mc {d}/mc && sed -i 's/opt-level = 2/opt-level = 1/; s#path = \"/repo\"#path = \"{d}/repo\"#' {d}/mc/Cargo.toml",shell=True,check=True)
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        p,a,b,new=muts[i]
        dst=p.replace("/repo",d+"/repo",1)
        orig=open(p).read(); L=orig.split("\n"); old=L[a:b+1]; L[a:b+1]=new
        open(dst,"w").write("\n".join(L))
        t=time.time()
        r=subprocess.run(f". /opt/vp/env.sh; cd {d}/mc; CARGO_TARGET_DIR={d}/mc/target CARGO_INCREMENTAL=0 cargo build --release --offline --quiet",shell=True,capture_output=True,text=True,executable="/bin/bash")
        res=dict(i=i,file=p,line=a+1,old="\n".join(old)[:300],new="\n".join(new)[:300])
        if r.returncode!=0: res["r"]="nobuild"
        else:
            res["tb"]=round(time.time()-t,1); t=time.time()
            try:
                x=subprocess.run(["timeout","300",f"{d}/mc/target/release/mc","check","ALL","--root",d+"/ev"],capture_output=True,text=True)
                res["rc"]=x.returncode; res["r"]={0:"SURVIVED",1:"caught"}.get(x.returncode,"other")
                ls=x.stdout.strip().split("\n"); res["why"]=[l[:200] for l in ls[1:3]]
            except Exception as e: res["r"]="other "+str(e)
            res["t"]=round(time.time()-t,1)
        open(dst,"w").write(orig)
        with lock:
            open(OUT,"a").write(json.dumps(res)+"\n")
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
