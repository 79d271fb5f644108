#!/usr/bin/env python3
"""Development tool: mutants that clamp 64-bit quantities to 32 bits (and client ids to 64), each built and explored in scratch copies.
usage: tmutate.py OUT [workers]"""
import re,sys,os,subprocess,shutil,threading,queue,json,time
OUT=sys.argv[1]; W=int(sys.argv[2]) if len(sys.argv)>2 else 4; SUB=""
SRC="/repo/src"
files=[]
for r,_,fs in os.walk(SRC):
    for f in fs:
        p=os.path.join(r,f)
        if f.endswith(".rs") and f not in("test_market.rs","shank_structs.rs","error.rs","log.rs","accounts.rs") and SUB in p: files.append(p)
OPS=[(r"(?<![<>=!-])<(?![<=])(?=\s)"," <","<="),(r"(?<![<>=!-])>(?![>=])(?=\s)",">",">="),(r"<=(?=\s)","<=","<"),(r">=(?=\s)",">=",">"),
 (r"(?<==\s)?==","==","!="),(r"!=","!=","=="),(r"&&","&&","||"),(r"(?<!\|)\|\|(?!\s*[{A-Z])","||","&&"),
 (r"\btrue\b","true","false"),(r"\bfalse\b","false","true"),(r"(?<=\s)\+(?=\s)","+","-"),(r"(?<=\s)-(?=\s)","-","+"),
 (r"(?<=\s)\*(?=\s)","*","/"),(r"(?<=\s)/(?=\s)","/","*"),(r"(?<=\s)%(?=\s)","%","*"),(r"\+=","+=","-="),(r"-=","-=","+="),
 (r"\.min\(",".min(",".max("),(r"\.max\(",".max(",".min("),(r"Side::Bid\b","Side::Bid","Side::Ask"),(r"Side::Ask\b","Side::Ask","Side::Bid"),
 (r"(?<![\w.\[])0(?![\w.x])","0","1"),(r"(?<![\w.\[])1(?![\w.])","1","0"),(r"(?<![\w.\[])2(?![\w.])","2","3"),
 (r"\bquote_(?=lots|context|params|lot|vault|account|mint|decimals)","quote_","base_"),(r"\bbase_(?=lots_|lots\b|context|params|lot_size|vault|account|mint|decimals)","base_","quote_"),
 (r"\.is_some\(\)",".is_some()",".is_none()"),(r"\.is_none\(\)",".is_none()",".is_some()"),(r"(?<=[\s(])!(?=[a-z(*])","!",""),
 (r"saturating_sub","saturating_sub","saturating_add"),(r"\.rev\(\)",".rev()",""),(r"_locked\b","_locked","_free"),(r"_free\b","_free","_locked"),
 (r"\bbreak\b","break","continue"),(r"\.opposite\(\)",".opposite()",""),(r"Status::Active","Status::Active","Status::PostOnly"),(r"Status::PostOnly","Status::PostOnly","Status::Paused"),(r"Status::Closed","Status::Closed","Status::Paused"),(r"Status::Paused","Status::Paused","Status::Closed")]
muts=[]
LIM="u32::MAX as u64"
def close(l,i):
    d=0
    for k in range(i,len(l)):
        if l[k]=="(": d+=1
        if l[k]==")":
            d-=1
            if d==0: return k
    return -1
for p in sorted(files):
    L=open(p).read().split("\n"); intest=False
    for n,l in enumerate(L):
        if "#[cfg(test)]" in l: intest=True
        if intest: break
        s=l.strip()
        if s.startswith("//") or s.startswith("#") or s.startswith("use ") or "msg!" in l or "phoenix_log" in l or "fn " in l: continue
        for m in re.finditer(r"\.as_u64\(\)|\.unwrap_or\(0\)|\bslot\b(?=[,)])|\bclient_order_id(?=[,)])|(?<=: )\*?(?:\w+\.)*(\w*(?:slot|timestamp|price|lots|fee|sequence|client_order_id|size)\w*)(?=,)",l):
            for lim in ([LIM] if "client" not in m.group() else ["u64::MAX as u128"]):
                x=m.group()
                lm=lim
                for w,t in (("quote","QuoteLots"),("base","BaseLots"),("price","Ticks")):
                    pass
                muts.append((p,n,n,[l[:m.end()]+f".min(({lm}).into())"+l[m.end():]]))
                muts.append((p,n,n,[l[:m.end()]+f".min({lm})"+l[m.end():]]))
        for m in re.finditer(r"(QuoteLots|BaseLots|Ticks|QuoteAtoms|BaseAtoms|AdjustedQuoteLots)::new\(",l):
            k=close(l,m.end()-1)
            if k>0: muts.append((p,n,n,[l[:k+1]+f".min({m.group(1)}::new({LIM}))"+l[k+1:]]))
        # shorthand fields of events and states
        m=re.match(r"^(\s*)(client_order_id|price_in_ticks|num_base_lots|\w*slot|\w*timestamp\w*|\w*lots\w*|\w*sequence_number|size_in_base_lots),$",l)
        if m:
            f=m.group(2)
            for y in (["u64::MAX as u128"] if "client" in f else [LIM,"QuoteLots::new(%s)"%LIM,"BaseLots::new(%s)"%LIM]):
                muts.append((p,n,n,[f"{m.group(1)}{f}: {f}.min({y}),"])); muts.append((p,n,n,[f"{m.group(1)}{f}.min({y}),"]))
print(len(muts),"mutants",flush=True)
json.dump([(p,a,b,x) for p,a,b,x in muts],open(OUT+".list","w"))
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        done.add(json.loads(l)["i"])
q=queue.Queue()
import random
order=list(range(len(muts))); random.Random(1).shuffle(order)
for i in order:
    if i not in done: q.put(i)
lock=threading.Lock()
def work(k):
    d=f"/tmp/mut/t{k}"
    if not os.path.exists(d+"/mc"):
        os.makedirs(d,exist_ok=True)
        subprocess.run(f"rsync -a --exclude target --exclude .git /repo/ {d}/repo/ 2>/dev/null || (mkdir -p {d}/repo && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C {d}/repo)",shell=True,check=True)
        subprocess.run(f"mkdir -p {d}/mc && cd /verif/mc && tar c --exclude=./target . | tar x -C {d}/mc && sed -i 's/opt-level = 2/opt-level = 1/; s#path = \"/repo\"#path = \"{d}/repo\"#' {d}/mc/Cargo.toml",shell=True,check=True)
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        p,a,b,new=muts[i]
        dst=p.replace("/repo",d+"/repo",1)
        orig=open(p).read(); L=orig.split("\n"); old=L[a:b+1]; L[a:b+1]=new
        open(dst,"w").write("\n".join(L))
        t=time.time()
        r=subprocess.run(f". /opt/vp/env.sh; cd {d}/mc; CARGO_TARGET_DIR={d}/mc/target CARGO_INCREMENTAL=0 cargo build --release --offline --quiet",shell=True,capture_output=True,text=True,executable="/bin/bash")
        res=dict(i=i,file=p,line=a+1,old="\n".join(old)[:300],new="\n".join(new)[:300])
        if r.returncode!=0: res["r"]="nobuild"
        else:
            res["tb"]=round(time.time()-t,1); t=time.time()
            try:
                x=subprocess.run(["timeout","300",f"{d}/mc/target/release/mc","check","ALL","--root",d+"/ev"],capture_output=True,text=True)
                res["rc"]=x.returncode; res["r"]={0:"SURVIVED",1:"caught"}.get(x.returncode,"other")
                ls=x.stdout.strip().split("\n"); res["why"]=[l[:200] for l in ls[1:3]]
            except Exception as e: res["r"]="other "+str(e)
            res["t"]=round(time.time()-t,1)
        open(dst,"w").write(orig)
        with lock:
            open(OUT,"a").write(json.dumps(res)+"\n")
if W==0: sys.exit()
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
