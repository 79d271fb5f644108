#!/usr/bin/env python3
"""Development tool: mutants of statements of the matching engine that act only under a condition on the state
(conditional mutants), each built and explored in scratch copies.
usage: gmutate.py OUT [workers] [how many] [engine|rest]"""
import re,sys,os,subprocess,shutil,threading,queue,json,time
OUT=sys.argv[1]; W=int(sys.argv[2]) if len(sys.argv)>2 else 4; SUB=""
SRC="/repo/src"
files=[]
for r,_,fs in os.walk(SRC):
    for f in fs:
        p=os.path.join(r,f)
        if f.endswith(".rs") and f not in("test_market.rs","shank_structs.rs","error.rs","log.rs","accounts.rs") and SUB in p: files.append(p)
OPS=[(r"(?<![<>=!-])<(?![<=])(?=\s)"," <","<="),(r"(?<![<>=!-])>(?![>=])(?=\s)",">",">="),(r"<=(?=\s)","<=","<"),(r">=(?=\s)",">=",">"),
 (r"(?<==\s)?==","==","!="),(r"!=","!=","=="),(r"&&","&&","||"),(r"(?<!\|)\|\|(?!\s*[{A-Z])","||","&&"),
 (r"\btrue\b","true","false"),(r"\bfalse\b","false","true"),(r"(?<=\s)\+(?=\s)","+","-"),(r"(?<=\s)-(?=\s)","-","+"),
 (r"(?<=\s)\*(?=\s)","*","/"),(r"(?<=\s)/(?=\s)","/","*"),(r"(?<=\s)%(?=\s)","%","*"),(r"\+=","+=","-="),(r"-=","-=","+="),
 (r"\.min\(",".min(",".max("),(r"\.max\(",".max(",".min("),(r"Side::Bid\b","Side::Bid","Side::Ask"),(r"Side::Ask\b","Side::Ask","Side::Bid"),
 (r"(?<![\w.\[])0(?![\w.x])","0","1"),(r"(?<![\w.\[])1(?![\w.])","1","0"),(r"(?<![\w.\[])2(?![\w.])","2","3"),
 (r"\bquote_(?=lots|context|params|lot|vault|account|mint|decimals)","quote_","base_"),(r"\bbase_(?=lots_|lots\b|context|params|lot_size|vault|account|mint|decimals)","base_","quote_"),
 (r"\.is_some\(\)",".is_some()",".is_none()"),(r"\.is_none\(\)",".is_none()",".is_some()"),(r"(?<=[\s(])!(?=[a-z(*])","!",""),
 (r"saturating_sub","saturating_sub","saturating_add"),(r"\.rev\(\)",".rev()",""),(r"_locked\b","_locked","_free"),(r"_free\b","_free","_locked"),
 (r"\bbreak\b","break","continue"),(r"\.opposite\(\)",".opposite()",""),(r"Status::Active","Status::Active","Status::PostOnly"),(r"Status::PostOnly","Status::PostOnly","Status::Paused"),(r"Status::Closed","Status::Closed","Status::Paused"),(r"Status::Paused","Status::Paused","Status::Closed")]
HOW=int(sys.argv[3]) if len(sys.argv)>3 else 400
import random
R=random.Random(7)
GEN=["self.collected_quote_lot_fees > QuoteLots::ZERO","self.order_sequence_number % 4 == 3","self.bids.len() >= 3","self.asks.len() >= 3","self.bids.is_empty()","self.asks.is_empty()",
 "self.traders.len() >= 3","self.taker_fee_bps == 0","self.taker_fee_bps >= 100","self.unclaimed_quote_lot_fees > QuoteLots::ZERO"]
LOC=[("side","side == Side::Ask"),("side","side == Side::Bid"),("trader_index","trader_index as u64 >= 2"),("current_trader_index","current_trader_index as u64 == 1"),("order_packet","order_packet.is_take_only()"),("order_packet","!order_packet.is_take_only()"),
 ("order_packet","order_packet.no_deposit_or_withdrawal()"),("order_packet","order_packet.get_match_limit() < 3"),("inflight_order","inflight_order.match_limit < 3"),("inflight_order","inflight_order.side == Side::Ask"),
 ("inflight_order","inflight_order.matched_base_lots > BaseLots::ZERO"),("inflight_order","inflight_order.matched_adjusted_quote_lots > AdjustedQuoteLots::ZERO"),("last_valid_slot","last_valid_slot != 0"),("last_valid_unix_timestamp_in_seconds","last_valid_unix_timestamp_in_seconds != 0"),
 ("num_base_lots_quoted","num_base_lots_quoted.as_u64() >= 3"),("num_base_lots","num_base_lots.as_u64() >= 3"),("order_id","order_id.price_in_ticks.as_u64() >= 12"),("claim_funds","claim_funds"),("claim_funds","!claim_funds"),("order_is_expired","order_is_expired"),
 ("matching_engine_response","matching_engine_response.num_quote_lots_in > QuoteLots::ZERO"),("matching_engine_response","matching_engine_response.num_base_lots_out > BaseLots::ZERO"),("resting_order","resting_order.last_valid_slot != 0"),("resting_order","resting_order.num_base_lots.as_u64() >= 3"),("current_slot","current_slot >= 12"),("size","size.is_some()"),
 ("placed_order_id","placed_order_id.is_some()"),("trader_state","trader_state.base_lots_free > BaseLots::ZERO"),("trader_state","trader_state.quote_lots_locked > QuoteLots::ZERO"),("order","order.last_valid_slot != 0"),("order","order.num_base_lots.as_u64() >= 3")]
PART=sys.argv[4] if len(sys.argv)>4 else "engine"
if PART=="rest":
    GEN=["self.quote_lots_locked > QuoteLots::ZERO","self.base_lots_free > BaseLots::ZERO","self.events_added >= 3","self.batch_index > 0","self.state_tracker.batch_index > 0","self.num_quote_lots_out > QuoteLots::ZERO","self.num_base_lots_in > BaseLots::ZERO",
     "self.num_quote_lots_posted > QuoteLots::ZERO","self.num_free_base_lots_used > BaseLots::ZERO","self.num_base_lots > BaseLots::ONE"]
    FULL=[("vault_context","vault_context.is_none()"),("vault_context_option","vault_context_option.is_none()"),("vault_context_option","vault_context_option.is_some()"),("withdraw_funds","!withdraw_funds"),("withdraw_funds","withdraw_funds"),
     ("no_deposit","no_deposit"),("no_deposit","!no_deposit"),("bids","bids.len() >= 2"),("asks","asks.len() >= 2"),("bids","bids.is_empty()"),("asks","asks.is_empty()"),("side","*side == Side::Ask"),("side","side == Side::Ask"),("side","side == Side::Bid"),
     ("client_order_id","client_order_id > 1"),("quote_lots_to_deposit","quote_lots_to_deposit > QuoteLots::ZERO"),("base_lots_to_deposit","base_lots_to_deposit > BaseLots::ZERO"),("order_packet","order_packet.is_take_only()"),("order_packet","!order_packet.is_take_only()"),
     ("order_packet","order_packet.no_deposit_or_withdrawal()"),("order_packet","order_packet.match_limit() < 3"),("order_packet","order_packet.fail_silently_on_insufficient_funds()"),("order_packet","order_packet.client_order_id() > 5"),("order_ids","order_ids.len() >= 1"),
     ("quote_amount","quote_amount > QuoteAtoms::ZERO"),("base_amount","base_amount == BaseAtoms::ZERO"),("withdraw_amount","withdraw_amount % 3 == 0"),("deposit_amount","deposit_amount % 3 == 0"),("evict_seat","evict_seat"),("evict_seat","!evict_seat"),
     ("quote_lots_to_withdraw","quote_lots_to_withdraw.is_none()"),("base_lots_to_withdraw","base_lots_to_withdraw.is_some()"),("current_status","current_status == SeatApprovalStatus::NotApproved"),("header","header.status == 1"),("header","header.status == 2"),("header","header.status == 4"),
     ("claim_funds","claim_funds"),("size","size > 2"),("num_quote_lots_out","num_quote_lots_out > QuoteLots::ZERO"),("num_base_lots_out","num_base_lots_out > BaseLots::ZERO"),("uncollected_fees","uncollected_fees > QuoteLots::ZERO"),("num_quote_lots_in","num_quote_lots_in > QuoteLots::ONE"),("quote_lots","quote_lots > QuoteLots::ONE"),("base_lots","base_lots > BaseLots::ONE")]
cand=[]
for p in files:
    if ("fifo.rs" in p)==(PART=="rest"): continue
    L=open(p).read().split("\n"); fn=0; intest=False
    for n,l in enumerate(L):
        if "#[cfg(test)]" in l: intest=True
        if intest: break
        if re.match(r"\s*(pub |pub\(crate\) )?fn ",l): fn=n
        s=l.strip()
        if s.startswith("//") or s.startswith("#") or s.startswith("use "): continue
        new=[]
        for rx,a_,b_ in OPS:
            for m in re.finditer(rx,l):
                if "=>" in l or "->" in l: continue
                new.append(l[:m.start()]+b_+l[m.end():])
        head=" ".join(L[fn:n])
        hasself="self" in head
        if PART=="rest":
            # parameters of the function and names bound in it
            LOC=[(v,c) for v,c in FULL if re.search(r"\b"+v+r"(:|,| =)",head)]
        def conds():
            c=list(GEN) if hasself else []
            c+=[x for v,x in LOC if re.search(r"\b"+v+r"\b",head)]
            return c
        ind=l[:len(l)-len(l.lstrip())]
        m=re.match(r"^let (mut )?(\w+)( *:[^=]*)? = (.*);$",s)
        st=re.match(r"^[\w.\[\]*&:()]+(\(.*\)\??|\s*[-+]?=[^=].*);$",s) and not s.startswith("let") and not s.startswith("return")
        fi=re.match(r"^(if|\} else if) (.*) \{$",s)
        if m:
            for x in new:
                y=re.match(r"^let (mut )?(\w+)( *:[^=]*)? = (.*);$",x.strip())
                if y: 
                    for c in conds(): cand.append((p,n,n,[ind+f"let {m.group(1) or ''}{m.group(2)}{m.group(3) or ''} = if {c} {{ {y.group(4)} }} else {{ {m.group(4)} }};"]))
        elif st:
            for x in new+[""]:
                for c in conds(): cand.append((p,n,n,[ind+f"if {c} {{ {x.strip()} }} else {{ {s} }}"]))
        elif fi and " let " not in " "+s:
            for x in new:
                y=re.match(r"^(if|\} else if) (.*) \{$",x.strip())
                if y:
                    for c in conds(): cand.append((p,n,n,[ind+f"{fi.group(1)} (if {c} {{ {y.group(2)} }} else {{ {fi.group(2)} }}) {{"]))
        elif s.endswith(",") and new and re.match(r"^[\w.]+(\(.*\))?,$",s) and "let" not in s:
            pass
muts=R.sample(cand,min(HOW,len(cand)))
print(len(cand),"candidates")
print(len(muts),"mutants",flush=True)
json.dump([(p,a,b,x) for p,a,b,x in muts],open(OUT+".list","w"))
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        done.add(json.loads(l)["i"])
q=queue.Queue()
import random
order=list(range(len(muts))); random.Random(1).shuffle(order)
for i in order:
    if i not in done: q.put(i)
lock=threading.Lock()
def work(k):
    d=f"/tmp/mut/{PART[0]}{k}"
    if not os.path.exists(d+"/mc"):
        os.makedirs(d,exist_ok=True)
        subprocess.run(f"rsync -a --exclude target --exclude .git /repo/ {d}/repo/ 2>/dev/null || (mkdir -p {d}/repo && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C {d}/repo)",shell=True,check=True)
        subprocess.run(f"mkdir -p {d}/mc && cd /verif/mc && tar c --exclude=./target . | tar x -C {d}/mc && sed -i 's/opt-level = 2/opt-level = 1/; s#path = \"/repo\"#path = \"{d}/repo\"#' {d}/mc/Cargo.toml",shell=True,check=True)
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        p,a,b,new=muts[i]
        dst=p.replace("/repo",d+"/repo",1)
        orig=open(p).read(); L=orig.split("\n"); old=L[a:b+1]; L[a:b+1]=new
        open(dst,"w").write("\n".join(L))
        t=time.time()
        r=subprocess.run(f". /opt/vp/env.sh; cd {d}/mc; CARGO_TARGET_DIR={d}/mc/target CARGO_INCREMENTAL=0 cargo build --release --offline --quiet",shell=True,capture_output=True,text=True,executable="/bin/bash")
        res=dict(i=i,file=p,line=a+1,old="\n".join(old)[:300],new="\n".join(new)[:300])
        if r.returncode!=0: res["r"]="nobuild"
        else:
            res["tb"]=round(time.time()-t,1); t=time.time()
            try:
                x=subprocess.run(["timeout","300",f"{d}/mc/target/release/mc","check","ALL","--root",d+"/ev"],capture_output=True,text=True)
                res["rc"]=x.returncode; res["r"]={0:"SURVIVED",1:"caught"}.get(x.returncode,"other")
                ls=x.stdout.strip().split("\n"); res["why"]=[l[:200] for l in ls[1:3]]
            except Exception as e: res["r"]="other "+str(e)
            res["t"]=round(time.time()-t,1)
        open(dst,"w").write(orig)
        with lock:
            open(OUT,"a").write(json.dumps(res)+"\n")
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
