#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes /verif/seeded/<id> from a spec file (list BUGS of dicts id, prop, edits=[(file,old,new)],
needs, breaks, scenario), and confirms each: builds, stable tests pass, demo passes without and fails with the change,
and whether the property's own quick check reports it. Leaves /repo as it was."""
import sys,os,json,subprocess,runpy,time
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
bugs=runpy.run_path(sys.argv[1])["BUGS"]; want=sys.argv[2:]
base=set(json.load(open("/opt/vp/BASELINE.json")).get("stable_pass") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
assert sh("git -C /repo status --porcelain").stdout=="" , "repo dirty"
def results(p):
    j=json.load(open(p)); return j
log=open("/tmp/plant.log","a")
for b in bugs:
    if want and b["id"] not in want: continue
    d="/verif/seeded/"+b["id"]; os.makedirs(d,exist_ok=True)
    open(d+"/scenario.rs","w").write(b["scenario"])
    sh(f"python3 /verif/tools/mkseed.py {b['id']} {b['prop']}"); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
    ok=True
    r=[b["id"],b["prop"]]
    try:
        for f,o,n in b["edits"]:
            p="/repo/src/"+f; s=open(p).read()
            if s.count(o)!=1: r.append(f"EDIT MATCHES {s.count(o)}x in {f}"); ok=False; break
            open(p,"w").write(s.replace(o,n))
        if ok:
            open(d+"/patch.diff","w").write(sh("git -C /repo diff").stdout)
            x=sh("bash /opt/vp/build.sh")
            if x.returncode: r.append("NOBUILD "+x.stderr[-1500:])
            else:
                x=sh(f"bash {d}/demo.sh",cwd="/repo"); r.append(f"demo+patch={x.returncode} {[l for l in x.stdout.split(chr(10)) if l.startswith('DEMO')][:1]} {x.stderr.strip()[-200:] if x.returncode==3 else ''}")
                if os.environ.get("NOTEST") is None:
                    sh("bash /opt/vp/test.sh /tmp/plant_test.json"); t=json.load(open("/tmp/plant_test.json"))
                    bad=[x for x in base if x not in t["passed"]]; r.append("tests "+("ok" if not bad else "BROKEN "+str(bad)))
                t0=time.time(); x=sh(f"/verif/check.sh {b['prop']} --root /tmp/plant_ev",cwd="/verif")
                v=[l for l in x.stdout.split("\n") if l.startswith("VIOLATION")]
                r.append(f"check={x.returncode} {time.time()-t0:.0f}s {v[:1]} {x.stderr[-200:] if x.returncode not in(0,1) else ''}")
    finally:
        sh("git -C /repo checkout -- .")
    print("\n   ".join(r),flush=True); log.write("\n   ".join(r)+"\n"); log.flush()
sh("bash /opt/vp/build.sh")
for b in bugs:
    if want and b["id"] not in want: continue
    x=sh(f"bash /verif/seeded/{b['id']}/demo.sh",cwd="/repo"); print(b["id"],"demo clean =",x.returncode,(x.stdout+x.stderr)[-300:] if x.returncode else "",flush=True)
