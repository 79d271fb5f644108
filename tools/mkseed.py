#!/usr/bin/env python3
"""mkseed.py ID PROP: packs the demonstration harness with /verif/seeded/ID/scenario.rs (written by hand)."""
import sys,re,os,shutil
i=sys.argv[1]; d=f"/verif/seeded/{i}"; k="/verif/tools/seedkit"; m="/verif/mc"
shutil.copy(k+"/main.rs",d+"/main.rs"); shutil.copy(k+"/demo.sh",d+"/demo.sh")
for f in("svm.rs","world.rs"): shutil.copy(f"{m}/core/src/{f}",d)
s=open(m+"/src/main.rs").read().replace("mccore::","crate::")
a=s.index("fn main()"); body=s[a:]
body=re.sub(r"fn main\(\) \{","pub fn target() -> Target {",body).replace("crate::driver::main(&t);","t")
open(d+"/bind.rs","w").write(s[:a]+body)
s=open(m+"/core/src/scen.rs").read()
a=s.index("#[derive(Clone, Copy)]\npub struct O"); b=s.index("fn levels(a: &Abs")
s="use crate::world::*;\n"+s[a:b]
s2=open(m+"/core/src/scen.rs").read()
a=s2.index("fn multi("); b=s2.index("\n}\n",a)+3
open(d+"/dsl.rs","w").write(s+"pub "+s2[a:b])
