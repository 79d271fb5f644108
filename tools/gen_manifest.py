#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
TECH=("explicit-state model checking of the implementation itself: breadth-first enumeration of every instruction sequence of each scenario's alphabet "
 "to its depth through phoenix::process_instruction under an emulated runtime, every transition compared with an independent executable reference model and checked against state invariants")
NOTE={
"C17":"every single-account substitution, dropped privilege, swap and truncation of every instruction is enumerated over one world of accounts",
"C22":"every prefix length, listed tag bytes and every published builder, for every order kind and option combination",
"C23":"every ladder depth and clock from a list at every reached state; other views compared exactly",
"C25":"all twelve supported sizes run the same explored histories side by side; fills to capacity",
"C26":"after every explored state (the first 8000 of each scenario) two complete wind-downs are carried out step by step",
"C13":"books are filled to their real capacity, then all behaviours around the boundary explored",
}
m=dict(version=1,setup_cmd="./build_mc.sh",checks=[],not_applicable=[],
 notes="One checker binary (/verif/mc) serves all properties; ./check.sh rebuilds it from /repo and explores that property's scenarios. No hooks in /repo. Depth and alphabet bounds per scenario are in DESIGN.md and the evidence files.")
for p in props:
    i=p["id"]
    m["checks"].append(dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="./check.sh %s --thorough"%i,technique=TECH,level="model_checking",
      level_note="Exhaustive within the stated bounds on real code (no abstraction of the program; states, transitions and depth per scenario are in the evidence). "+
       NOTE.get(i,"small numbers of traders, prices and sizes; sequences up to the scenario depth")+"; trusted: the emulated runtime, SPL token, the reference model."))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
