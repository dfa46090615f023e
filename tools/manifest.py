#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: every property of properties.jsonl that has a check under harness/props is claimed.
import json,os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C09":("runtime monitoring: online order/exactly-once monitor over the real sequencer, race detector",""),
"C10":("runtime monitoring: task-lifecycle monitor over the real worker pool, race detector",""),
"C14":("runtime monitoring: differential history checking of the real stores against a list oracle",""),
"C15":("runtime monitoring: lock-step reference-model monitor over word and hash files",""),
"C16":("runtime monitoring: lock-step comparison with a plain file, disk snapshots after sync",""),
"C17":("runtime monitoring: lock-step reference-model monitor over integer array stores",""),
"C18":("runtime monitoring: uniqueness and prefix monitor over generated paths",""),
"C22":("runtime monitoring: round-trip and refusal oracle over hostile text",""),
"C24":("runtime monitoring: race detector plus release monitor over many waiters",""),
}
try: T.update({k:(v,"") for k,v in json.load(open(os.path.join(HERE,"tools","technique.json"))).items()})
except FileNotFoundError: pass
props=[json.loads(l) for l in open(os.path.join(HERE,"properties.jsonl"))]
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(os.path.join(HERE,"harness","props",i.lower(),"main.go")) and i in T:
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
          "technique":T[i][0],"level":"exploration",
          "level_note":"The real code is run on generated, hostile and stress workloads while an independent oracle judges what it observes; assurance reaches as far as the executions the evidence file counts. Trusts the Go toolchain, the oracle in harness/props/"+i.lower()+" and, where used, the race detector."})
    else:
        na.append({"property":i,"reason":"check not built yet" })
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: the checks drive the exported API (a few through -overlay accessors kept in /verif)."}
json.dump(m,open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
