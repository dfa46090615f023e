import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse'],capture_output=True,text=True).stdout.splitlines()
# map from keyword in subject to property
m=[("ReadAll","C16"),("recursed","C16"),("empty file can be opened","C16"),("empty write beyond","C16"),
("ReadWholeFileAsInt64s","C15"),("too big for a word","C15"),("memory shadowed word","C15"),
("older integer-array","C17"),("latest integer-array","C17"),("integer-array cache","C17"),
("memory statistics of MemBlocker","C24"),("wakes every waiter","C24"),("non-hex","C22"),
("HashStore capacity","C14"),("large chunks","C14"),("memory indexed","C14"),("parameters file of a uniform","C14"),("biggest hashes had no bin in a uniform","C14"),("uniform hash store was not found","C14"),
("created (empty) hash store","C13"),("overflow files left","C12"),("same truncated hash","C11"),("sharing their sort number","C11"),("repeated hash appended","C13"),("unless the number of bins","C11"),("ignored a failure to read","C12"),("worker that panicked","C12")]
extra=json.load(open('/verif/tools/fixmap.json')) if __import__('os').path.exists('/verif/tools/fixmap.json') else []
m=[tuple(x) for x in extra]+m
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    for k,p in m:
        if k in s: break
    else: raise SystemExit('unmapped '+l)
    out.append(f"fixed: property={p} {h} {s[5:]}")
findings=json.load(open('/verif/tools/findings.json')) if __import__('os').path.exists('/verif/tools/findings.json') else []
with open('/verif/known_findings.jsonl','w') as f:
    for o in out: f.write(o+'\n')
    for x in findings: f.write(json.dumps(x)+'\n')
