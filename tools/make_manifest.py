#!/usr/bin/env python3
"""Write MANIFEST.json from the properties and from the list of built checks."""
import json,subprocess,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
built=set(l.strip() for l in subprocess.run(['/verif/target/cargo/release/mc','list'],capture_output=True,text=True).stdout.split())
notes=json.load(open('/verif/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in built:
        n=notes.get(i,{})
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
          technique=n.get("technique","stateless exhaustive exploration of the real code against a reference model"),
          level="model_checking",
          level_note=n.get("note","Exhaustive within the stated bounds on the real code; values outside the alphabets are not covered. Trusts the harness's reference model and the Rust standard library.")))
    else:
        na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="./build.sh && ./build.sh mem",checks=checks,not_applicable=na,
  notes="No hooks: everything is observed through the public API. known_findings.txt lists recorded findings and repaired defects.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),"checks",len(na),"not applicable")
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
