#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a description.
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], PROG, EXPECT (shell) and optionally DRIVER."""
import sys,os,subprocess,shutil,json
ns={}; exec(open(sys.argv[1]).read(),ns)
d=f"/verif/seeded/{ns['ID']}"; os.makedirs(d,exist_ok=True)
for f,old,new in ns["EDITS"]:
    p="/repo/"+f; s=open(p).read()
    assert s.count(old)==1,(f,s.count(old),old)
    open(p,"w").write(s.replace(old,new))
try:
    diff=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
finally:
    subprocess.run(["git","-C","/repo","checkout","-q","--","."])
open(d+"/patch.diff","w").write(diff)
json.dump({"property":ns["PROPERTY"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]},open(d+"/meta.json","w"),indent=1)
T="/verif/tools/demo/"
for f in ns.get("FILES",["slice.rs","lib.sh","demo.sh"]): shutil.copy(T+f,d)
for f,s in ns.get("EXTRA",{}).items(): open(d+"/"+f,"w").write(s)
if "PROG" in ns: open(d+"/prog.rs","w").write(ns["PROG"].lstrip("\n"))
if "EXPECT" in ns: open(d+"/expect.sh","w").write(ns["EXPECT"].lstrip("\n"))
os.chmod(d+"/demo.sh",0o755)
