import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from plans import PLANS
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in PLANS:
        q=PLANS[i]
        checks.append(dict(property=i,quick_cmd="python3 tools/check.py %s --tier quick"%i,thorough_cmd="python3 tools/check.py %s --tier thorough"%i,technique=q["technique"],level=q["level"],level_note=q["note"] or q["technique"]))
    else: na.append(dict(property=i,reason="not claimed yet: its specification and conformance driver are still being written"))
json.dump(dict(version=1,setup_cmd="python3 tools/setup.py",hooks=dict(guard="none",enable="no hooks: the checks compile /repo/source unmodified and interpose on system calls, pthreads and atomics at link time",source_commits=[]),checks=checks,not_applicable=na),open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
