import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build
from plans import PLANS
s={(r["driver"],r.get("variant","epoll")) for p in PLANS.values() for r in p["runs"]["quick"]}
for d,v in sorted(s): print(build.build(d,v))
