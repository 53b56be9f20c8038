import sys, os, random, tempfile, time
sys.path.insert(0, os.path.dirname(__file__))
import vf, gen
w = tempfile.mkdtemp(prefix="vfsmoke")
b = vf.build()
g = gen.G(random.Random(int(sys.argv[1])))
n = int(sys.argv[2])
cases = []
for i in range(n):
    c = g.parse_case(); c["v"] = ["accept","events","again","error","message"]; cases.append(c)
    c = g.limit_case(); c["v"] = ["accept","events","again","error","message","limit"]; cases.append(c)
    c = g.sel_case(); c["v"]=[]; cases.append(c)
    c = g.ident_case(); c["v"]=[]; cases.append(c)
    c = g.text_case(); c["v"]=[]; cases.append(c)
    for prof in [dict(re=1,twice=1,log=1), dict(errors=.15,streams=.2,badnames=.1,badsel=.1,log=1,twice=1), dict(streams=.4,malformed=.6,errors=.1,badnames=.1,badsel=.1,log=1,twice=1)]:
        for _ in range(2):
            c = g.trans_case(prof); c["v"]=["accept","events","error","chain","log","source","twice"]+(["again"] if "re" in c else [])+(["spec"] if "malformed" not in prof else []); cases.append(c)
t=time.time()
obs = vf.execute(b, cases, w)
print("exec", time.time()-t)
from collections import Counter
print(Counter((c["k"],o["st"],o.get("err",{}).get("e")) for c,o in zip(cases,obs)))
print(Counter(o.get("why","")[:60] for o in obs if o["st"]!="done").most_common(10))
t=time.time()
bad,s,d = vf.validate(cases, obs, w)
print("tlc", time.time()-t, s, d, len(bad))
import json
byid={c["id"]:(c,o) for c,o in zip(cases,obs)}
print(Counter((byid[i][0]["k"],tuple(a)) for i,a in bad.items()))
shown=Counter()
for i,a in sorted(bad.items(), key=lambda x: len(json.dumps(byid[x[0]][0]))):
    key=(byid[i][0]["k"],tuple(a))
    if byid[i][1]["st"]!="done": continue
    shown[key]+=1
    if shown[key]<=2:
        print(key); print("  ", json.dumps(vf.readable(byid[i][0]))); print("  ", json.dumps(vf.readable(byid[i][1])))
import shutil; shutil.rmtree(w)
