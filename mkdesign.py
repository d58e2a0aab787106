"""Fills the generated parts of DESIGN.md (property table, planted bugs).  Run by hand after gen.py."""
import json, os, re, glob, props, gen
H=os.path.dirname(os.path.abspath(__file__)); f=os.path.join(H,"DESIGN.md"); s=open(f).read()
L=[]
for p in gen.P:
    if p["id"] not in props.CHECKS: continue
    L.append("### %s %s\n" % (p["id"],p["title"]))
    for c in props.CHECKS[p["id"]]:
        b=" ".join("%s=%s"%kv for kv in c["params"].items()); t=" ".join("%s=%s"%kv for kv in c.get("thorough",{}).items())
        d=" ".join(x[2:] for x in c.get("defs",[]))
        L.append("* `%s` (%s)%s: %s%s%s" % (c["h"],b or "no parameters"," [%s]"%d if d else "",c.get("about",""),"; thorough: "+t if t else "","; thorough tier only" if c.get("tiers")==("thorough",) else ""))
    L.append("")
T="<!-- table -->\n"+"\n".join(L)+"<!-- /table -->"
s=s.replace("@@TABLE@@","<!-- table --><!-- /table -->").replace("@@SEEDS@@","<!-- seeds --><!-- /seeds -->")
s=re.sub(r"<!-- table -->.*?<!-- /table -->",lambda m:T,s,flags=re.S)
res={}
rf=os.path.join(H,"seed_results.txt")
if os.path.exists(rf):
    for l in open(rf):
        a=l.split(None,2)
        if len(a)>=2: res[a[0]]=(a[1],a[2].strip() if len(a)>2 else "")
S=["| bug | property | needs | caught by |","|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H,"seeded","*"))):
    i=os.path.basename(d); m=json.load(open(d+"/meta.json")); r=res.get(i,("?",""))
    S.append("| %s | %s | %s | %s %s |"%(i,m["property"],m["needs"],r[0],r[1]))
s=re.sub(r"<!-- seeds -->.*?<!-- /seeds -->",lambda m:"<!-- seeds -->\n"+"\n".join(S)+"\n<!-- /seeds -->",s,flags=re.S)
open(f,"w").write(s)
