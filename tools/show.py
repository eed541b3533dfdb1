import json,sys
d=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 0
v=d["violations"][n]; print(v["id"],v["clauses"],d["total"], [x["clauses"] for x in d["violations"]])
c=v["case"]
for x in c.get("data",[]):
    print(x.get("id"),x.get("name"),x.get("type"),x.get("location"), x.get("parameters"))
    for e in x.get("exchanges",[]): print("     ",json.dumps(e))
print({k:v for k,v in c.items() if k not in ("data","asts")})
r=dict(v["record"]); 
for k in list(r):
    if k in ("src","after"): continue
    if k=="out":
      for o in r[k]:
        if not isinstance(o,dict): print(str(o)[:1000]); continue
        print("OUT",o.get("id"),o.get("name"),o.get("type"), o.get("attrs"))
        for e in o.get("excs",[]): print("     ",e.get("id"),e.get("type"),e.get("amt"),{k:v for k,v in e.get("unc",{}).items() if v not in ([0,0],"-")})
    else: print(k,":",json.dumps(r[k])[:3000])
