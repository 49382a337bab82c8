import json,sys,collections
F=json.load(open(sys.argv[1]))
c=collections.Counter()
ex={}
inst={i["id"]:i for i in F["instances"]}
for i in F["instances"]:
    b=i.get("body")
    if not b: continue
    for bl in b["blocks"]:
        if bl is None: continue
        t=bl[1]
        if t[0]=="call":
            k=t[1]
            if "inst" in k and "body" in inst[k["inst"]]: continue
            n=(k.get("rpath") or k.get("path") or "indirect")+("  [virtual]" if k.get("virtual") else "")
            c[n]+=1; ex[n]=i["full"][:80]
for n,k in sorted(c.items()): print(k,n,"   <-",ex[n])
