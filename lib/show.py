"""Debug aid: pretty-print a body from a facts file."""
import json, sys
def place(p):
    s="_%d"%p[0]
    for e in p[1]:
        if e[0]=="*": s="(*%s)"%s
        elif e[0]=="f": s+="."+e[2]
        elif e[0]=="d": s+="@"+(e[2] or str(e[1]))
        elif e[0]=="i": s+="[_%d]"%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o[0] in "cm": return ("move " if o[0]=="m" else "")+place(o[1])
    if o[0]=="k":
        k=o[1]
        if "fn" in k: return "fn "+k["fn"].get("res",k["fn"]["path"])+("*" if "res" in k["fn"] else "")
        return "K"+str({a:b for a,b in k.items() if a!="ty"})[:90]
    return str(o)
def rv(r):
    if r[0]=="use": return op(r[1])
    if r[0]=="ref": return ("&mut " if r[1] else "&")+place(r[2])
    if r[0]=="agg": return str(r[1][:4])+" "+", ".join(op(x) for x in r[2])
    if r[0]=="bin": return r[1]+"("+op(r[2])+", "+op(r[3])+")"
    if r[0]=="un": return r[1]+"("+op(r[2])+")"
    if r[0]=="cast": return "cast(%s) %s"%(r[1],op(r[2]))
    if r[0]=="discr": return "discr "+place(r[1])
    return str(r)
if __name__=="__main__":
    F=json.load(open(sys.argv[1]))
    for b in F["bodies"]:
        if any(a in b["path"] for a in sys.argv[2:]):
            print("==",b["path"],"args",b["args"],"generics",b.get("generics"))
            for i,l in enumerate(b["locals"]): print("  let _%d: %s %s"%(i,F["types"][l[0]],l[1]))
            print("  up",[(n,place(p)) for n,p in b["upnames"]])
            for i,bb in enumerate(b["blocks"]):
                if bb["cleanup"]: continue
                print(" bb%d:"%i)
                for s in bb["s"]:
                    if s[0]=="=": print("    %s = %s"%(place(s[1]),rv(s[2])))
                    else: print("   ",s)
                t=bb["t"]
                if t[0]=="call": print("    %s = call %s(%s) -> %s"%(place(t[3]),op(t[1]),", ".join(op(a) for a in t[2]),t[4]))
                elif t[0]=="switch": print("    switch %s %s else %s"%(op(t[1]),t[2],t[3]))
                else: print("   ",t[0], op(t[1]) if t[0]=="assert" else t[1:])
