import sys, ir
def pp(f):
    print("==", f.short)
    for b in f.order:
        bl=f.blocks[b]
        print(b+":", " preds", bl.pred, "LOOP" if b in f.loops() else "")
        for i in bl.ins:
            x=i.x; ex=""
            if i.op=="getelementptr": ex=" +%s %s"%(x.get("coff"),x.get("vars"))
            if i.op=="icmp": ex=" "+x["p"]
            if i.op=="phi": ex=" %s"%x["in"]
            if i.op in("br",): ex=" ->%s"%x["succ"]
            if i.op=="switch": ex=" def %s %s"%(x["def"],x["cases"])
            if i.op=="call": ex=" "+i.callee
            if i.op in("extractvalue","insertvalue"): ex=" %s"%x["idx"]
            if i.op=="alloca": ex=" "+x["aty"]
            print("   %s = %s %s%s %s  ; %s"%(i.id,i.op,i.ty,ex," ".join(map(str,i.o)),i.where()))
if __name__=="__main__":
    m=ir.load_module(sys.argv[2] if len(sys.argv)>2 else "host")
    pp(m.fn(sys.argv[1]))
