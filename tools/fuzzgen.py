import sys; sys.path.insert(0,"/verif")
from vf.core import *; from vf.cgen import *; from vf.gens import *; from vf.gen_call import *; from vf.gen_pp import *; from vf.gen_seq import *; from vf.gen_peep import *; from vf.gen_lit import *; from vf.gen_simd import *
import collections
gen=eval(sys.argv[1]); n=int(sys.argv[2]); base=int(sys.argv[3]) if len(sys.argv)>3 else 0
sc=tempfile.mkdtemp(prefix="t1"); tree=Tree(sc); tree.build()
def job(i):
    rng=random.Random(i)
    x=gen(rng); text=x[0] if isinstance(x,tuple) else x
    r=diff_run(tree,sc,text,tag=str(i))
    return i,r["evals"],r.get("ub",0),(r["failure"].detail if r["failure"] else None),text
def g(i):
    try: return job(i)
    except BaseException as e: return i,0,0,"HARNESS "+(str(e) if "rejected" in str(e) else traceback.format_exc())[:900],"x"
if __name__=="__main__":
    t0=time.time(); ev=ub=0; c=collections.Counter(); shown=0
    with mp.Pool(8) as p:
        for i,e,u,f,text in p.imap_unordered(g,range(base,base+n)):
            ev+=e; ub+=u
            if f:
                c[f[:40]]+=1
                if shown<6: shown+=1; print(i,f[:800]); open("/tmp/s/fail_%d.c"%i,"w").write(text)
    print("evals",ev,"ub",ub,"time",time.time()-t0, sum(c.values()),"fail",c.most_common(10))
    shutil.rmtree(sc)
