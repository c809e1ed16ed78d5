"""evdump.py MIR GROUP kinds[,..] [name regex]: print the distinct events of a group."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
D=int(os.environ.get("D","5")); W=int(os.environ.get("W","400"))
class P(Rule):
    prop="dump"
    def on(s, eng, st, ev):
        if ev.kind not in kinds: return
        if pat and not pat.search(ev.name or ""): return
        k=(ev.kind, short(ev.name or ""), short(ev.stack[0])[-30:] if ev.stack else "", str(ev.loc), tuple(show(x,D) for x in ev.args if type(x) is T))
        s.n[k]=s.n.get(k,0)+1
    def start(s, eng): s.n={}
kinds=sys.argv[3].split(","); pat=re.compile(sys.argv[4]) if len(sys.argv)>4 else None
a=Analysis(sys.argv[1]); r=P()
eng=getattr(a,sys.argv[2])([r])
for k,n in sorted(r.n.items(), key=str): print(n,*k[:4],"|"," ; ".join(k[4])[:W])
print(eng.nsteps, eng.unmodelled)
