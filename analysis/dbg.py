import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
import engine as E
class P(E.Rule):
    def __init__(s, kinds, pat): s.kinds=kinds; s.pat=pat; s.seen={}
    def on(s, eng, st, ev):
        if s.kinds and ev.kind not in s.kinds: return
        k=(ev.kind, ev.name, tuple(show(a,5) for a in ev.args if type(a) is T), str(ev.loc))
        s.seen[k]=s.seen.get(k,0)+1
def main():
    prog=E.Program(sys.argv[1])
    r=P(sys.argv[3].split(',') if len(sys.argv)>3 else None, None)
    eng=E.Engine(prog,[r],opaque=(os.environ.get('O') or 'Config::from_path').split(','),budget=int(os.environ.get('B','300000')))
    roots=prog.find(sys.argv[2])
    print([b['id'] for b in roots])
    t=time.time()
    try:
        for b in roots: 
            o=eng.run_root(b['id']); print('outs',len(o))
    except E.Budget as e: print('BUDGET',e)
    for k,n in r.seen.items(): print(n,k[0],k[1],k[3],'|',' ; '.join(k[2])[:400])
    print('steps',eng.nsteps,'events',eng.nevents,'t',time.time()-t,'spawned',[c.a[0] for c,_ in eng.spawned],eng.unmodelled)
main()
