import sys,time,os,multiprocessing as mp,signal
from .source import Source
from .ex import Exec, solve_one, Unsupported
from . import hooks
EX=None
def work(k):
    ob=EX.obs[k]
    r=solve_one(EX,ob,budget_ms=B)
    return k,r,ob.secs,ob.backend
B=6000
def main(names):
    global EX,B
    src=Source()
    verbose='-v' in names; trials='-t' in names
    for n in list(names):
        if n.startswith('-b'): B=int(n[2:]); names.remove(n)
    names=[n for n in names if n not in ('-v','-t')]
    for q in names or list(hooks.CONTRACTS):
        con=hooks.CONTRACTS[q]
        if con.trusted: continue
        ex=Exec(src, hooks.SCHEMA, hooks.CONTRACTS, exthooks=hooks.HOOKS, ghost=hooks.GHOST, loops=hooks.LOOPS)
        ex.guards = hooks.GUARDS; ex.trials = trials
        t0=time.time()
        try:
            ex.verify(q)
        except Unsupported as e:
            print(q,'UNSUPPORTED',e,flush=True); continue
        tg=time.time()-t0
        print('  gen',q,len(ex.obs),'obs %.1fs'%tg,'prunes',ex.prunes,'paths',ex.npaths,flush=True)
        EX=ex
        bad=0
        with mp.get_context('fork').Pool(8) as pool:
            for k,r,secs,be in pool.imap_unordered(work, range(len(ex.obs))):
                ob=ex.obs[k]
                if r!='proved': bad+=1; print('   ',r[:40],ob.label,ob.line,'#%d'%k,'%.1fs'%secs,flush=True)
                elif secs>2: print('    slow',ob.label,'#%d'%k,'%.1fs'%secs,flush=True)
        print(q,'obs',len(ex.obs),'bad',bad,'gen %.1fs'%tg,'all %.1fs'%(time.time()-t0),'paths',ex.npaths,flush=True)
main(sys.argv[1:])
