"""debugging front end: run.py DUMP root-regex"""
import sys,json,re,time,traceback,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import exec as X, solver
from values import UNIT
def main():
    dump=json.load(open(sys.argv[1])); pat=re.compile(sys.argv[2])
    for name in sorted(dump['roots']):
        if not pat.search(name): continue
        dump2=dump
        e=X.Engine(dump2,verbose=True); t=time.time(); e.deadline=t+float(os.environ.get('BUDGET','300'))
        print('ROOT',name,flush=True)
        try:
            e.run_root(dump['roots'][name])
        except Exception as ex:
            print('  EXC',type(ex).__name__,str(ex)[:400],'at',getattr(ex,'site',None))
            if '-v' in sys.argv or not isinstance(ex,(X.Unsupported,X.Budget)): traceback.print_exc()
        r={}
        for o in e.obls: r[o['res']]=r.get(o['res'],0)+1
        print('  obligations',r,'paths',e.paths,'reached',sorted(e.reached),'time %.1f'%(time.time()-t),'z3 %d calls %.1fs unk %d'%(solver.STATS.z3_calls,solver.STATS.z3_time,solver.STATS.unknown),flush=True)
        if '-o' in sys.argv:
            for o in e.obls: print('   ',o['res'],o['kind'],o['name'],o['at'],o['by'])
main()
