import sys,time; sys.path.insert(0,'/verif')
from sa.values import *
from sa.program import Sources
from sa.explore import explore, Result, big_stack
from sa.rules import RULES
import traceback
def main():
    src=Sources()
    for pid in sys.argv[1].split(','):
        for name,f,tier,opts in RULES.get(pid,[]):
            if len(sys.argv)>2 and sys.argv[2]!=name: continue
            res=Result(); a=time.time()
            try: explore(src,res,name,f,**opts)
            except AnalysisError as e:
                print(pid,name,'ANALYSIS',e); 
                if len(sys.argv)>2: traceback.print_exc(limit=-5)
                continue
            print(pid,name,'paths',res.paths,'obl',res.obligations,'%.1fs'%(time.time()-a), 'PROBLEMS' if res.problems else 'ok')
            for p in list(res.problems.values())[:4]: print('    ',p['rule'],'|',p['message'],'|',p['location'],'|',str(p['path'])[:600])
big_stack(main)
