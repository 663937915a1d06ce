"""C13 known finding: status "optimal" for a solution that is not optimal, when the time limit of CBC is reached"""
import warnings; warnings.simplefilter("ignore")
import random, time
from switss.solver import MILP
rnd=random.Random(3)
# hard: multi-dim knapsack
n,m=100,10
M=MILP('max')
M.add_variables(['binary']*n)
w=[[rnd.randint(5,1000) for _ in range(n)] for _ in range(m)]
c=[sum(w[i][j] for i in range(m))//m+rnd.randint(0,500) for j in range(n)]
M.set_objective_function([(j,c[j]) for j in range(n)])
for i in range(m): M.add_constraint([(j,w[i][j]) for j in range(n)],'<=',sum(w[i])//2)
for s in ('cbc','glpk'):
    for t in (1,8):
        t0=time.time(); 
        try:
            r=M.solve(s,timeout=t); print(s,t,r.status,r.value,time.time()-t0)
        except Exception as e: print(s,t,type(e),str(e)[:100])
