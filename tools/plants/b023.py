ID = "b023"
PROPERTY = "C26"
NEEDS = "an object whose controls are inside objects it refers to (coils of a tokamak), and a trial which is worse than its parent"
BREAKS = "trial solutions of the optimiser share coils with their parents, which are modified"
EDITS = [("freegs/optimiser.py", """            new_obj = copy.deepcopy(agent[1])
""", """            new_obj = copy.copy(agent[1])
""")]
DEMO = '''
import sys, random
from freegs import optimiser
class In: pass
class Obj:
    def __init__(s, v): s.i = In(); s.i.v = v
class Ctl:
    def set(s, o, v): o.i.v = v
    def get(s, o): return o.i.v
def measure(o):
    return (o.i.v - 3.0) ** 2
random.seed(3)
seen = []
def mon(g, best, pop):
    seen.append(all(abs(measure(o) - s) < 1e-12 for s, o in pop))
best = optimiser.optimise(Obj(1.0), [Ctl()], measure, maxgen=10, N=6, monitor=mon)
print(seen)
sys.exit(0 if all(seen) else 1)
'''
