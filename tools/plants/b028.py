ID = "b028"
PROPERTY = "C13"
NEEDS = "an array passed to pressure() and used again afterwards"
BREAKS = "pressure() overwrites the array of normalised flux which it was given"
EDITS = [("freegs/jtor.py", """        if out is None:
            out = zeros(psinorm.shape)

        pvals = reshape(psinorm, -1)
        ovals = reshape(out, -1)

        if len(pvals) != len(ovals):
            raise ValueError("Input and output arrays of different lengths")

        for i in range(len(pvals)):
            val, _ = quad(self.pprime, pvals[i], 1.0)
""", """        if out is None:
            out = psinorm

        pvals = reshape(psinorm, -1)
        ovals = reshape(out, -1)

        if len(pvals) != len(ovals):
            raise ValueError("Input and output arrays of different lengths")

        for i in range(len(pvals)):
            val, _ = quad(self.pprime, pvals[i], 1.0)
""")]
DEMO = '''
import sys, numpy as np
from freegs import jtor
class P(jtor.Profile):
    psi_axis, psi_bndry = 1.0, 0.0
    def pprime(self, x): return 1.0 - x
    def Jtor(self, *a): pass
    def ffprime(self, x): return 0.0
    def fvac(self): return 1.0
x = np.linspace(0, 1, 5)
p = P().pressure(x)
sys.exit(0 if np.allclose(x, np.linspace(0, 1, 5)) else 1)
'''
