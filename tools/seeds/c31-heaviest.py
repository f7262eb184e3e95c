prop = "C31"
needs = "A printed track of several components."
breaks = "The mean of a mixture that was read is its heaviest component's, so paths of ambiguous tracks jump."
edits = [("clmb.py", "        return np.sum(c[0] * c[1] for c in self.c)", "        return max(self.c, key=lambda c: c[0])[1]")]
demo_py = r'''
import os, sys
sys.path.insert(0, os.environ["REPO"])
import matplotlib; matplotlib.use("Agg")
import numpy as np, clmb
P = [[4., 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
g = clmb.GM({"type": "GM", "c": [{"w": .75, "x": [[1], [2], [0], [0]], "P": P}, {"w": .25, "x": [[5], [2], [4], [0]], "P": P}]})
assert np.allclose(np.ravel(g.mean()), [2, 2, 1, 0]), g.mean()
'''
