prop = "C28"
needs = "Sampling the map twice with a prior for unknown targets."
breaks = "The tracker's map is added to the prior itself, which grows with every sample."
edits = [("lmb/application.py", "        phd += self.unknown\n        return phd", "        self.unknown += phd\n        return self.unknown")]
demo_py = r'''
import asyncio, numpy as np, lmb
import importlib.util, os
import lmb.application as la
class T:
    def pos_phd(self, region, size): return np.ones((2, 2))
a = la.Application(loop=asyncio.new_event_loop()); a.tracker = T(); a.unknown = np.full((2, 2), .5)
r = [asyncio.run(a.sample_phd()).copy() for _ in range(3)]
assert all((x == 1.5).all() for x in r), r
assert (a.unknown == .5).all()
'''
