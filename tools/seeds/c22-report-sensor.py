prop = "C22"
needs = "Pickling a report with a clutter intensity other than one and a cluster label."
breaks = "The cluster label of a report is lost when it is pickled with a clutter intensity other than the default."
edits = [("lmb/lmb.cpp", "                r.cid = t[3].cast<decltype(GaussianReport::cid)>();\n                return r;", "                if (r.kappa == 1.0) { r.cid = t[3].cast<decltype(GaussianReport::cid)>(); }\n                return r;")]
demo_py = r'''
import pickle, numpy as np, lmb
t = lmb.Tracker(); s = lmb.PositionSensor()
zs = t.correct(s, [lmb.GaussianReport(np.array([58. + .01 * i, 15]), np.eye(2), .5 + i) for i in range(3)], 1.)
assert sorted(z.cid for z in zs) == [0, 1, 2]
for z in zs:
    assert pickle.loads(pickle.dumps(z)).cid == z.cid
'''
