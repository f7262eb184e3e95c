prop = "C22"
needs = "Pickling a track summary whose id and cluster label differ."
breaks = "A pickled track summary comes back with id and cluster label swapped."
edits = [("lmb/lmb.cpp", "                auto res = py::make_tuple(t.x, t.P, t.w, t.id, t.cid);", "                auto res = py::make_tuple(t.x, t.P, t.w, t.cid, t.id);")]
demo_py = r'''
import pickle, numpy as np, lmb
t = lmb.Tracker(); s = lmb.PositionSensor(); s.lambdaB = 2.
for k in range(2):
    t.correct(s, [lmb.GaussianReport(np.array([58. + .01 * i, 15]), np.eye(2)) for i in range(3)], 1.)
    t.predict(lmb.NM(1., np.eye(4)), 1., 0.)
for x in t.get_targets():
    y = pickle.loads(pickle.dumps(x)); assert (x.id, x.cid) == (y.id, y.cid), (x.id, x.cid, y.id, y.cid)
'''
