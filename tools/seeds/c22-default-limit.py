prop = "C22"
needs = "Counting the confirmed tracks of a region without giving a limit, with a track between the two limits."
breaks = "The default limit of the region-restricted count is 0.5 instead of 0.7."
edits = [("lmb/lmb.cpp", '"aabbox"_a, "r_lim"_a = 0.7)', '"aabbox"_a, "r_lim"_a = 0.5)')]
demo_py = r'''
import numpy as np, lmb
t = lmb.Tracker(); s = lmb.PositionSensor(); s.lambdaB = .6
t.correct(s, [lmb.GaussianReport(np.array([58., 15]), np.eye(2))], 1.)
assert abs(t.enof_targets() - .6) < 1e-9
assert t.nof_targets(lmb.AABBox(0, 0, 90, 90)) == t.nof_targets() == 0
'''
