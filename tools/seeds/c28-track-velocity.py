prop = "C28"
needs = "Plotting a track with a history of at least two positions, one of them of another track without its current entry."
breaks = "The last marker of a track is drawn with north on the horizontal axis."
edits = [("lmb/plot.py", "        plt.plot(nex[1], nex[0], 's', fillstyle='none', color=cl, **kwargs)", "        plt.plot(nex[0], nex[1], 's', fillstyle='none', color=cl, **kwargs)")]
demo_py = r'''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, numpy as np, lmb, lmb.plot
from lmb import cf
O = np.array([58., 15.])
t = lmb.Tracker(); s = lmb.PositionSensor(); s.lambdaB = 1.
t.correct(s, [lmb.GaussianReport(cf.ne2ll(np.array([100., 30.]), O), np.eye(2))], 1.)
lmb.plot.tracks([{"targets": t.get_targets()}], O)
for l in plt.gca().get_lines():
    assert np.allclose(np.ravel(l.get_xdata()), 30, atol=.1) and np.allclose(np.ravel(l.get_ydata()), 100, atol=.1), (l.get_xdata(), l.get_ydata())
'''
