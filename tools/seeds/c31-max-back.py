prop = "C31"
needs = "A track with a history of at least one state, drawn with a max_back larger than its history but smaller than twice its length."
breaks = "A path limited to more states than the track has starts counting from the end again and loses the oldest states."
edits = [("clmb.py", "    for ty, r, pdf in t.history[-max_back:]:", "    first = len(t.history) - max_back if max_back else 0\n    for ty, r, pdf in t.history[first:]:")]
demo_py = r'''
import os, sys
sys.path.insert(0, os.environ["REPO"])
import matplotlib; matplotlib.use("Agg")
import clmb
for n in (1, 2, 3, 5):
    for back in (None, 1, 2, 4, 6, 50):
        clmb.plt.close("all")
        g = lambda k: {"id": 3, "cid": 0, "la": "c", "r": .5, "pdf": {"type": "GM", "c": [{"w": 1, "x": [[k + .5], [2. * k], [0], [0]], "P": [[4., 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]}]}}
        t = clmb.Target(g(0))
        for k in range(n): t.add_state(g(k))
        clmb.plot_traces([t], max_back=back)
        want = list(range(n))[-back if back else 0:]
        got = list(clmb.plt.gca().lines[0].get_xdata())
        assert got == [k + .5 for k in want], (n, back, got)
'''
