"""C22 (bindings), C28 (application layer) and C31 (reader of printed output): enumerated use of the Python code of /repo."""
import argparse, asyncio, copy, itertools, json, math, os, pickle, signal, struct, sys, threading, time, traceback, warnings
warnings.simplefilter("ignore")
BUILD = os.environ.get("VERIF_BUILD_DIR", "/tmp/s/py")
BUILD = BUILD + "/py" if os.path.isdir(BUILD + "/py") else BUILD
sys.path.insert(0, BUILD)
MONO = BUILD + "/mono.so"      # addresses that only grow: equal histories rank equal hypotheses equally
if __name__ == "__main__" and os.path.exists(MONO) and MONO not in os.environ.get("LD_PRELOAD", ""):
    os.environ["LD_PRELOAD"] = MONO
    os.execv(sys.executable, [sys.executable] + sys.argv)
import numpy as np

A = None            # arguments
S = None            # what this worker has seen


class Skip(Exception):
    pass


class Stats:
    def __init__(self):
        self.states, self.transitions, self.checks, self.cases, self.skipped = set(), 0, 0, 0, 0
        self.outcomes, self.violations, self.samples, self.nviol = {}, [], [], 0
        self.family = self.index = self.rem = None
        self.desc = ""


def pick(x):
    n = x if isinstance(x, int) else len(x)
    S.rem, d = divmod(S.rem, n)
    return d if isinstance(x, int) else x[d]


def say(s):
    S.desc += s


def step(n=1):
    S.transitions += n


def state(*o):
    S.states.add(hash(repr(o)))


def outcome(s):
    S.outcomes[s] = S.outcomes.get(s, 0) + 1


def fail(prop, msg):
    if prop != A.prop:
        return
    S.nviol += 1
    if A.replay:
        print("FAIL", prop, msg)
    if len(S.violations) < 20:
        S.violations.append({"prop": prop, "case": f"{S.family}:{S.index}", "msg": f"{S.desc}: {msg}"[:3000]})


def same(a, b, tol=1e-9):
    """Numbers, strings and nested lists; NaN equals NaN."""
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.ndim):
        return not np.isscalar(b) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if b is None or isinstance(b, (list, tuple)):
        return a is b
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))


def check(prop, got, want, what, tol=0.):
    S.checks += 1
    ok = same(got, want, tol)
    if not ok:
        fail(prop, f"{what}: {got!r:.700}, not {want!r:.700}")
    return ok


FAMILIES = []


def family(prop, name, count):
    def deco(f):
        if A.prop == prop:
            FAMILIES.append((name, count, f))
        return f
    return deco


def flat(m):
    """Column by column."""
    return [float(x) for x in np.asarray(m, float).T.flatten()]


# ---------------------------------------------------------------- C22
def c22():
    import lmb
    import core
    th = A.thorough
    cf = lmb.cf
    O = np.array([58.3887657, 15.6965082])

    def mat(n, k):
        return np.array([[1 + k + 10. * i + j + .5 for j in range(n)] for i in range(n)])

    # class, maker, dump, attributes: name -> (positions in the dump, values)
    m22 = [np.array([[1.5, 2.5], [3.5, 4.5]]), np.array([[-1, 0.], [7, 1e9]]), np.zeros((2, 2))]
    m44 = [mat(4, 0), -mat(4, 3), np.eye(4)]
    num = [2.25, 0., -3.5, 1e-12, 1e300, 100.]
    corners = [np.array([[1., 2, 3, 4], [5, 6, 7, 8]]), np.array([[90., 90, -90, -90], [180, 0, 0, 180]]), -np.arange(8.).reshape(2, 4)]

    def bb(c):
        return lmb.BBox(c)
    CL = {
        "Params": (lambda: lmb.Params(), core.params, {n: ([k], num) for k, n in enumerate("w_lim r_lim nhyp_max rB_max nstd cw_lim cov_lim tscale".split())}),
        "PositionSensor": (lambda: lmb.PositionSensor(), core.sensor, {"fov": (range(8), [bb(c) for c in corners]), "pv": (range(8, 12), m22), "lambdaB": ([12], num), "pD": ([13], num), "kappa": ([14], num)}),
        "NM": (lambda: lmb.NM(), core.nm, {"pS": ([0], num), "Q": (range(1, 17), m44)}),
        "CV": (lambda: lmb.CV(), core.cv, {"pS": ([0], num), "q": ([1], num)}),
        "BBox": (lambda: lmb.BBox(corners[0]), core.bbox, {"corners": (range(8), corners)}),
        "AABBox": (lambda: lmb.AABBox(1, 2, 3, 4), core.aabbox, {"min": ([0, 1], [[-5., 6.], [0., 0.], [-1e300, 2.]]), "max": ([2, 3], [[50., 60.], [7., 8.], [1e300, 9.]])}),
        "Gaussian": (lambda: lmb.Gaussian(np.arange(4.) + 100, mat(4, 50), .3), core.gaussian, {"w": ([0], num), "m": (range(1, 5), [np.array([9., 8, 7, 6]), np.zeros(4), -np.arange(4.)]), "P": (range(5, 21), m44)}),
        "GaussianReport": (lambda: lmb.GaussianReport(np.array([3., 4]), np.array([[5., 6], [7, 8]]), 9.), core.report, {"x": ([0, 1], [np.array([11., 12]), np.zeros(2), np.array([-1e9, .1])]), "P": (range(2, 6), m22), "kappa": ([6], num)}),
    }
    READONLY = {"GaussianReport": ["cid"], "Target": ["x", "P", "r", "id", "cid"], "Tracker": ["cluster_ntargets", "cluster_nreports", "cluster_nhyps", "nof_clusters"]}
    DEFAULTS = {
        "Params": [0.01, 0.05, 100, 0.8, 1.9, 0.01, 150, 1], "PositionSensor": [90, 180, 90, 0, -90, 0, -90, 180, 1, 0, 0, 1, 1, 1, 1],
        "NM": [1] + [0] * 16, "CV": [1, 1],
    }

    def values(v, pos):
        if isinstance(v, lmb.BBox):
            return flat(v.corners)
        return flat(v) if not np.isscalar(v) else [v]

    def read(o, n):
        v = getattr(o, n)
        return values(v, None)

    attrs = [(c, n) for c in CL for n in CL[c][2]]

    # two attributes of one object set one after the other, every pair of values
    pairs = [(c, n, m) for c in CL for n in CL[c][2] for m in CL[c][2]]

    @family("C22", "py.attributes", len(pairs) * 36)
    def _():
        c, n, m = pick(pairs)
        make, dump, at = CL[c]
        i, j = pick(6), pick(6)
        if i >= len(at[n][1]) or j >= len(at[m][1]):
            raise Skip
        o = make()
        want = list(dump(o))
        if c in DEFAULTS:
            check("C22", want, DEFAULTS[c], f"a new {c}")
        say(f"{c}.{n} = {at[n][1][i]!s:.60}, {c}.{m} = {at[m][1][j]!s:.60}")
        for name, k in ((n, i), (m, j)):
            pos, vals = at[name]
            setattr(o, name, vals[k]); step()
            for p, v in zip(pos, values(vals[k], pos)):
                want[p] = v
            got = dump(o)
            check("C22", got, want, f"{c} after setting {name}")
            for other in at:
                check("C22", read(o, other), [want[p] for p in at[other][0]], f"{c}.{other} as read")
        state(c, want); outcome(c)

    # writing into a matrix that was given out is refused or changes the object, and never passes in silence
    @family("C22", "py.partial", 5 * 4 * 3)
    def _():
        c, n = pick([("PositionSensor", "pv"), ("NM", "Q"), ("BBox", "corners"), ("Gaussian", "P"), ("GaussianReport", "P")])
        k, v = pick(4), pick([-7.25, 0., 1e9])
        make, dump, at = CL[c]
        o = make(); a = getattr(o, n); r, q = a.shape
        want = list(dump(o)); pos = list(at[n][0]); say(f"{c}.{n}[{k % r}, {(k * 3 // 2) % q}] = {v}"); step()
        try:
            a[k % r, (k * 3 // 2) % q] = v
        except ValueError:
            outcome("refused")
        else:
            want[pos[((k * 3 // 2) % q) * r + k % r]] = v; outcome("written through")
        check("C22", dump(o), want, "the object"); state(c, n, want)

    @family("C22", "py.nested", 3 * 6)
    def _():
        c, v = pick(corners), pick(num)
        s = lmb.PositionSensor(); want = core.sensor(s)
        d = c.copy(); d[1, 2] = v; s.fov.corners = d; step()
        want[:8] = flat(d)
        say(f"sensor.fov.corners = {d.tolist()}")
        check("C22", core.sensor(s), want, "the sensor's field of view")
        t = lmb.Tracker(); t.params.r_lim = v; step(); p = list(DEFAULTS["Params"]); p[1] = v
        check("C22", core.params(t.params), p, "the tracker's parameters"); check("C22", core.tracker(t)[:8], p, "the tracker's parameters")
        q = lmb.Params(); q.nstd = v; t.params = q; step(2); p = list(DEFAULTS["Params"]); p[4] = v
        check("C22", core.tracker(t)[:8], p, "the tracker's parameters, replaced"); q.nstd = 55; check("C22", core.tracker(t)[:8], p, "the tracker's parameters are its own")
        u = lmb.Tracker(q); step(); p[4] = 55; check("C22", core.tracker(u)[:8], p, "the parameters a tracker is made with"); state(v)
        outcome("nested")

    @family("C22", "py.readonly", sum(map(len, READONLY.values())))
    def _():
        c, n = pick([(c, n) for c in READONLY for n in READONLY[c]])
        o = {"GaussianReport": CL["GaussianReport"][0](), "Tracker": lmb.Tracker()}.get(c)
        if c == "Target":
            t = lmb.Tracker(); s = lmb.PositionSensor(); s.lambdaB = .5; t.correct(s, [lmb.GaussianReport(O, np.eye(2), .1)], 1.); o = t.get_targets()[0]
        step()
        before = repr(getattr(o, n))
        try:
            setattr(o, n, getattr(o, n)); ok = True
        except AttributeError:
            ok = False
        say(f"{c}.{n} is not for writing"); S.checks += 1
        if ok and c != "GaussianReport":
            fail("C22", "it can be written")
        check("C22", repr(getattr(o, n)), before, "unchanged"); state(c, n)

    # constructors
    @family("C22", "py.make", 9 * 6 * 6)
    def _():
        w, a, b = pick(9), pick(num), pick(num)
        x2, x4, P2, P4 = np.array([a, 7.]), np.array([a, b, 3, 4]), np.array([[a, 1], [2, b]]), mat(4, a); step()
        if w == 0:
            o, want, d = lmb.CV(a, b), [a, b], core.cv
        elif w == 1:
            o, want, d = lmb.CV(q=b), [1, b], core.cv
        elif w == 2:
            o, want, d = lmb.CV(pS=a), [a, 1], core.cv
        elif w == 3:
            o, want, d = lmb.NM(a, P4), [a] + flat(P4), core.nm
        elif w == 4:
            o, want, d = lmb.Gaussian(x4, P4), [1] + flat(x4) + flat(P4), core.gaussian
        elif w == 5:
            o, want, d = lmb.Gaussian(state=x4, cov=P4, w=b), [b] + flat(x4) + flat(P4), core.gaussian
        elif w == 6:
            o, want, d = lmb.GaussianReport(x2, P2), flat(x2) + flat(P2) + [1, 0], core.report
            o2 = lmb.GaussianReport(state=x2, cov=P2, kappa=b); check("C22", core.report(o2), flat(x2) + flat(P2) + [b, 0], "a report with clutter intensity")
            s = lmb.PositionSensor(); s.kappa = b; s.lambdaB = 77; s.pD = .77
            o3 = lmb.GaussianReport(s, x2, P2); check("C22", core.report(o3), flat(x2) + flat(P2) + [b, 0], "a report of a sensor")
            o4 = lmb.GaussianReport(sensor=s, state=x2, cov=P2); check("C22", core.report(o4), flat(x2) + flat(P2) + [b, 0], "a report of a sensor, by name")
        elif w == 7:
            o, want, d = lmb.AABBox(min(a, b), 5, max(a, b), 9), [min(a, b), 5, max(a, b), 9], core.aabbox
            box = lmb.BBox(o); check("C22", core.bbox(box), core.bbox_of_aabbox(want), "a box from an axis-aligned one")
            check("C22", core.aabbox(lmb.AABBox()), core.default_region(), "the default region")
        else:
            c = np.array([[a, b, 3, 4], [5, 6, b, a]]); o, want, d = lmb.BBox(c), flat(c), core.bbox
        say(f"constructor {w} of {a}, {b}"); check("C22", d(o), want, type(o).__name__); state(w, want); outcome(type(o).__name__)

    # methods of values
    Ps = [np.diag([4., 9.]), np.array([[5., 2], [2, 3]]), np.diag([1e4, 1.]), np.eye(2) * 1e-4]
    orig = [O, np.array([0., 0.]), np.array([-33.9, 151.2])]
    off = [np.zeros(2), np.array([.01, -.02])]

    @family("C22", "py.methods", 4 * 3 * 2 * 4)
    def _():
        P, o, d, n = pick(Ps), pick(orig), pick(off), pick([None, 1., 2., 3.5])
        nn = 2. if n is None else n; ka = {} if n is None else {"nstd": n}; kb = {} if n is None else {"nstd": n}
        x = o + d; say(f"P {P.tolist()}, at {x.tolist()}, origin {o.tolist()}, nstd {n}"); T = 1e-9
        b = lmb.BBox(); b.from_gaussian(x, P, **ka); step()
        check("C22", core.bbox(b), core.bbox_from_gaussian(x, P, nn), "BBox.from_gaussian", T)
        check("C22", core.bbox(b.nebbox(o)), core.bbox_ne(b, o), "BBox.nebbox", T); check("C22", core.aabbox(b.aabbox()), core.bbox_aa(b), "BBox.aabbox", T); check("C22", repr(b), core.bbox_text(b), "BBox as text")
        a = b.aabbox(); check("C22", core.aabbox(a.neaabbox(o)), core.aabbox_ne(a, o), "AABBox.neaabbox", T)
        m = lmb.AABBox(-10, -20, 30, 40 + nn); check("C22", core.aabbox(m.llaabbox(o)), core.aabbox_ll(m, o), "AABBox.llaabbox", T); check("C22", repr(a), core.aabbox_text(a), "AABBox as text")
        r = lmb.GaussianReport(x, P); check("C22", core.bbox(r.nebbox(o, **kb)), core.report_ne(r, o, nn), "GaussianReport.nebbox", T); check("C22", core.bbox(r.nebbox(origin=o, **kb)), core.report_ne(r, o, nn), "GaussianReport.nebbox by name", T)
        check("C22", repr(r), core.report_text(r), "GaussianReport as text")
        P4 = np.eye(4); P4[:2, :2] = P; t = pickle.loads(pickle.dumps(target(x, P4, .5, 3, 4)))
        check("C22", core.bbox(t.nebbox(o, **kb)), core.summary_ne(t, o, nn), "Target.nebbox", T); check("C22", repr(t), core.summary_text(t), "Target as text")
        g = lmb.Gaussian(np.append(x, [1, 2]), P4, .4); check("C22", repr(g), core.gaussian_text(g), "Gaussian as text"); state(P.tolist(), x.tolist(), n)
        step(10); outcome("methods")

    def target(x2, P, r, i, c):
        """A track summary with any contents, by way of unpickling."""
        t = lmb.Target.__new__(lmb.Target); t.__setstate__((np.append(x2, [7., 8.]), P, r, i, c)); return t

    # pickles and copies
    def clones():
        w = 2 + pick(6)      # older protocols are not for extension types
        return (lambda o: pickle.loads(pickle.dumps(o, w)), f"pickle protocol {w}") if w < 6 else (copy.copy, "copy") if w == 6 else (copy.deepcopy, "deepcopy")
    PV = [1.25, -2., 0., 1e300, math.inf, math.nan, .1 + .2]

    @family("C22", "py.pickle", 6 * 4 * 7 * 7)
    def _():
        f, how = clones(); k = pick(4); a, b = pick(PV), pick(PV); step()
        if k == 0:
            o, d = lmb.BBox(np.array([[a, b, 3, 4], [5, 6, a, b]])), core.bbox
        elif k == 1:
            o, d = lmb.AABBox(-5., -6., 7, 8), core.aabbox; o.min = [min(a, 9e299) if a == a else -1., -1 / 3]; o.max = [math.inf, 1e300 if b != b else abs(b)]
        elif k == 2:
            P = mat(4, 3); P[1, 2] = a; P[3, 0] = b; o, d = target(np.array([b, a]), P, a, 4000000000, 7), core.summary
        else:
            o, d = lmb.GaussianReport(np.array([a, .3]), np.array([[1, b], [2, a]]), b), core.report
            s = lmb.PositionSensor(); s.lambdaB = 0
            if a == 1.25:     # a label other than zero
                t = lmb.Tracker(); zs = [lmb.GaussianReport(O + [k * .01, 0], np.eye(2) * 3, b) for k in range(4)]; o = t.correct(s, zs, 1.)[3]
                check("C22", o.cid > 0, True, "the fourth cluster's label is not zero")
        say(f"{type(o).__name__} with {a}, {b} by {how}")
        before = d(o); c = f(o)
        check("C22", d(c), before, "the clone"); check("C22", d(o), before, "the original"); check("C22", type(c) is type(o), True, "same class"); state(k, before); outcome(how)

    # coordinates
    lats, lons = ([-89.5, -60, -33.9, -1e-3, 0., 12.5, 45, 58.4, 80], [-179.5, -90, -1e-3, 0, 15.7, 91, 151.2]); alts = [0., -400., 9000.]

    @family("C22", "py.coordinates", len(lats) * len(lons) * 3 * 4)
    def _():
        p = np.array([pick(lats), pick(lons)]); h = pick(alts); o = p + pick([np.zeros(2), np.array([.02, .03]), np.array([-.4, .1]), np.array([.001, -.9])]); oo = np.append(o, h / 2); pp = np.append(p, h); T = 1e-9
        say(f"{pp.tolist()} about {oo.tolist()}")
        for n in ("lla2ecef", "nedrot"):
            check("C22", getattr(cf, n)(pp), getattr(core, n)(pp), n, T)
        for n in ("ll2ecef", "nerot"):
            check("C22", getattr(cf, n)(p), getattr(core, n)(p), n, T)
        e = core.lla2ecef(pp)
        for n in ("ecef2lla", "ecef2ll"):
            check("C22", getattr(cf, n)(e), getattr(core, n)(e), n, T)
        for n, a, b in (("ecef2ned", e, oo), ("lla2ned", pp, oo), ("ned2ecef", np.array([500., -300, h]), oo), ("ned2lla", np.array([500., -300, h]), oo), ("ecef2ne", e, o), ("ll2ne", p, o), ("ne2ecef", np.array([500., -300]), o), ("ne2ll", np.array([500., -300]), o)):
            check("C22", getattr(cf, n)(a, b), getattr(core, n)(a, b), n, T)
        step(14); state(pp.tolist(), oo.tolist()); outcome("14 conversions")

    # whole histories: the module against the core, step by step
    def ll(n, e):
        return core.ne2ll(np.array([n, e], float), O)
    # what is seen moves a little and no two reports are alike: hypotheses of equal weight may be ranked either way
    def z(n, e, k=.1): return lambda t: (ll(n + .37 * t, e - .23 * t * t), np.array([[3 + n * .01 + t * .1, .5], [.5, 2 + e * .013]]), k + .001 * abs(n + 2 * e))
    SCANS = [[], [z(0, 0)], [z(0, 0), z(900, 0), z(900, 6)], [z(2, 1), z(8, 2, .05), z(3, 7)], [z(900, 3), z(-700, 800, .2)]]
    SENS = [dict(lambdaB=.6, pD=.9), dict(lambdaB=2., pD=.6, kappa=.3, pv=np.array([[4., 1], [1, 9]])), dict(lambdaB=.01, pD=.95, corners=np.array([[O[0] + .004, O[0] + .004, O[0] - .004, O[0] - .004], [O[1] + .02, O[1] - .02, O[1] - .02, O[1] + .02]]))]
    SETS = [{}, dict(r_lim=.2, w_lim=.2, nhyp_max=2.), dict(rB_max=.3, cov_lim=30., tscale=2., cw_lim=.3), dict(nstd=.5, r_lim=.01, w_lim=1e-6)]
    OPS = [("scan", k, 0) for k in range(5)] + [("scan", 3, 1), ("scan", 2, 2)] + [("CV", 1., .5), ("CV", 3., 2.), ("NM", .7, 0), ("none", 0, 0)]
    NO = len(OPS)
    NAMES = "w_lim r_lim nhyp_max rB_max nstd cw_lim cov_lim tscale".split()
    truth = [np.append(ll(1, 1), [0, 0]), np.append(ll(905, 3), [1, 0])]
    lo, hi = ll(-400, -300), ll(700, 500); box = [lo[0], lo[1], hi[0], hi[1]]; l2, h2 = ll(-1000, -1000), ll(1000, 1000); big = [l2[0], l2[1], h2[0], h2[1]]
    depth = 4 if th else 3

    def parse(d):
        n = int(d[8]); s, u = 9, []
        for _ in range(3):
            m = int(d[s]); u.append([int(x) for x in d[s + 1:s + 1 + m]]); s += m + 1
        ts, k = [], s + 1
        for _ in range(int(d[s])):
            m = 4 + 21 * int(d[k + 3]); ts.append(d[k:k + m]); k += m
        return d[:8], n, u, ts

    def ranks(rows, k):
        """Labels by first appearance: clusters of a single track are numbered in order of address."""
        seen = {}
        return [list(r[:k]) + [seen.setdefault(r[k], len(seen))] + list(r[k + 1:]) for r in rows]

    def norm(d):
        p, n, u, ts = parse(d)
        return [p, n, sorted(zip(*u)), ranks(ts, 1)]

    @family("C22", "py.histories", NO ** depth * len(SETS) * 2)
    def _():
        how = pick(2); sets = pick(SETS); ops = [pick(OPS) for _ in range(depth)]
        if any(o[0] == "none" and p[0] != "none" for o, p in zip(ops, ops[1:])):
            raise Skip
        P = lmb.Params()
        for k, v in sets.items():
            setattr(P, k, v)
        if how:
            t = lmb.Tracker()
            for k, v in sets.items():
                setattr(t.params, k, v)
        else:
            t = lmb.Tracker(P)
        c = lmb.Tracker(); core.set_params(c, [sets.get(n, d) for n, d in zip(NAMES, DEFAULTS["Params"])])
        check("C22", [t.nof_clusters, t.cluster_ntargets, t.cluster_nreports, t.cluster_nhyps], [0, [], [], []], "statistics before any scan")
        say(f"settings {sets}; " + ", ".join(map(str, ops))); T = 1e-9; now = 1.
        for k, (op, a, b) in enumerate(ops):
            if op == "scan":
                s = lmb.PositionSensor(); q = SENS[b]; s.lambdaB = q["lambdaB"]; s.pD = q["pD"]
                if "kappa" in q: s.kappa = q["kappa"]
                if "pv" in q: s.pv = q["pv"]
                if "corners" in q: s.fov = lmb.BBox(q["corners"])
                zs = [lmb.GaussianReport(s, x, R) if "kappa" in q else lmb.GaussianReport(x, R, kk) for x, R, kk in (f(k) for f in SCANS[a])]
                got = t.correct(s, zs, now)
                want = core.scan(c, flat(q.get("corners", np.array([[90., 90, -90, -90], [180, 0, 0, 180]]))) + flat(q.get("pv", np.eye(2))) + [q["lambdaB"], q["pD"], q.get("kappa", 1.)], [flat(x) + flat(R) + [q.get("kappa", kk)] for x, R, kk in (f(k) for f in SCANS[a])], now)
                check("C22", [core.report(r) for r in got], want, f"step {k}: the scan returned", T)
                check("C22", [list(r.x) + flat(r.P) + [r.kappa, r.cid] for r in got], want, f"step {k}: the scan returned, as read", T)
            elif op == "CV":
                t.predict(lmb.CV(.9, b), now + a, now); core.predict_cv(c, .9, b, now + a, now); now += a
            elif op == "NM":
                t.predict(lmb.NM(a, np.diag([1., 2, 3, 4])), now + 1, now); core.predict_nm(c, a, np.diag([1., 2, 3, 4]), now + 1, now); now += 1
            step(); d = core.tracker(t)
            if not check("C22", norm(d), norm(core.tracker(c)), f"step {k}: the tracker", T):
                return
            _p, n, u, ts = parse(d)
            check("C22", [t.nof_clusters, t.cluster_ntargets, t.cluster_nreports, t.cluster_nhyps], [n] + u, f"step {k}: the statistics")
            state(d); outcome(f"{len(ts)} tracks, {n} clusters" + (", counts differ" if u[0] != u[1] and u[1] != u[2] and u[0] != u[2] else ""))
        if how and not th:
            return
        region = lmb.AABBox(*box); want = core.targets(t); check("C22", ranks(want, 23), ranks(core.targets(c), 23), "get_targets", T)
        check("C22", [core.summary(x) for x in t.get_targets()], want, "get_targets", T)
        check("C22", [list(x.x) + flat(x.P) + [x.r, x.r, x.id, x.cid] for x in t.get_targets()], want, "get_targets as read", T)
        check("C22", sorted(core.summary(x) for x in t.get_targets(region)), sorted(core.targets_in(t, box)), "get_targets in a region", T)
        check("C22", t.enof_targets(), core.enof(c), "enof_targets", T); check("C22", t.enof_targets(region), core.enof_in(c, box), "enof_targets in a region", T)
        check("C22", t.nof_targets(), core.nof(c, .7), "nof_targets"); check("C22", t.nof_targets(region), core.nof_in(c, box, .7), "nof_targets in a region")
        for r in (.1, .65, .75, .97):
            check("C22", t.nof_targets(r), core.nof(c, r), "nof_targets"); check("C22", t.nof_targets(r_lim=r), core.nof(c, r), "nof_targets by name")
            check("C22", t.nof_targets(region, r), core.nof_in(c, box, r), "nof_targets in a region"); check("C22", t.nof_targets(aabbox=region, r_lim=r), core.nof_in(c, box, r), "nof_targets in a region by name")
        check("C22", t.ospa(truth, 50., 2.), core.ospa(c, truth, 50, 2), "ospa", T); check("C22", t.gospa(truth, 50., 2.), core.gospa(c, truth, 50, 2), "gospa", T)
        check("C22", t.ospa(truth, 20., 1.), core.ospa(c, truth, 20, 1), "ospa", T); check("C22", t.gospa(truth, 20., 1.), core.gospa(c, truth, 20, 1), "gospa", T)
        ph = t.pos_phd(lmb.AABBox(*big), np.array([3, 1])); check("C22", list(ph.shape), [3, 1], "map shape"); check("C22", flat(ph), flat(core.phd(c, big, 3, 1)), "pos_phd", .05)
        check("C22", norm(core.tracker(t)), norm(core.tracker(c)), "the tracker after the queries", T); step(20)


# ---------------------------------------------------------------- C28
def c28():
    import lmb
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.patches import Ellipse, Polygon
    from concurrent.futures import Executor, Future
    from lmb import cf, plot
    th = A.thorough
    O = np.array([58.3887657, 15.6965082])

    class Boom(Exception):
        pass

    class Fake:
        """A tracker that writes down what it is asked."""
        def __init__(self):
            self.calls = []; self.n = 0; self.maps = None

        def __getattr__(self, name):
            if name.startswith("_") or name in ("calls", "n", "maps"):
                raise AttributeError(name)

            def f(*args, **kw):
                self.calls.append((name, args, kw, threading.get_ident())); self.n += 1
                if self.maps is not None and name == "pos_phd":
                    return self.maps
                if args and args[0] == "boom":
                    raise Boom(name)
                return (name, self.n)
            return f

    class Held(Executor):
        """Runs what it was given when told, in any order."""
        def __init__(self): self.todo = []

        def submit(self, fn, *a, **k):
            f = Future(); self.todo.append((f, fn, a, k)); return f

        def run(self, i):
            f, fn, a, k = self.todo[i]
            try:
                r = fn(*a, **k)
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(r)

    class Arg:
        def __init__(self, n): self.n = n
        def __repr__(self): return self.n
    a, b, c = Arg("a"), Arg("b"), Arg("c")
    CALLS = [("predict", (a, 3., 1.)), ("predict", (b, 1.5, -2)), ("correct", (a, [b, c], 7.)), ("correct", (c, [], 0)), ("get_targets", ()), ("enof_targets", ()), ("enof_targets", (a,)), ("nof_targets", ()), ("nof_targets", (.3,)), ("nof_targets", (b, .3)),
             ("predict", ("boom", 1, 2)), ("correct", ("boom", [], 2)), ("enof_targets", ("boom",)), ("nof_targets", ("boom",))]
    NC = len(CALLS)

    def identical(x, y):
        return len(x) == len(y) and all(p is q or (isinstance(p, (int, float)) and p == q) for p, q in zip(x, y))

    # up to three outstanding calls, finished in every order
    for n in (1, 2, 3):
        perms = list(itertools.permutations(range(n)))

        @family("C28", f"app.forward{n}", NC ** n * len(perms))
        def _(n=n, perms=perms):
            calls = [pick(CALLS) for _ in range(n)]; order = pick(perms)
            say(", ".join(f"{m}{x}" for m, x in calls) + f", finished in order {order}")
            loop = asyncio.new_event_loop(); ex = Held(); got = [None] * n

            async def main():
                app = lmb.Application(loop=loop, executor=ex); app.tracker = Fake()

                async def one(k, m, x):
                    try:
                        got[k] = await getattr(app, m)(*x)
                    except Boom as e:
                        got[k] = e
                ts = []
                for k, (m, x) in enumerate(calls):
                    ts.append(loop.create_task(one(k, m, x)))
                    await asyncio.sleep(0); await asyncio.sleep(0)
                    check("C28", len(ex.todo), k + 1, "calls handed to the executor")
                    check("C28", len(app.tracker.calls), 0, "calls made outside the executor")
                for j, i in enumerate(order):
                    ex.run(i); step()
                    for _ in range(6): await asyncio.sleep(0)
                    m, x = calls[i]; name, args, kw, _t = app.tracker.calls[j]
                    S.checks += 1
                    if name != m or not identical(args, x) or kw:
                        fail("C28", f"{m}{x} arrived as {name}{args} {kw}")
                    check("C28", [ts[q].done() for q in order], [q <= j for q in range(n)], "finished calls")
                    want = (m, j + 1)
                    S.checks += 1
                    if x and x[0] == "boom":
                        if not isinstance(got[i], Boom): fail("C28", f"{m} gave {got[i]!r}, not the tracker's exception")
                    elif got[i] != want:
                        fail("C28", f"{m} gave {got[i]!r}, not {want!r}")
                for t in ts:
                    if not t.done(): t.cancel()
                state([(x[0], len(x[1])) for x in app.tracker.calls], order)
            loop.run_until_complete(main()); loop.close(); outcome(f"{n} outstanding")

    # own executor, real tracker
    @family("C28", "app.real", 3 * 3 * 2)
    def _():
        k, s, own = pick(3), pick(3), pick(2)
        loop = asyncio.new_event_loop(); asyncio.set_event_loop(loop)
        app = lmb.Application(loop=loop) if own else lmb.Application(); app.tracker = lmb.Tracker(); ref = lmb.Tracker()
        sen = lmb.PositionSensor(); sen.lambdaB = .6; sen.pD = .9; R = np.diag([2., 3.])
        zs = lambda: [lmb.GaussianReport(O + [.001 * q, 0], R, .1) for q in range(s)]

        async def main():
            for q in range(k + 1):
                x = await app.correct(sen, zs(), 1. + q); y = ref.correct(sen, zs(), 1. + q)
                check("C28", [str(i) + str(i.cid) for i in x], [str(i) + str(i.cid) for i in y], "the scan"); check("C28", await app.predict(lmb.CV(.9, 1.), 2. + q, 1. + q) is None, True, "prediction"); ref.predict(lmb.CV(.9, 1.), 2. + q, 1. + q); step(2)
                check("C28", [str(t) for t in await app.get_targets()], [str(t) for t in ref.get_targets()], "the tracks"); check("C28", await app.enof_targets(), ref.enof_targets(), "the expected count"); check("C28", await app.nof_targets(.2), ref.nof_targets(.2), "the count")
                box = lmb.AABBox(O[0] - .0005, O[1] - .1, O[0] + .1, O[1] + .1); check("C28", await app.enof_targets(box), ref.enof_targets(box), "in a region"); check("C28", await app.nof_targets(box, .2), ref.nof_targets(box, .2), "in a region")
        loop.run_until_complete(main()); app._executor.shutdown(); loop.close(); say(f"{k + 1} rounds of {s} reports"); state(k, s); outcome("real tracker")

    # maps
    SH = [(1, 1), (2, 3), (3, 2), (4, 4)]

    @family("C28", "app.map", len(SH) * 4 * 18)
    def _():
        sh, u, bad = pick(SH), pick(4), pick(18) - 1
        m = np.arange(float(sh[0] * sh[1])).reshape(sh) / 7 + .1; m0 = m
        if bad >= 0:
            if bad >= 2 + m.size: raise Skip
            m = m.copy(); m.flat[bad % m.size] = math.nan if bad < m.size else (math.inf if bad == m.size else -math.inf)
        un = [0., .25, np.arange(float(m.size)).reshape(sh), np.full(sh[1], .5)][u]
        app = lmb.Application(loop=asyncio.new_event_loop()); t = Fake(); t.maps = m; app.tracker = t; app.unknown = un; app.region = Arg("region"); app.phdsize = Arg("size")
        before, ub = m.copy(), np.copy(un); say(f"map {sh}, unknown {u}, bad cell {bad}"); got = err = None
        try:
            got = app._loop.run_until_complete(app.sample_phd())
        except Exception as e:
            err = e
        step(); S.checks += 1
        if np.isnan(m).any():
            if err is None: fail("C28", "a map with a non-number is returned")
            elif isinstance(err, TypeError): fail("C28", f"no proper exception for a non-number: {err!r}")
        elif err is not None:
            fail("C28", f"{err!r}")
        else:
            check("C28", got.tolist(), (before + un).tolist(), "the map", 1e-12)
            S.checks += 1
            if got is m or np.shares_memory(got, m): fail("C28", "the tracker's own array was changed or given out")
        check("C28", m.tolist(), before.tolist(), "the tracker's map"); check("C28", np.copy(un).tolist(), ub.tolist(), "the prior")
        check("C28", len(t.calls), 1, "one map asked for")
        if t.calls: check("C28", t.calls[0][0] == "pos_phd" and identical(t.calls[0][1], (app.region, app.phdsize)), True, "the region and grid asked for")
        app._loop.close(); app._executor.shutdown(); state(sh, u, bad); outcome("non-number" if np.isnan(m).any() else "map")

    # plots
    def ll(n, e): return cf.ne2ll(np.array([n, e], float), O)

    def target(n, e, P, r, i, cid):
        t = lmb.Target.__new__(lmb.Target); P4 = np.eye(4) * 2; P4[:2, :2] = P; t.__setstate__((np.append(ll(n, e), [1., 0.]), P4, r, i, cid)); return t

    def report(n, e, P): return lmb.GaussianReport(ll(n, e), P, .1)
    COV = [np.diag([100., 4.]), np.diag([4., 100.]), np.array([[60., 45], [45, 60]]), np.array([[60., -45], [-45, 60]]), np.array([[90., 30], [30, 20]]), np.eye(2) * 9]

    def fresh():
        plt.close("all"); return plt.figure(figsize=(2, 2)).gca()

    def ellipses(ax): return [x for x in ax.get_children() if isinstance(x, Ellipse)]
    def polygons(ax): return [x for x in ax.get_children() if isinstance(x, Polygon)]

    def ell_ok(e, P, ne, nstd, what):
        v = e.get_patch_transform().transform(e.get_path().vertices[:24]); d = np.array([(y - ne[0], x - ne[1]) for x, y in v]); q = np.sqrt(np.einsum("ij,jk,ik->i", d, np.linalg.inv(P), d))
        on = [k for k, code in enumerate(e.get_path().codes[:24]) if k % 3 == 0]      # end points of the curve segments lie on the ellipse
        S.checks += 1
        if not np.allclose(q[on], nstd, rtol=1e-3): fail("C28", f"{what}: the ellipse of {P.tolist()} is {q[on].round(3).tolist()} standard deviations away, not {nstd}")

    def poly_ok(p, box, what):
        w = np.fliplr(box.corners.T); xy = p.get_xy()[:len(w)]
        check("C28", xy.tolist(), w.tolist(), what, 1e-6)

    def has_line(ax, es, ns):
        return any(len(l.get_xdata()) == len(es) and np.allclose(l.get_xdata(), es, atol=1e-6) and np.allclose(l.get_ydata(), ns, atol=1e-6) for l in ax.lines)

    def cov_rot(k): f = 2 * math.pi * k / 24; r = np.array([[math.cos(f), -math.sin(f)], [math.sin(f), math.cos(f)]]); return r

    @family("C28", "plot.ellipse", 24 * 3 * 3 * 4)
    def _():
        k, ratio, nstd, at = pick(24), pick([(100., 4.), (9., 9.), (1e4, 1.)]), pick([1, 2, 3.5]), pick([(0., 0.), (100., -30.), (-5., 800.), (3e4, 2e4)])
        P = cov_rot(k) @ np.diag(ratio) @ cov_rot(k).T; say(f"axes {ratio} turned by {k * 15} degrees at {at}, {nstd} standard deviations"); ax = fresh(); step()
        e = plot.cov_ellipse(P, np.array(at), nstd); ell_ok(e, P, at, nstd, "ellipse"); check("C28", e in ax.get_children(), True, "drawn"); state(k, ratio, nstd, at); outcome("ellipse")

    @family("C28", "plot.box", 24 * 3 * 2)
    def _():
        k, at, form = pick(24), pick([(0., 0.), (100., -30.), (-5., 800.)]), pick(2); b = lmb.BBox(); b.from_gaussian(np.array(at), cov_rot(k) @ np.diag([100., 4]) @ cov_rot(k).T, 2.); ax = fresh(); step()
        plot.bbox(b if form else b.corners, k, 3); say(f"box {b.corners.tolist()}"); p = polygons(ax); check("C28", len(p), 1, "boxes drawn")
        if p: poly_ok(p[0], b, "box")
        state(k, at); outcome("box")

    TR = [[], [(0, 0, 0, .9, 0, 0)], [(0, 0, 4, .9, 0, 1), (200, -50, 1, .4, 5, 0)], [(30, 80, 2, .2, 3, 2), (-90, 10, 3, .95, 70, 2), (5, 5, 5, .6, 4, 0)]]
    FLAGS = ["covellipse", "draw_bbox", "clustercolor", "r_values", "show_id", "show_cid"]

    @family("C28", "plot.tracks", 4 * 64 * 3 * 3)
    def _():
        tr = pick(TR); fl = {f: bool(pick(2)) for f in FLAGS}; min_r = pick([0, .5, .99]); hist = pick(3)
        now = [target(n, e, COV[k], r, i, q) for n, e, k, r, i, q in tr]
        old = [target(n + 10, e - 20, COV[k], r, i, q) for n, e, k, r, i, q in tr] + [target(500, 500, COV[0], .9, 99, 0)]
        h = [{"targets": old}] * hist + [{"targets": now}]
        if hist == 2: b = lmb.BBox(np.array([[*ll(0, 0)], [*ll(0, 90)], [*ll(70, 90)], [*ll(70, 0)]]).T); h[-1]["fov"] = b
        ax = fresh(); step(); say(f"{len(tr)} tracks, {hist} earlier, {fl}, min_r {min_r}")
        plot.tracks(h, O, min_r=min_r, **fl)
        shown = [(t, x) for t, x in zip(now, tr) if x[3] >= min_r]; E, P = ellipses(ax), polygons(ax); texts = [(t.get_text(), *t.get_position()) for t in ax.texts]
        check("C28", len(ax.lines), 2 * len(shown), "lines: path and end of each track")
        npoly = (1 if hist == 2 else 0) + (len(shown) if fl["draw_bbox"] else 0)
        check("C28", len(P), npoly, "boxes"); check("C28", len(E), 2 * len(shown) if fl["covellipse"] else 0, "ellipses")
        check("C28", len(texts), len(shown) * sum(fl[f] for f in FLAGS[3:]), "labels")
        if hist == 2 and P: poly_ok(P[0], b.nebbox(O), "field of view")
        for j, (t, (n, e, k, r, i, q)) in enumerate(shown):
            check("C28", has_line(ax, [e - 20] * hist + [e], [n + 10] * hist + [n]), True, f"the path of track {i} ends at east {e}, north {n}"); check("C28", has_line(ax, [e], [n]), True, f"the mark of track {i}")
            if fl["covellipse"] and len(E) == 2 * len(shown):
                for x in E[2 * j:2 * j + 2]: ell_ok(x, COV[k], (n, e), 2, f"track {i}")
            if fl["draw_bbox"] and len(P) == npoly: poly_ok(P[j + (hist == 2)], t.nebbox(O), f"box of track {i}")
            for f, w in (("r_values", "{0:.2f}".format(r)), ("show_id", str(i)), ("show_cid", str(q))):
                if fl[f]: check("C28", any(s == w and abs(x - e) <= 60 and abs(y - n) <= 60 for s, x, y in texts), True, f"label {f} of track {i}")
        cols = {}
        if len(ax.lines) == 2 * len(shown):
            for j, (t, x) in enumerate(shown): cols.setdefault(x[5] if fl["clustercolor"] else x[4], set()).add(tuple(ax.lines[2 * j].get_color()))
            check("C28", all(len(v) == 1 for v in cols.values()), True, "one colour per " + ("cluster" if fl["clustercolor"] else "track")); check("C28", len(set.union(set(), *cols.values())), len(cols), "different colours")
        state(tr, fl, min_r, hist); outcome(f"{len(shown)} tracks shown")

    RP = [[], [(0, 0, 0)], [(0, 50, 4), (200, -50, 1)], [(30, 80, 2), (-90, 10, 3), (31, 82, 5)]]

    @family("C28", "plot.scan", 4 * 32)
    def _():
        rp = pick(RP); fl = {f: bool(pick(2)) for f in ("covellipse", "draw_bbox", "clustercolor", "show_id", "show_cid")}
        t = lmb.Tracker(); s = lmb.PositionSensor(); zs = t.correct(s, [report(n, e, COV[k]) for n, e, k in rp], 1.)
        ax = fresh(); step(); say(f"{len(rp)} reports, {fl}"); plot.scan(zs, O, **fl); E, P = ellipses(ax), polygons(ax); texts = [(x.get_text(), *x.get_position()) for x in ax.texts]
        check("C28", len(ax.lines), len(rp), "marks"); check("C28", len(E), len(rp) if fl["covellipse"] else 0, "ellipses"); check("C28", len(P), len(rp) if fl["draw_bbox"] else 0, "boxes"); check("C28", len(texts), len(rp) * (fl["show_id"] + fl["show_cid"]), "labels")
        for j, (n, e, k) in enumerate(rp):
            check("C28", has_line(ax, [e], [n]), True, f"report {j} at east {e}, north {n}")
            if len(E) == len(rp): ell_ok(E[j], COV[k], (n, e), 2, f"report {j}")
            if len(P) == len(rp): poly_ok(P[j], zs[j].nebbox(O), f"box of report {j}")
            for f, w in (("show_id", str(j)), ("show_cid", str(zs[j].cid))):
                if fl[f]: check("C28", any(q == w and abs(x - e) <= 60 and abs(y - n) <= 60 for q, x, y in texts), True, f"label {f} of report {j}")
        state(rp, fl); outcome(f"{len(rp)} reports")

    @family("C28", "plot.area", 4 * 4 * 3 * 2)
    def _():
        tr, rp, sh, hist = pick(TR), pick(RP), pick([(2, 3), (4, 4), (5, 2)]), pick(2)
        app = lmb.Application(loop=asyncio.new_event_loop()); app.origin = O; lo, hi = ll(-300, -200), ll(400, 600); app.region = lmb.AABBox(lo[0], lo[1], hi[0], hi[1])
        t = lmb.Tracker(); s = lmb.PositionSensor(); zs = t.correct(s, [report(n, e, COV[k]) for n, e, k in rp], 1.); now = [target(n, e, COV[k], r, i, q) for n, e, k, r, i, q in tr]
        h = [{"targets": now, "reports": zs}] * (hist + 1); phd = np.arange(float(sh[0] * sh[1])).reshape(sh); ax = fresh(); step(); say(f"area plot, {len(tr)} tracks, {len(rp)} reports, grid {sh}")
        try:
            app.plot_tracks(phd, zs, h)
        except Exception as ex:
            fail("C28", f"plot_tracks: {ex!r}"); S.checks += 1
        else:
            im = ax.images; check("C28", len(im), 1, "maps drawn"); nr = app.region.neaabbox(O)
            if im:
                check("C28", list(im[0].get_extent()), [nr.min[1], nr.max[1], nr.min[0], nr.max[0]], "extent of the map", 1e-9); check("C28", np.asarray(im[0].get_array()).tolist(), phd.tolist(), "the map"); check("C28", im[0].origin, "lower", "the map's first row is the southernmost")
            shown = [x for x in tr if x[3] >= .3]
            for n, e, k in rp: check("C28", has_line(ax, [e], [n]), True, f"a report at east {e}, north {n}")
            for n, e, k, r, i, q in shown: check("C28", has_line(ax, [e] * (hist + 1), [n] * (hist + 1)), True, f"track {i} at east {e}, north {n}")
            check("C28", len(polygons(ax)), len(rp) + len(shown), "boxes of reports and tracks"); check("C28", len(ax.lines), len(rp) + 2 * len(shown), "marks"); check("C28", [*ax.get_xlim(), *ax.get_ylim()], [nr.min[1], nr.max[1], nr.min[0], nr.max[0]], "the area shown", 1e-9)
        app._loop.close(); app._executor.shutdown(); plt.close("all"); state(tr, rp, sh, hist); outcome("area")

    @family("C28", "plot.stats", 5 * 81)
    def _():
        k = pick(5); v = [pick(3) for _ in range(4)]; reps = ([None, 2, 0] + v)[-(k + 1):] if k else [v[0]]; reps = [math.nan if x is None or x == 2 else float(x) for x in (v + v)[:k + 1]]; ts = [float(x) + .5 for x in range(k + 1)]; ver = [x % 2 for x in range(k + 1)]
        app = lmb.Application(loop=asyncio.new_event_loop()); ax = fresh(); step(); say(f"step {k}, reports {reps}"); app.plot_stats(k, reps, ts, ver)
        xs = list(range(k + 1)); fin = [x for x in xs if math.isfinite(reps[x])]
        by = {l.get_label(): l for l in ax.lines}; check("C28", sorted(by), ["Estimate", "Reports", "Verified"], "curves")
        for n, X, Y in (("Estimate", xs, ts), ("Reports", fin, [reps[x] for x in fin]), ("Verified", xs, ver)):
            if n in by: check("C28", [list(map(float, by[n].get_xdata())), list(map(float, by[n].get_ydata()))], [X, Y], n)
        app._loop.close(); app._executor.shutdown(); state(k, reps); outcome("statistics")


# ---------------------------------------------------------------- C31
def c31():
    import importlib.util
    import core, lmb
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.patches import Ellipse
    import clmb
    sp = importlib.util.spec_from_file_location("plot_results", BUILD + "/plots/plot_results.py"); results = importlib.util.module_from_spec(sp); sp.loader.exec_module(results)
    th = A.thorough
    O = np.array([58.3887657, 15.6965082])
    COV = [np.diag([100., 4.]), np.diag([4., 100.]), np.array([[60., 45], [45, 60]]), np.array([[60., -45], [-45, 60]]), np.array([[90., 30], [30, 20]]), np.eye(2) * 9]

    def full(P2, v=2.):
        P = np.eye(4) * v; P[:2, :2] = P2; P[0, 2] = P[2, 0] = .5; return P
    X = [np.array([0., 0, 0, 0]), np.array([10.5, -3, 1, 2]), np.array([-7., 40, -30, 40]), np.array([1e4, 2e3, .25, -.125])]
    W = [[1.], [.75, .25], [.5, .5], [.5, .25, .25], [.75, 0., .25]]

    def printed(cs, r, i, cid, la): return core.gm_text([[w, *x, *flat(P)] for w, x, P in cs], r, i, cid, la)
    def arr(m): return np.asarray(m, float)
    def read(text): return json.loads(text)

    def add(ts, text):
        d = read(text); t = ts.get(d["id"]) or ts.setdefault(d["id"], clmb.Target(d)); t.add_state(d); return t

    def gm_ok(pdf, cs, what):
        if not check("C31", isinstance(pdf, clmb.GM) and len(pdf.c), len(cs), f"{what}: components"): return
        for (w, x, P), (gw, gx, gP) in zip(cs, pdf.c):
            check("C31", float(gw), w, f"{what}: weight", 1e-5); check("C31", arr(gx).ravel().tolist(), x.tolist(), f"{what}: mean of a component", 1e-12); check("C31", arr(gP).tolist(), P.tolist(), f"{what}: covariance of a component", 1e-12)
        m = pdf.mean(); check("C31", arr(m).shape, (4, 1), f"{what}: the mean is a column"); check("C31", arr(m).ravel().tolist(), sum(w * x for w, x, P in cs).tolist(), f"{what}: mean", 1e-5)

    def pf_moments(w, x):
        m = x @ w; d = x - m[:, None]; return m, (w * d) @ d.T / (1 - (w * w).sum())

    # reading a mixture
    @family("C31", "read.mixture", 5 * 4 * 4 * 6 * 6 * 3 * 3)
    def _():
        w, a, b, k, l, la, r = pick(W), pick(4), pick(4), pick(6), pick(6), pick("uci"), pick([.25, 1., 1e-7]); cs = [(v, X[(a + j * b) % 4], full(COV[(k + j * l) % 6], 2 + j)) for j, v in enumerate(w)]
        i, cid = pick(1) + 7 + a, 40 + b; say(f"weights {w}, first mean {a}, covariance {k}, existence {r}"); ts = {}; t = add(ts, printed(cs, r, i, cid, la)); step()
        check("C31", [t.id, t.cid], [i, cid], "identity"); check("C31", t.r, r, "existence", 1e-5); check("C31", len(t.history), 1, "history"); gm_ok(t.pdf, cs, "mixture")
        check("C31", t.history[0][0], la, "last action"); check("C31", t.history[0][1], r, "existence in the history", 1e-5); check("C31", t.history[0][2] is t.pdf, True, "the density in the history"); state(w, a, b, k, l, la, r); outcome(f"{len(w)} components")

    PW = [[.25] * 4, [.5, .5], [.5, .25, .125, .125], [.75, 0., .25], [.9, .1], [.0625] * 8]
    PX = [0., 1, -2, 30.5]

    @family("C31", "read.particles", 6 * 4 ** 4 * 4)
    def _():
        w = np.array(pick(PW)); base = [pick(PX) for _ in range(4)]; how = pick(4); n = len(w)
        x = np.array([[base[(i + j) % 4] * (1 + j * how) - (i == how) * j for j in range(n)] for i in range(4)]); say(f"weights {w.tolist()}, states {x.tolist()}")
        t = add({}, core.pf_text(w.tolist(), x.T.ravel().tolist(), .5, 3, 4, "c")); step(); m, P = pf_moments(w, x)
        if check("C31", isinstance(t.pdf, clmb.PF), True, "a particle density"):
            check("C31", t.pdf.w.ravel().tolist(), w.tolist(), "weights", 1e-12); check("C31", arr(t.pdf.x).tolist(), x.tolist(), "states", 1e-12)
            check("C31", arr(t.pdf.mean()).shape, (4, 1), "the mean is a column"); check("C31", arr(t.pdf.mean()).ravel().tolist(), m.tolist(), "mean", 1e-9); check("C31", arr(t.pdf.cov()).tolist(), P.tolist(), "covariance", 1e-9)
        state(w.tolist(), x.tolist()); outcome(f"{n} particles")

    # a real tracker, printed after every step
    OPS = ["scan0", "scan1", "scan2", "scan3", "predict", "far"]
    D = 5 if th else 4
    SC = {"scan0": [], "scan1": [(0, 0, 3.)], "scan2": [(1, 2, 3.), (40, -30, 1.)], "scan3": [(2, 3, 2.), (3, 2, 2.), (39, -31, 1.)], "far": [(-400, 700, 5.)]}

    def tracked(ops):
        """Yields (time, text of the tracker, its contents) after every operation."""
        t, s, now = lmb.Tracker(), lmb.PositionSensor(), 0.
        s.lambdaB = .5; b = lmb.BBox(); b.from_gaussian(O, np.eye(2) * 1e6); s.fov = b
        for o in ops:
            if o == "predict": t.predict(lmb.CV(.99, .5), now, 1.) if t.get_targets() else None
            else: t.correct(s, [lmb.GaussianReport(lmb.cf.ne2ll(np.array([n, e], float), O), np.eye(2) * q, .1) for n, e, q in SC[o]], now)
            now += 1
            step(); yield (now, *core.tracker_local(t, O))

    def contents(v):
        n, at = int(v[0]), 1
        for _ in range(n):
            i, cid, la, r, k = v[at:at + 5]; at += 5; cs = []
            for _ in range(int(k)):
                g = v[at:at + 21]; at += 21; cs.append((g[0], np.array(g[1:5]), np.array(g[5:]).reshape(4, 4).T))
            yield int(i), int(cid), chr(int(la)), r, cs

    @family("C31", "read.tracker", 6 ** D)
    def _():
        ops = [pick(OPS) for _ in range(D)]; say(", ".join(ops)); ts, want = {}, {}
        for now, text, v in tracked(ops):
            for t in read(text)["targets"]:
                if t["id"] not in ts: ts[t["id"]] = clmb.Target(t)
                ts[t["id"]].add_state(t)
            for i, cid, la, r, cs in contents(v): want.setdefault(i, []).append((cid, la, r, cs))
        check("C31", sorted(ts), sorted(want), "tracks read")
        for i in set(ts) & set(want):
            t, h = ts[i], want[i]
            if not check("C31", len(t.history), len(h), f"steps of track {i}"): continue
            check("C31", [t.id, t.cid], [i, h[-1][0]], f"latest of track {i}"); check("C31", t.r, h[-1][2], f"latest existence of track {i}", 1e-5); gm_ok(t.pdf, h[-1][3], f"latest density of track {i}")
            for (la, r, pdf), (q, wla, wr, cs) in zip(t.history, h): check("C31", la, wla, f"action of track {i}"); check("C31", r, wr, f"existence of track {i}", 1e-5); gm_ok(pdf, cs, f"track {i}")
        state([[k, len(v), v[-1][2]] for k, v in sorted(want.items())], ops); outcome(f"{len(want)} tracks")

    # drawing
    def fresh():
        plt.close("all"); return plt.figure(figsize=(2, 2)).gca()

    def ellipses(ax): return [x for x in ax.get_children() if isinstance(x, Ellipse)]

    def ell_ok(e, P, at, nstd, what):
        v = e.get_patch_transform().transform(e.get_path().vertices[:24]); d = v - np.asarray(at, float).ravel()[:2]; q = np.sqrt(np.einsum("ij,jk,ik->i", d, np.linalg.inv(P), d))
        on = [k for k, code in enumerate(e.get_path().codes[:24]) if k % 3 == 0]
        S.checks += 1
        if not np.allclose(q[on], nstd, rtol=1e-3): fail("C31", f"{what}: the ellipse of {np.asarray(P).tolist()} is {q[on].round(3).tolist()} standard deviations away, not {nstd}")

    def has_line(ax, xs, ys):
        return any(len(l.get_xdata()) == len(xs) and np.allclose(l.get_xdata(), xs, atol=1e-6) and np.allclose(l.get_ydata(), ys, atol=1e-6) for l in ax.lines)

    @family("C31", "draw.ellipse", 24 * 3 * 4 * 4 * 2)
    def _():
        k, ratio, nstd, at, form = pick(24), pick([(100., 4.), (9., 9.), (1e4, 1.)]), pick([None, 1, 2, 3.5]), pick([(0., 0.), (100., -30.), (-5., 800.), (3e4, 2e4)]), pick(2)
        f = 2 * math.pi * k / 24; R = np.array([[math.cos(f), -math.sin(f)], [math.sin(f), math.cos(f)]]); P = R @ np.diag(ratio) @ R.T; say(f"axes {ratio} turned by {k * 15} degrees at {at}, {nstd} standard deviations"); ax = fresh(); step()
        e = clmb.plot_cov_ellipse(np.matrix(P) if form else P, np.array(at)[:, None] if form else np.array(at), *([] if nstd is None else [nstd])); ell_ok(e, P, at, nstd or 2, "ellipse"); check("C31", e in ax.get_children(), True, "drawn"); state(k, ratio, nstd, at); outcome("ellipse")

    def scene(kind, n, tr):
        """Targets read from printed text, with n earlier states each, and what they hold."""
        ts, want = {}, {}
        for h in range(n + 1):
            for i, (a, k, w, r, cid) in tr.items():
                x = [X[a] + np.array([h * 3 - n, h * h, 1. + h, -h - a * 20.]) + j for j in range(len(w))]
                if kind and len(w) > 2:
                    pts = np.array([x[j] + j * j * np.array([1., 2, 0, 1]) * (1 if j % 2 else -1) + COV[k][0, 0] * j * np.array([.1, -.3, 0, 0]) for j in range(len(w))]).T
                    add(ts, core.pf_text(list(w), pts.T.ravel().tolist(), r, i, cid, "c")); m, P = pf_moments(np.array(w), pts); want.setdefault(i, []).append((m, [(1., m, P)]))
                else:
                    cs = [(v, x[j], full(COV[(k + j + h) % 6])) for j, v in enumerate(w)]; add(ts, printed(cs, r, i, cid, "c")); want.setdefault(i, []).append((sum(v * y for v, y, P in cs), cs))
        return ts, want
    W3 = [.5, .25, .25]
    TR = [{}, {4: (1, 0, [1.], .25, 0)}, {4: (0, 4, [.75, .25], .9, 0), 70000: (1, 1, W3, .4, 5)}, {3: (1, 2, W3, .2, 2), 70: (2, 3, [1.], .95, 2), 5: (0, 5, W3, .6, 0)}]
    FLAGS = ["r_values", "track_id", "velocity"]

    @family("C31", "draw.traces", 2 * 4 * 3 * 6 * 3 * 2 * 8)
    def _():
        kind, tr, n, back, ce, trace, fl = pick(2), pick(TR), pick(3), pick([None, 0, 1, 2, 4, 9]), pick([None, True, False]), pick([True, False]), {f: bool(pick(2)) for f in FLAGS}
        say(f"{len(tr)} tracks, {n} earlier, {fl}, at most {back} back, ellipses {ce}, trace {trace}"); ts, want = scene(kind, n, tr); ax = fresh(); step()
        kw = dict(fl); kw.update({} if ce is None else {"covellipse": ce}); kw.update({} if trace else {"trace": False}); kw.update({} if back is None else {"max_back": back})
        clmb.plot_traces(ts.values(), **kw); E = ellipses(ax); texts = [(t.get_text(), *t.get_position()) for t in ax.texts]; drawn = []
        for i in ts:
            h = want[i][-back if back else 0:]; m = h[-1][0]; xs, ys = [s[0][0] for s in h], [s[0][1] for s in h]
            if trace: check("C31", has_line(ax, xs, ys), True, f"the path of track {i}: {xs}, {ys}")
            if fl["velocity"]: v = np.array(m[2:4]); v = v * 15 / np.hypot(*v) if np.hypot(*v) > 15 else v; check("C31", has_line(ax, [xs[-1], xs[-1] + v[0]], [ys[-1], ys[-1] + v[1]]), True, f"the velocity of track {i}: {v.tolist()}")
            if fl["r_values"]: check("C31", any(s == "{0:.2f}".format(tr[i][3]) and np.allclose((x, y), m[:2]) for s, x, y in texts), True, f"existence at track {i}")
            if fl["track_id"]: check("C31", any(s == str(i) and np.allclose((x, y), m[:2]) for s, x, y in texts), True, f"number at track {i}")
            if ce is not False:
                for w, x, P in h[-1][1]: drawn += [(w, x, np.asarray(P)[:2, :2], i)] * 2
        check("C31", len(ax.lines), len(ts) * (trace + fl["velocity"]), "lines"); check("C31", len(texts), len(ts) * (fl["r_values"] + fl["track_id"]), "labels")
        if check("C31", len(E), len(drawn), "ellipses"):
            for j, (e, (w, x, P, i)) in enumerate(zip(E, drawn)):
                ell_ok(e, P, x, 2, f"track {i}"); check("C31", e.get_alpha(), w * (.8 if j % 2 else .2), f"opacity in track {i}", 1e-5)
        if trace and len(ax.lines) == len(ts) * (trace + fl["velocity"]) and all(i < 65536 for i in ts):
            check("C31", len({tuple(l.get_color()) for l in ax.lines}), len(ts), "a colour for every track")
        state(kind, sorted(tr), n, back, ce, trace, fl); outcome(f"{len(tr)} tracks drawn")

    @family("C31", "draw.file", 6 ** (3 if th else 2) * 2)
    def _():
        rep = pick(2); ops = [pick(OPS) for _ in range(3 if th else 2)]; ops = ops * (1 + 3 * rep) if th else ops + (["scan2"] * 10 if rep else []); say(", ".join(ops)); plt.close("all"); want, last = {}, []
        p = (A.tmp or "/tmp") + f"/log{os.getpid()}"
        with open(p, "w") as f:
            for now, text, v in tracked(ops):
                f.write(json.dumps({"t": now, "post": "X"}).replace('"X"', text) + "\n"); cur = []
                for i, cid, la, r, cs in contents(v): want.setdefault(i, []).append(sum(w * x for w, x, P in cs)); cur.append((i, r, [q.copy() for q in want[i]], cs))
                last.append((now, cur))
        results.draw(argparse.Namespace(filename=p)); os.remove(p); ax = plt.gcf().axes
        if check("C31", len(ax), len(ops), "one picture per line"):
            for a, (now, cur) in zip(ax, last):
                check("C31", float(a.get_title()), now, "title"); check("C31", len(a.lines), len(cur), f"paths at {now}"); check("C31", sorted(t.get_text() for t in a.texts), sorted("{0:.2f}".format(r) for i, r, h, cs in cur), f"existence at {now}")
                E = ellipses(a); check("C31", len(E), 2 * sum(len(cs) for i, r, h, cs in cur), f"ellipses at {now}")
                for i, r, h, cs in cur:
                    xs, ys = [m[0] for m in h], [m[1] for m in h]; tol = dict(atol=1e-4, rtol=1e-5)
                    check("C31", any(len(l.get_xdata()) == len(xs) and np.allclose(l.get_xdata(), xs, **tol) and np.allclose(l.get_ydata(), ys, **tol) for l in a.lines), True, f"the path of track {i} at {now}")
        plt.close("all"); state(ops); outcome(f"{len(ops)} lines")


# ---------------------------------------------------------------- running
def run_case(f, i):
    S.family, S.index, S.rem, S.desc = f[0], i, i, ""
    S.cases += 1
    try:
        f[2]()
    except Skip:
        S.skipped += 1
    except Exception as e:
        fail(A.prop, f"unexpected {type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1].name}:{traceback.extract_tb(e.__traceback__)[-1].lineno} ({traceback.extract_tb(e.__traceback__)[-1].line})")
    if i % 97 == 0 and len(S.samples) < 6 and S.desc:
        S.samples.append(f"{f[0]}:{i} {S.desc[:400]}")


def worker(w, jobs, path, t0):
    global S
    cut = False
    S = Stats()
    prog = path + ".at"
    for f in FAMILIES:
        for i in range(w, f[1], jobs):
            if time.time() - t0 > A.budget or S.nviol > 40:
                cut = True; break
            with open(prog, "w") as p: p.write(f"{f[0]}:{i}")
            signal.alarm(int(A.case_limit)); run_case(f, i); signal.alarm(0)
    with open(path, "wb") as p: pickle.dump((S, cut), p)


def main():
    global A, S
    ap = argparse.ArgumentParser()
    for n in ("prop", "tmp", "out", "replay", "only"): ap.add_argument("--" + n, default="")
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--budget", type=float, default=400); ap.add_argument("--case-limit", type=float, default=60); ap.add_argument("--thorough", action="store_true")
    A = ap.parse_args(); t0 = time.time()
    S = Stats()
    {"C22": c22, "C28": c28, "C31": c31}[A.prop]()
    if A.replay:
        n, i = A.replay.split(":"); f = next(f for f in FAMILIES if f[0] == n); signal.alarm(int(2 * A.case_limit)); run_case(f, int(i)); print("case", A.replay, "\n" + S.desc); print("REPLAY:", "violated" if S.nviol else "held"); sys.stdout.flush(); os._exit(1 if S.nviol else 0)
    if A.only: FAMILIES[:] = [f for f in FAMILIES if f[0] == A.only]
    tmp = A.tmp or "/tmp"; pids = []
    for w in range(A.jobs):
        p = os.fork()
        if p == 0:
            try: worker(w, A.jobs, f"{tmp}/w{w}", t0)
            except BaseException: traceback.print_exc()
            sys.stdout.flush(); sys.stderr.flush(); os._exit(0)
        pids.append(p)
    T = Stats(); cut = False
    for w, p in enumerate(pids):
        _, st = os.waitpid(p, 0)
        path = f"{tmp}/w{w}"
        if not os.path.exists(path):
            at = open(path + ".at").read() if os.path.exists(path + ".at") else "?:0"
            T.violations.append({"prop": A.prop, "case": at, "msg": "did not end in time" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else f"ended by status {st}"}); T.nviol += 1; cut = True; continue
        s, c = pickle.load(open(path, "rb")); cut |= c
        T.states |= s.states; T.transitions += s.transitions; T.checks += s.checks; T.cases += s.cases; T.skipped += s.skipped; T.nviol += s.nviol; T.violations += s.violations; T.samples += s.samples
        for k, n in s.outcomes.items(): T.outcomes[k] = T.outcomes.get(k, 0) + n
    json.dump({"cases": T.cases, "states": len(T.states), "transitions": T.transitions, "checks": T.checks, "skipped": T.skipped, "nviol": T.nviol, "cut": cut, "wall_s": round(time.time() - t0, 2),
               "families": {f[0]: f[1] for f in FAMILIES}, "outcomes": dict(sorted(T.outcomes.items(), key=lambda x: -x[1])[:40]), "samples": T.samples[:16], "violations": T.violations[:60]}, open(A.out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
