"""Harness and check tables for run.py; gen_manifest.py writes MANIFEST.json from them."""

def cxx(src, extra=""):
    return {"build": ["{cxx} -O1 -g1 -fopenmp {san} %s {verif}/harness/%s.cpp -o {out}/%s" % (extra, src, src)],
            "run": ["{out}/" + src]}

def hist(part):
    return {"build": ["{cxx} -O1 -g1 -fopenmp -ftrivial-auto-var-init=pattern -fsanitize=address,bounds,float-cast-overflow,integer-divide-by-zero,return,unreachable "
                      "-fno-sanitize-recover=undefined -DPART=%d {verif}/harness/h_hist.cpp -o {out}/h_hist" % part],
            "run": ["{out}/h_hist"]}

HARNESSES = {
    "h_hist1": hist(1), "h_hist2": hist(2), "h_hist3": hist(3), "h_hist4": hist(4),
    "h_lap": cxx("h_lap"),
    "h_rtree": cxx("h_rtree"),
    "h_pdf": cxx("h_pdf"), "h_geo": cxx("h_geo"), "h_metric": cxx("h_metric"), "h_pf": cxx("h_pf"), "h_stat": cxx("h_stat"),
}

HARNESSES["h_sched"] = {
    "build": [["{cxx} -O2 -g1 -c {verif}/harness/sched.cpp -o {out}/sched.o", "{cxx} -O2 -g1 -fopenmp -fsanitize=thread -c {verif}/harness/h_sched.cpp -o {out}/h_sched.o"],
              "/usr/bin/clang++-18 -no-pie {out}/sched.o {out}/h_sched.o -lpthread -o {out}/h_sched"],
    "run": ["{out}/h_sched"]}
PYF = "/usr/bin/clang++-18 -std=c++17 -I{repo}/include -isystem /usr/include/eigen3 -Wno-everything -O1 -fopenmp -fPIC -shared -fvisibility=hidden {pyinc} "
HARNESSES["h_py"] = {
    "build": ["mkdir -p {out}/py/lmb && cp {repo}/lmb/*.py {out}/py/lmb/ && cp {repo}/clmb.py {out}/py/ && mkdir -p {out}/py/plots && cp {repo}/plots/*.py {out}/py/plots/",
              [PYF + "{repo}/lmb/lmb.cpp -o {out}/py/lmb/lmb{suffix}", PYF + "{repo}/lmb/cf.cpp -o {out}/py/lmb/cf{suffix}",
               PYF + "{verif}/harness/py_core.cpp -o {out}/py/core{suffix}", PYF + "{verif}/harness/mono_new.cpp -o {out}/py/mono.so"]],
    "run": ["/usr/bin/python3", "{verif}/harness/h_py.py"], "env": {"PYTHONHASHSEED": "0"}}
SCHED = "stateless exploration of thread schedules of the real code under a controlled scheduler with happens-before race detection"

HIST = "bounded exploration of tracker histories on the real code, stepped side by side with a reference model"
HB = "all histories of depth 3-4 (deeper in thorough) over scans of 0-3 reports, predictions and sensors from an empty tracker"

CHECKS = {
    "C01": dict(harness=["h_lap"], case_limit=30,
        technique="exhaustive enumeration of cost matrices on the real solver against brute force",
        note="Every matrix of the stated finite spaces is solved by the real code in both storage orders and compared with brute force (an independent Hungarian for the larger structured ones). Entries outside the alphabets and unstructured large matrices are not covered.",
        bounds="all matrices 1x1..2x4 and 3x3 over 3-6 value alphabets incl. negative, tiny, 30000 and infinite entries; 0/1 and infeasibility patterns to 4x4, 3x5; tracker-shaped matrices to 3 tracks; entries up to 1e300; 1152 structured matrices up to 40 rows (64 thorough), 864 with up to 90 columns"),
    "C02": dict(harness=["h_lap"], case_limit=30,
        technique="exhaustive enumeration of cost matrices and their complete draw histories on the real ranking",
        note="For every matrix of the stated finite spaces the whole draw history to exhaustion (and three draws beyond) is compared with the sorted list of all assignments. Only the first 60 draws of the 3-track tracker-shaped matrices are taken.",
        bounds="as C01 without the large sizes; complete rankings, up to 120 draws"),
    "C03": dict(harness=["h_rtree"], case_limit=30,
        technique="exhaustive enumeration of operation histories on the real index against a list",
        note="Every operation sequence of the stated families is run on the real index under address and undefined-behaviour sanitizers and every search, count and iteration is compared with a plain list. Entries carry distinct values, as in the tracker.",
        bounds="all 7-operation sequences (8 thorough) over 4 insertions and 2 removals for fan-outs 3/1, 4/2, 6/3 (float), 8/4; all 3-operation sequences over 9 operations from trees preloaded with 0-25 (33) entries in 7 patterns; complete draining of up to 44 (60) entries in 6 orders; all removal orders of 6 (7) out of 12 entries"),
    "C04": dict(harness=["h_hist1"], technique=HIST,
        note="Every history of the stated families runs on the real tracker; after every operation the list, counts, lookups and the index are compared for a family of regions with the same computation over the full track list. Histories longer than the bound and regions off the grid are not covered.",
        bounds=HB + "; 9 query regions after every step"),
    "C05": dict(harness=["h_hist1"], technique=HIST,
        note="After every scan of every history the labels and the published statistics are compared with a union-find over report boxes and stored track boxes. Two reports linked only through a track count as linked; ties closer than rounding are skipped.",
        bounds=HB + "; all subsets of 5 (6) track and 7 (8) report positions along a line with up to 5 reports; 5760 pairs of a report and a track within a tenth of touching"),
    "C06": dict(harness=["h_hist2"], technique=HIST,
        note="Every scan is compared with the posterior obtained by enumerating all joint associations independently of the cost matrix and the ranking, in log space. Factors whose total is below 1e-8 count as zero. Larger clusters are not covered.",
        bounds="all multisets of up to 3 (4) tracks out of 5 kinds and 4 reports out of 5 kinds, 5 parameter settings, two consecutive scans; extreme magnitudes of clutter, detection probability and distance"),
    "C07": dict(harness=["h_hist1", "h_hist3"], technique=HIST,
        note="The reference enumerates all hypotheses, sorts them, applies the stated stopping rule and component limits and is compared with tracks and published counts. Where two candidates tie within rounding either choice is accepted.",
        bounds=HB + "; clusters of up to 3 tracks and 3 reports with w_lim, nhyp_max, cw_lim on both sides of every threshold; component caps 1, 3, 200; mixtures of 30-200 components with up to 600 candidates"),
    "C08": dict(harness=["h_hist1", "h_hist2"], technique=HIST,
        note="After every scan the set of new tracks and their parameters are compared with the birth rule applied to the reported unexplained weights; shares within rounding of the limit are accepted either way.",
        bounds=HB + "; birth settings lambdaB, r_lim, rB_max on both sides of every threshold"),
    "C09": dict(harness=["h_hist1", "h_hist2"], technique=HIST,
        note="Every prediction is compared with an independent tangent-plane implementation of both motion models, including boxes.",
        bounds=HB + "; all sequences of up to 3 predictions over elapsed times, pS, q, tscale and Q; splits of one elapsed time; 8 look-ahead times"),
    "C10": dict(harness=["h_hist1", "h_hist2"], technique=HIST,
        note="After every operation the survivors are compared with the stated rule; where the reported position covariance of a global mixture leaves the decision open by unit mixing or rounding, either is accepted.",
        bounds=HB + "; r_lim and cov_lim on both sides of the reachable values"),
    "C11": dict(harness=["h_hist1", "h_hist2", "h_hist3"], technique=HIST,
        note="Invariant checked in every reached state of every family under sanitizers; weights may be zero by underflow.",
        bounds=HB + "; extreme magnitudes as C06, truncation settings as C07"),
    "C12": dict(harness=["h_pdf"], technique="exhaustive enumeration of inputs on the real code against an independent Kalman filter",
        note="Every product of the stated alphabets is updated by the real code and compared with an independently written posterior; sensors other than the shipped position sensor only through a full-state one of the harness.",
        bounds="1-3 components x 6 covariance triples x 4 mean triples x 5 report positions x 4 report covariances x 4 detection probabilities x 4 clutter intensities; two updates in a row; the position sensor in two frames"),
    "C13": dict(harness=["h_pdf"], technique="exhaustive enumeration of mixtures and operations on the real code against exact moments",
        note="Ties may be ordered either way; limits are met on both sides.",
        bounds="all mixtures of up to 4 components over weight alphabets with ties, zeros and values around cw_lim for component limits 2, 3, 200; all pairs added, all joins of up to 3 mixtures"),
    "C14": dict(harness=["h_geo"], technique="exhaustive enumeration of a coordinate grid on the real code against extended-precision WGS-84",
        note="Longitudes at the antimeridian are compared modulo 360; the poles are outside the property.",
        bounds="2 deg x 7.5 deg grid (0.5 x 2.5 thorough) plus branch borders, 7 altitudes; 14 x 14 origins with 3 heights, 64 horizontal and 4 vertical offsets"),
    "C15": dict(harness=["h_geo"], technique="exhaustive enumeration of covariances on the real code against the ellipse's exact extent",
        note="Stored boxes are compared up to the curvature of the tangent plane.",
        bounds="7 axis ratios x 24 (48) rotations x 5 means x 4 sizes x 4 nstd; stored boxes of all 1-3 component mixtures over 9 (18) covariances; report boxes"),
    "C16": dict(harness=["h_geo"], technique="exhaustive enumeration of pairs of boxes on the real code against exact separation",
        note="Pairs that touch or nearly touch are outside the property.",
        bounds="5 sizes x 8 (12) rotations each, 9x9 (13x13) relative placements, all corner numberings; all convex quadrilaterals on a small lattice pairwise; 17x17 points per quadrilateral; all axis-aligned pairs over 6 values; 10368 boxes converted between frames"),
    "C17": dict(harness=["h_metric"], technique="exhaustive enumeration of track and truth sets on the real tracker against brute force over assignments",
        note="Brute force over all assignments up to 4x4 (5x5 in wide scenes); larger sets only with a known optimum.",
        bounds="all multisets of up to 4 tracks and sequences of up to 4 states over 5 (6) points, 3 cut-offs, 3 exponents; all subsets of 5 in 50 km scenes with three origins; up to 11x11 in a row"),
    "C18": dict(harness=["h_hist4"], technique=HIST,
        note="Each history runs twice, with and without queries at every position; the states are compared after each following operation.",
        bounds="all histories of 3 (4) operations out of 6 with one of 8 queries (near and far origins, regions, maps, printing) after each but the last, 2 parameter settings; thorough: every pair of queries"),
    "C19": dict(harness=["h_metric"], technique="exhaustive enumeration of placements on the real tracker against exact cell sums",
        note="Tracks concentrated within a cell make the map independent of the random draws up to the granularity of its 1000 samples; the distribution of the draws itself is C27.",
        bounds="5 grid shapes x 7 weight patterns x 3 existences x all pairs of 9 places x 4 locations, 1-2 (3) tracks; wide densities by total; sample sizes 1-7"),
    "C20": dict(harness=["h_sched"], case_limit=100, technique=SCHED,
        note="The real code, compiled with OpenMP and memory-access instrumentation, runs on a stand-in OpenMP runtime in which one thread runs at a time; every schedule within the bound is run, every access is checked for happens-before, every result is compared with the single-threaded one. Schedules beyond the bound and weak memory effects of properly ordered accesses are not covered.",
        bounds="up to 4 sites of 0-3 tracks and 0-2 reports, teams of 2-4, nested parallelism off and on; 1-3 preemptions (4 thorough) per schedule; scan, prediction, sequences of them, density operations"),
    "C21": dict(harness=["h_sched"], case_limit=100, technique=SCHED,
        note="Every schedule within the bound of 2-3 concurrent callers; the results and the final state must equal those of some order of the calls, computed by running that order. No data race, use after free or deadlock on any schedule.",
        bounds="all pairs of 16 operations in 3 worlds, with one and with two workers each, 2 (1) preemptions; 256 triples and 400 two-by-two programs (all 1024 x 3 and 4096 thorough)"),
    "C22": dict(harness=["h_py"], technique="bounded exploration of operation histories and argument forms on the real Python module, stepped side by side with the C++ core",
        note="The module built from the tree is compared, after every call, with the same core classes reached through a separate binding of the harness that sets and reads their fields directly. Values come from small alphabets with distinct values per field; pickle protocols 0 and 1 are not supported by the binding library.",
        bounds="every attribute of every class by name x values; every constructor in positional, keyword and default form; all methods; pickling of boxes, reports and summaries over protocols and nesting; conversions over a grid; all histories of 3 (4) operations out of 11 under 4 settings given in two ways, with all queries and statistics compared after each"),
    "C23": dict(harness=["h_hist1", "h_hist4", "h_pf"], technique=HIST,
        note="The printed form of every reached state is parsed with an independent JSON parser and compared with the object.",
        bounds=HB + "; boxes, Gaussians and mixtures over small alphabets; particle densities after all histories of 2 operations"),
    "C24": dict(harness=["h_hist4"], technique=HIST,
        note="Field of view decisions are compared with the density's side of the field of view; densities straddling the border are outside the property.",
        bounds="all placements of 1-3 component densities on a grid against axis-aligned, rotated and extreme fields of view, two frames, 3 nominal probabilities; scans from reachable states"),
    "C25": dict(harness=["h_pf"], technique="bounded exploration of operation histories on the real particle density, stepped side by side with a list of weighted points",
        note="Every history of the stated families runs on the real code and is compared after each operation. Particle counts up to 7 (64 on construction); process noise is not part of the property.",
        bounds="all sequences of 3 (4) operations out of 14 from 54 starts with 1 and 3 particles, of 2 (3) with 5 (6); all weight vectors over 6 values for 1-5 (6) particles x 5 resampling offsets; all joins of up to 3 densities of 2-3 particles"),
    "C26": dict(harness=["h_hist4"], technique=HIST,
        note="Run under address sanitizer; every field is read after every operation on the list.",
        bounds="lists of 0-9 tracks x copy, move, growth, later scans, destruction of the tracker"),
    "C27": dict(harness=["h_stat"], technique="exhaustive enumeration of densities, call histories and single-draw perturbations of the environment on the real sampling code",
        note="The standard normal draws are answered by the harness: with all draws zero and each draw set to one in turn the affine map from draws to samples is read off completely and its square compared with the covariance; four further assignments confirm that it is affine. That the library's generator and normal distribution are good is assumed.",
        bounds="252 covariances in 2 dimensions (eigenvalues 0 to 1e4 x rotations), 96 and 32 (400 and 200) in 4 and 6, a quarter of them singular, x 4 means x 0-9 columns x 5 entrances; all histories of 2 (3) calls over 5 densities that agree in trace, diagonal or determinant; mixtures of 1-3 (4) components over 5 weights x 0-12 columns; overlaps with 36 boxes; up to 9 threads"),
    "C28": dict(harness=["h_py"], technique="exhaustive enumeration of call and completion orders of the real application class, and of scenes for the real plotting functions, against recorded calls and drawn shapes",
        note="The application runs on a recording tracker with an executor whose completions the harness orders, and on the real tracker; plots are drawn by the real library without a display and the drawn shapes are read back.",
        bounds="all sequences of up to 3 concurrent calls out of all forwarding methods in every completion order; maps over 5 origins x regions x grids x priors; ellipses over 24 rotations x axis ratios x nstd; all subsets of small scenes x plot options"),
    "C29": dict(harness=["h_hist4"], technique=HIST,
        note="Each scenario is run in permuted, moved and quarter-turned form and compared; boxes are axis-aligned, so other turns change what overlaps and are outside the property.",
        bounds="all permutations of up to 3 reports from small track sets; 5 locations, 4 quarter turns; all pairs of separated groups"),
    "C30": dict(harness=["h_pdf"], technique="exhaustive enumeration of inputs on the real code against the closed form",
        note="Totals within a millionth of the limit below which nothing is added are accepted either way.",
        bounds="all lists of 1-3 (4) out of 5 points, with repetition, x 6 weight patterns of up to 3 components x 4 means x 6 covariances x 3 initial values x 4 scales"),
    "C31": dict(harness=["h_py"], technique="exhaustive enumeration of printed states and bounded exploration of printed tracker histories, read by the real reader and drawn by the real plotter, against recorded contents and drawn shapes",
        note="Text is printed by the real core and compared, once read, with the fields it was printed from; drawn shapes are read back from the real library. Functions of clmb.py for scans and boxes of an earlier binding (plot_scan, plot_bbox) take objects this tree does not make and are outside the property.",
        bounds="25920 mixtures of 1-3 components, 6144 particle sets of 2-8; all histories of 4 (5) operations out of 6; ellipses over 24 rotations x axis ratios x nstd x position; 6912 scenes of 0-3 tracks x plot options; printed files of 2 and 12 lines over all pairs of operations"),
}

NOT_APPLICABLE = {
}
