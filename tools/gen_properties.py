#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Assignment solver: minimum cost, or a correct report of infeasibility",
  "For every cost matrix with at least one row and no more rows than columns whose entries are finite numbers or +infinity, given in row-major or column-major storage, the assignment solver terminates and returns a one-to-one assignment of all rows to distinct columns of minimum total cost whenever an assignment of finite cost exists. When none exists it reports that instead of returning one, and it does so for matrices of any size, including dozens of rows.",
  ["inputs"], "all cost matrices up to 3x3 (4x4 and 3x5 on smaller alphabets) over alphabets with ties, zeros, negatives and infinities, both storage orders; structured matrices up to 64 rows",
  "The tests solve a handful of fixed matrices of size 2-5; ties, infinite patterns, storage order and size are universally quantified.",
  ["include/rlapjv.h"], [("augmenting row reduction and shortest augmenting paths", "include/rlapjv.h: rlap"), ("feasibility check", "include/rlapjv.h: lap")],
  [("u, v", "dual variables reused by the ranking", "rlapjv.h")], ["return value and assignment of lap::lap"])

p("C02", "K-best ranking: every assignment once, in order, with its exact cost",
  "For every cost matrix with no more rows than columns (entries finite, possibly negative, or +infinity), successive draws from the ranking enumerate every one-to-one assignment of finite total cost exactly once, in order of nondecreasing cost, each with its exact total cost. After the last one, and for a matrix with no finite assignment from the start, every further draw reports exhaustion.",
  ["inputs", "histories"], "all matrices up to 3x3 over small alphabets and tracker-shaped Mx(N+2M) matrices; the complete draw history of each until exhaustion and beyond",
  "The tests draw from a few matrices; completeness, absence of duplicates and ordering quantify over all matrices and over the whole draw sequence.",
  ["include/murty.hpp", "include/rlapjv.h"], [("partitioning of the solution space", "murty.hpp: partition_with, partition_without"), ("priority queue with dual lower bounds", "murty.hpp: draw")],
  [("queue", "unexplored subproblems", "murty.hpp: Murty")], ["Murty::draw"])

p("C03", "Spatial index: equals brute force after any history of operations",
  "After any sequence of insertions, removals, clearing and saving/loading of the spatial index (entries carrying distinct values, as in the tracker), a search returns exactly the stored entries whose rectangle touches or overlaps the query rectangle (each as often as it is stored), the count is the number of stored entries, and iteration visits each stored entry once. Removing an entry with the rectangle it was inserted with removes that entry and no other, a search callback that returns false stops the search, and no operation corrupts memory.",
  ["histories"], "all operation sequences up to a depth over overlapping rectangles, for small and production fan-outs, from empty and from preloaded (deep) trees",
  "The tests insert a few targets and query once or twice; splits, underflow re-insertion and root collapse need specific long histories.",
  ["include/RTree.h"], [("node split", "RTree.h: SplitNode"), ("condense and re-insert", "RTree.h: RemoveRect"), ("covering rectangles", "RTree.h: NodeCover")],
  [("m_root", "tree", "RTree.h")], ["Search", "Count", "GetFirst/GetNext", "Save/Load"])

p("C04", "Tracks: region queries match the track list, and ids are never reused",
  "After any sequence of scans and predictions, a track is returned by a region query (track list, expected count, confirmed count, spatial lookup) exactly once when the track's current bounding box touches or overlaps the region and never otherwise, and each region-restricted answer equals the same computation over the full track list filtered this way (an expected count sums existence probabilities, a confirmed count counts those at or above the limit). Track ids are unique, a track keeps its id for life, and a new track gets an id no earlier track ever had.",
  ["histories"], "all histories up to a depth over small alphabets of scans, sensors and predictions, with queries on a family of regions after every step",
  "The tests look at one or two fixed scenarios with one or two tracks; stale index entries and id reuse appear only after specific birth/death histories.",
  ["include/targettree.hpp", "include/lmb.hpp", "include/cluster.hpp"], [("remove before update, re-insert after", "cluster.hpp: correct; lmb.hpp: predict"), ("id counter", "targettree.hpp: new_target")],
  [("targets, tree, id_counter", "track registry", "targettree.hpp")], ["get_targets", "enof_targets", "nof_targets", "targettree.query"])

p("C05", "Clustering: exactly the connected groups of overlapping reports and tracks",
  "In every scan, two reports, or a report and a track, get the same cluster label exactly when they are linked by a chain of overlapping report boxes and track boxes, two reports being linked also through a track both touch (the report box is its two-standard-deviation box, the track box the one stored for the track); every track inside the sensor's field of view that no report touches forms a cluster of its own, and all other untouched tracks take no part in the scan. Labels run from zero to the number of clusters minus one, and the published number of clusters and the per-cluster numbers of tracks and reports agree with that grouping.",
  ["histories", "inputs"], "all scans over small alphabets of report positions and shapes against all reachable small track sets",
  "The tests use at most two well separated tracks; chains, shared reports and reports without tracks are configurations quantified over.",
  ["include/lmb.hpp", "include/connectedcomponents.hpp", "include/report.hpp"], [("report/track overlap graph", "lmb.hpp: cluster"), ("component extraction", "connectedcomponents.hpp: get_component")],
  [("cid", "cluster label", "target.hpp, report.hpp")], ["report cid", "track cid", "nof_clusters", "cluster_ntargets", "cluster_nreports"])

p("C06", "Correction: exact multi-Bernoulli association posterior",
  "When hypothesis, component and track pruning are switched off, a scan updates every track of a cluster to the exact posterior: with every feasible joint association (each report to at most one track; each track to one report, to a missed detection or to non-existence) weighted by the product of its factors, the new existence probability is the total weight of the hypotheses in which the track exists, and its density is the correspondingly weighted mixture of its per-report updates and its missed-detection density. The factor of a report is existence times detection probability times the Gaussian measurement likelihood divided by the clutter intensity, of a miss existence times one minus the detection probability, of non-existence one minus existence; this holds at any magnitude of the factors as long as one hypothesis has positive weight (a per-report mixture whose total factor is below 1e-8 counts as zero), and includes tracks that certainly exist and are certainly detected.",
  ["inputs", "histories"], "all clusters of up to 3 tracks and 3 reports over small alphabets of existence probabilities, geometry, detection probability and clutter, including extreme magnitudes",
  "The tests check that some track survives a scenario; the posterior is a sum over all joint hypotheses and must be right for every cluster.",
  ["include/cluster.hpp", "include/target.hpp", "include/gm.hpp", "include/murty.hpp"], [("cost matrix", "cluster.hpp: correct; target.hpp: match, false_target"), ("hypothesis weighting and marginalisation", "cluster.hpp: correct"), ("mixture join", "gm.hpp: join")],
  [("R", "marginal association weights", "cluster.hpp")], ["r, mean, covariance and components of each track", "per-report rB"])

p("C07", "Truncation limits: only the least likely hypotheses and components go",
  "The hypotheses used for a cluster are its most likely ones in order of weight: evaluation stops after the first hypothesis whose share of the accumulated weight is below w_lim or when nhyp_max hypotheses have been used, whichever is first, and the published per-cluster hypothesis count says how many were used. The posterior is the marginal over exactly those hypotheses; within a track, mixture components are kept in order of weight until one's share of the accumulated weight drops below cw_lim or the maximum number of components is reached, and what is kept is renormalised to sum to one.",
  ["inputs", "configurations"], "all small clusters times alphabets of w_lim, nhyp_max, cw_lim and component caps",
  "The tests run with the default limits only and never look at what was dropped.",
  ["include/cluster.hpp", "include/gm.hpp"], [("hypothesis loop exit", "cluster.hpp: correct"), ("component loop exit", "gm.hpp: join, prune")],
  [("n", "hypotheses used", "cluster.hpp")], ["cluster_nhyps", "track components"])

p("C08", "Birth: unexplained reports found new tracks, with bounded probability",
  "After each scan, a report's unexplained weight is one minus the total posterior weight with which the scan's existing tracks are associated with it (one if its cluster has no track or allows no association at all). If the unexplained weights over the scan sum to at least r_lim, each report whose share of that sum times the sensor's expected number of births is at least r_lim founds exactly one new track, with existence probability equal to that product capped at rB_max, the report's position and covariance, zero velocity, the sensor's initial velocity covariance and the report's cluster label; no other track is created. A sensor class with initialisations of its own has its first one called once per founding report with the scan's time, and its second one once per report of the cluster at the first scan a new track takes part in, with the scan's time and the time the track was founded, and what they set takes effect.",
  ["histories", "inputs"], "all scans over small alphabets of reports, sensors (lambdaB), limits and reachable track sets",
  "The tests check one birth from one report; shares, caps and thresholds quantify over scans.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/sensors.hpp"], [("rB computation", "cluster.hpp: correct"), ("birth rule", "lmb.hpp: birth"), ("initial density", "sensors.hpp: pdf_init1")],
  [("rB", "unexplained weight of a report", "report.hpp")], ["report rB", "new tracks after correct"])

p("C09", "Prediction: constant-velocity and random-walk motion applied exactly",
  "A prediction moves every component of every track in the local tangent plane at the track's position by the model: for constant velocity, position advances by velocity times the (tscale-scaled) elapsed time, the covariance becomes F P F' + Q with the integrated white-noise-acceleration Q scaled by q, and existence is multiplied by pS to the power of the scaled elapsed time; for the random walk, the mean stays, the covariance grows by Q and existence is multiplied by pS. Mixture weights are unchanged, the stored bounding box matches the predicted density, and splitting an elapsed time into parts gives the same result as one step, up to the tangent-plane approximation. Asking the constant-velocity model where a density will be returns its mean moved by velocity times time and moves nothing.",
  ["histories", "inputs"], "all sequences of predictions over alphabets of elapsed times, pS, q, tscale and Q from all reachable small track sets",
  "The tests predict one track with default parameters and look at the track count.",
  ["include/models.hpp", "include/lmb.hpp", "include/gaussian.hpp", "include/gm.hpp", "include/target.hpp"], [("motion models", "models.hpp: CV, NM"), ("linear_update", "gaussian.hpp")],
  [("x, P, r", "track density and existence", "target.hpp")], ["get_targets after predict"])

p("C10", "Track termination: removed exactly when too unlikely or too uncertain",
  "After every prediction, and after every scan for the tracks that take part in it, a track is kept if its existence probability is at least r_lim and the (Frobenius) norm of its reported position covariance is at most cov_lim, and is removed otherwise; tracks that do not take part in a scan are left exactly as they were. A removed track is gone from the track list, from all counts and from all region queries.",
  ["histories", "configurations"], "all histories over small alphabets with r_lim and cov_lim chosen on both sides of the reachable values",
  "The tests never terminate a track.",
  ["include/target.hpp", "include/lmb.hpp", "include/cluster.hpp", "include/targettree.hpp"], [("viability test", "target.hpp: viable"), ("erase", "targettree.hpp: erase")],
  [("targets", "live tracks", "targettree.hpp")], ["get_targets", "targettree"])

p("C11", "Every reachable tracker state is a valid multi-Bernoulli density",
  "After any sequence of scans and predictions with valid parameters, every track has an existence probability in (0, 1], a nonempty mixture with nonnegative weights that sum to one, finite means, finite symmetric positive definite covariances, a finite bounding box that contains its mean position, and every report of the last scan has a finite unexplained weight in [0, 1] (up to rounding). This includes extreme but valid inputs: certain existence, certain detection, very large or very small clutter intensity, and reports arbitrarily far from the tracks they are clustered with.",
  ["histories", "inputs"], "all histories up to a depth over alphabets that include the extreme values",
  "The tests' inputs are benign; validity must hold in every reachable state.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp", "include/gm.hpp"], [("normalisation", "gm.hpp: normalize; cluster.hpp: correct")],
  [("r, c, aabbox", "track state", "target.hpp, gm.hpp")], ["targettree.targets after every operation"])

p("C12", "Measurement update: exact Kalman posterior per component",
  "Updating a mixture with a report replaces each component's mean and covariance by the exact linear-Gaussian posterior and multiplies its weight by detection probability times the Gaussian measurement likelihood (innovation covariance = predicted position covariance plus report covariance) divided by the report's clutter intensity; the value returned is the total of the new weights, and the mixture is renormalised to sum to one. If that total is negligible the mixture is emptied, and evaluating a missed detection returns one minus the weighted detection probability and changes neither means, covariances nor weights.",
  ["inputs"], "all products of small alphabets of component count, weights, means, covariances (correlated, anisotropic), report positions and covariances, detection probability, clutter",
  "The tests check one or two Gaussians with identity covariances.",
  ["include/gaussian.hpp", "include/gm.hpp", "include/report.hpp"], [("Gaussian update", "gaussian.hpp: correct"), ("likelihood", "report.hpp: likelihood"), ("missed detection", "gm.hpp: missed")],
  [("w, x, P", "component", "gaussian.hpp")], ["GM::correct", "GM::missed"])

p("C13", "Mixture algebra: merge, prune, normalise and moments are exact",
  "Normalising scales weights to sum to one and reports the previous total (emptying the mixture if it is negligible); adding two mixtures keeps all components of both, drops those lighter than cw_lim, keeps only the heaviest up to the component limit and renormalises; joining weighted mixtures yields the components in order of decreasing weight with weight proportional to mixture weight times component weight. The mean and covariance of a mixture are its exact first and second central moments, and position and velocity parts are the corresponding blocks.",
  ["inputs"], "all mixtures of up to 4 components over alphabets of weights (ties, zeros, below and above the limits), all pairs, all joins of up to 3 mixtures",
  "The tests add two one-component mixtures; order, ties, caps and limits are quantified over.",
  ["include/gm.hpp"], [("prune", "gm.hpp"), ("join", "gm.hpp"), ("mean, cov", "gm.hpp")],
  [("c", "components", "gm.hpp")], ["GM::operator+, +=, prune, normalize, join, mean, cov, pos, vel, poscov, velcov"])

p("C14", "Coordinate frames: WGS-84 conversions are exact and mutually inverse",
  "For every origin away from the poles and every nearby point, geodetic, earth-centred and local north-east(-down) coordinates are converted by the WGS-84 definitions: earth-centred coordinates match the ellipsoid formula, the local frame's axes point north, east and down at the origin and are orthonormal, and the origin maps to zero. The conversion from earth-centred to geodetic coordinates inverts the forward one to sub-millimetre accuracy in all quadrants and hemispheres, conversion to local coordinates and back returns the same point (for the two-dimensional variants, which drop the height, up to the curvature of the tangent plane), the two-dimensional variants agree with the three-dimensional ones on the ellipsoid surface, and in-place variants agree with the others and leave remaining state components alone.",
  ["inputs"], "a complete grid of origins (all quadrants and hemispheres, both sides of every branch), altitudes and offsets",
  "The tests convert a few points near one Swedish location.",
  ["include/cf.hpp"], [("lla2ecef, ecef2lla, nedrot", "cf.hpp")], [], ["all cf functions"])

p("C15", "Covariance boxes: cover exactly the n-sigma ellipse",
  "The axis-aligned box of a Gaussian extends, around its mean, nstd standard deviations along x and nstd standard deviations along y (the tight bounding box of the nstd-sigma ellipse), and its oriented box is the rectangle centred on the mean with its sides along the principal axes at nstd standard deviations, for every positive definite covariance including correlated and strongly anisotropic ones. A track's stored box covers the boxes of all its components in latitude and longitude, and a report's box is the two-sigma box around its position, both up to the tangent-plane approximation.",
  ["inputs"], "all covariances over a grid of axis ratios and rotations, means, nstd; mixtures of up to 3 components",
  "The tests use isotropic or axis-aligned covariances, for which wrong axes cannot be seen.",
  ["include/bbox.hpp", "include/gm.hpp", "include/report.hpp", "include/gaussian.hpp"], [("from_gaussian", "bbox.hpp"), ("update_local_bbox", "gm.hpp")],
  [("bbox, aabbox", "stored boxes", "gm.hpp")], ["AABBox, BBox constructors", "llaabbox", "corners"])

p("C16", "Box geometry: intersection and containment are exact and symmetric",
  "Two convex quadrilateral boxes intersect if and only if they share interior area, whichever of the two is asked, however their corners are numbered, and regardless of which crosses which (corner inside, containment, crossing without any corner inside); boxes separated by a gap never intersect; boxes that merely touch, or meet within rounding, may be reported either way, and corners are finite. A quadrilateral is compared with an axis-aligned box through its bounding rectangle. A point is reported inside a quadrilateral exactly when it is (points on the boundary may go either way), axis-aligned boxes intersect when they touch or overlap and contain their boundary, and the axis-aligned hull of a quadrilateral is its exact bounding rectangle. Converting a quadrilateral between latitude-longitude and local coordinates converts each corner in its place, and converting an axis-aligned box moves its sides with it, up to the tangent-plane approximation.",
  ["inputs"], "all pairs of boxes over a grid of centres, sizes, rotations and corner numberings; all grid points",
  "The tests try about ten pairs, with one orientation of the crossing case.",
  ["include/bbox.hpp"], [("intersects, within", "bbox.hpp: BBox, AABBox")], [], ["BBox::intersects, BBox::within, AABBox::intersects, AABBox::within, BBox::aabbox"])

p("C17", "OSPA and GOSPA equal their definition for every configuration",
  "For any set of tracks and any set of true states, OSPA equals ((minimum over assignments of the sum of cut-off distances to the power p, plus c^p times the cardinality difference) / max cardinality)^(1/p), and GOSPA equals (minimum over assignments of the sum of cut-off distances to the power p, plus c^p/2 times the cardinality difference)^(1/p). The distance is the Euclidean distance of full states with positions expressed in metres in the local frame at the given origin (by default the average position of all tracks and true states), both metrics are zero when there is neither track nor true state, and they do not depend on the order of the true states.",
  ["inputs"], "all track sets of up to 4 tracks and truth sets of up to 4 states over a grid of positions, with c and p from small alphabets",
  "The tests compare at most one track against up to four states, for which a transposed or wrong assignment cannot be seen.",
  ["include/lmb.hpp", "include/rlapjv.h", "include/target.hpp"], [("distance matrix and assignment", "lmb.hpp: ospa, gospa")], [], ["ospa, gospa"])

p("C18", "Queries never change the tracker",
  "Listing, counting, scoring (OSPA, GOSPA), mapping (PHD) and printing the tracks leave the tracker's observable state unchanged for any origin or region: the same tracks with bitwise-equal identities and existence probabilities, and with means, covariances and bounding boxes unchanged, so that the results of all later scans, predictions and region queries are the same as if the query had not been made.",
  ["histories"], "all interleavings of queries (far and near origins and regions) into small histories, compared with the query-free history",
  "The tests call queries last or look only at their return value; an effect on later results needs a query in the middle of a history.",
  ["include/lmb.hpp", "include/target.hpp", "include/gm.hpp"], [("read-only evaluation", "lmb.hpp: ospa, gospa, pos_phd, get_targets")],
  [("pdf, aabbox", "track state", "gm.hpp")], ["get_targets and region queries before and after"])

p("C19", "PHD map: each track adds its existence probability where its density is",
  "For a region and grid size, the position PHD map has the requested number of rows (along the first axis) and columns (along the second), cell (i, j) covering the i-th northward and j-th eastward slice of the region, and is the sum over the tracks whose bounding box meets the region of existence probability times the fraction of the track's density that falls into each cell. A track concentrated inside the region contributes its whole existence probability, split between mixture components in proportion to their weights whatever those are, and mass outside the region is not counted.",
  ["inputs"], "all placements of up to 3 concentrated tracks with 1-4 component mixtures over cells inside and outside the region, several grid shapes",
  "The tests check the total of one one-component track.",
  ["include/lmb.hpp", "include/gm.hpp", "include/gaussian.hpp"], [("sampling and binning", "lmb.hpp: pos_phd; gm.hpp: sample_pos")], [], ["pos_phd"])

p("C20", "Parallel processing: same result on every thread schedule, no data race",
  "For every scan and every prediction, and for any number of worker threads and any interleaving of them, the operation terminates and leaves the same tracks (up to the numbering of tracks born in that scan and rounding), the same clustering and statistics, and the same report results as single-threaded execution. No two workers ever make conflicting unsynchronised accesses to the same memory, including the shared random generator.",
  ["schedules"], "all thread interleavings at synchronisation points up to a preemption bound, for several team sizes and scan shapes, with happens-before race detection on every memory access",
  "The tests run on whatever schedule happens; races and order dependence need specific interleavings.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/target.hpp", "include/gm.hpp", "include/gaussian.hpp", "include/statistics.inc", "include/omp.hpp"], [("parallel loops and critical sections", "lmb.hpp, cluster.hpp, omp.hpp")],
  [("targettree", "shared registry", "lmb.hpp"), ("gen, ndist, udist", "random generator", "statistics.inc")], ["final tracker state", "race detector"])

p("C21", "Concurrent callers: tracker operations appear atomic",
  "When several threads call operations of one tracker at the same time (scans and predictions together with listing, counting, scoring and mapping), every call returns a result that some sequential order of the calls would give, in particular no query ever sees tracks halfway through a scan or prediction, missing from the index or in local instead of global coordinates. No such combination of calls deadlocks, crashes or races on memory.",
  ["schedules"], "all interleavings of 2-3 concurrent API calls at synchronisation points up to a preemption bound, with race detection, results compared with all sequential orders",
  "No test makes concurrent calls.",
  ["include/lmb.hpp", "include/sensors.hpp", "lmb/lmb.cpp"], [("critical sections", "lmb.hpp, sensors.hpp")],
  [("targettree", "shared registry", "lmb.hpp")], ["results of concurrent calls"])

p("C22", "Python bindings: same values, fields, defaults and pickles as the core",
  "Every class, attribute and method the Python module exposes reads, writes or calls what its name says, with the documented defaults: settings written from Python are the ones used by later operations, per-cluster statistics are the track, report and hypothesis counts of the last scan (none before the first), and a correction returns the scan with updated cluster labels. Boxes, reports and track summaries survive pickling with every field equal, and the coordinate functions are the core ones.",
  ["inputs", "configurations"], "every exposed attribute and method over small value alphabets with pairwise distinct values per field; scans in which track, report and hypothesis counts differ",
  "No test exercises the Python module at all.",
  ["lmb/lmb.cpp", "lmb/cf.cpp", "lmb/__init__.py"], [("pybind11 definitions", "lmb/lmb.cpp, lmb/cf.cpp")], [], ["the lmb Python package"])

p("C23", "Text output: valid JSON that states the tracker's exact content",
  "The printed form of a tracker, its tracks, mixtures, Gaussians, particle densities, reports, scans, clusters and oriented boxes is valid JSON for every reachable content (empty, one or many elements), with one entry per track, component or report in order. Each entry carries the actual identifiers, labels and last action, and numbers equal to the object's values to the printed precision (means and covariances to full double precision).",
  ["histories", "inputs"], "the printed form of every reachable state of all small histories, parsed and compared with the object",
  "No test parses the output.",
  ["include/lmb.hpp", "include/target.hpp", "include/gm.hpp", "include/gaussian.hpp", "include/report.hpp", "include/cluster.hpp", "include/bbox.hpp", "include/constants.hpp"], [("repr functions", "all headers")], [], ["operator<<", "print"])

p("C24", "Sensor: field of view decides affected tracks and detection probability",
  "A sensor considers exactly the tracks whose position box meets its field of view, and a report uses the sensor's clutter intensity. The probability of detection is the sensor's nominal one for a density that lies entirely inside the field of view, zero for one entirely outside, and the correspondingly weighted combination for a mixture with components in both; it applies to position in latitude and longitude, whatever local frame the track is in, and a track wholly outside the field of view is never weakened by a scan that does not detect it.",
  ["inputs", "histories"], "all placements of tracks and mixture components inside/outside (by many standard deviations) of axis-aligned and rotated fields of view, several nominal detection probabilities",
  "The tests evaluate the sensor with one whole-earth and one small field of view.",
  ["include/sensors.hpp", "include/gaussian.hpp", "include/gm.hpp", "include/bbox.hpp"], [("pD, get_targets", "sensors.hpp"), ("overlap", "gaussian.hpp, gm.hpp")], [], ["PositionSensor::pD, get_targets", "effect of a scan"])

p("C25", "Particle density: consistent weights, moments, update and merging",
  "A particle density keeps one weight per particle; after construction, correction, missed-detection evaluation and joining, the weights are finite, nonnegative and sum to one whenever any weight remains, mean and covariance are the weighted moments of the particles, and the effective sample size is one over the sum of squared weights. A correction multiplies each weight by detection probability times measurement likelihood over clutter intensity and returns the total, a missed detection multiplies each by one minus the detection probability and returns the total (weight below 1e-8 in total counts as none). Resampling keeps every particle within one copy of its share and makes all weights equal; joining keeps the heaviest particles of all inputs, weighted by mixture weight times particle weight, and resamples them. Motion applies the transition matrix to every particle, frame changes convert every particle's position and back, and the stored box is the nstd-sigma rectangle of the particles.",
  ["inputs"], "particle densities with a handful of particles over small alphabets of states, weights, reports and join weights, all products",
  "The tests construct one particle filter and check its moments statistically.",
  ["include/pf.hpp"], [("correct, missed, join, normalize, resample, update_local_bbox", "pf.hpp")], [("w, x", "particles", "pf.hpp")], ["PF methods"])

p("C26", "Track snapshots are self-contained values",
  "The track list returned by the tracker is a copy: each entry carries the mean, covariance, existence probability, id and cluster label that the track had at the time of the call, for lists of any length, and keeps those values when entries or the whole list are copied, moved, stored or outlive later scans, predictions or the tracker itself. Reading any field of any entry, including the existence probability under all its names, gives those values and touches no freed memory.",
  ["histories"], "lists of 0-9 tracks with all fields read directly, after copy, move, reallocation, later operations and destruction of the tracker, under memory checking",
  "The tests never keep or copy a track list.",
  ["include/target.hpp", "include/lmb.hpp"], [("TargetSummary_", "target.hpp")], [("r", "existence probability", "target.hpp: TargetSummary_")], ["get_targets"])

p("C27", "Sampling: exact mean and covariance, fresh independent draws",
  "Every column sampled from a Gaussian density (full state or position) is its mean plus a fixed linear map of fresh standard normal draws whose square is its covariance, for every covariance including correlated, badly scaled and singular ones; columns, successive calls and threads share no draws, nothing carries over from one call to the next, and sampling does not change the density. A sample of a mixture fills every column from one of its components, each component getting its weight's share of the columns within one column. The overlap of a Gaussian with a box is the share of its samples inside the box.",
  ["inputs", "histories"], "all densities of an alphabet of means and covariances in two, four and six dimensions, all column counts up to nine, histories of sampling calls, mixtures of up to three components; every draw varied on its own, so that the map from draws to samples is read off completely",
  "One test compares the mean of a large sample with a tolerance; a wrong covariance, a reused draw or an unfilled column passes it.",
  ["include/statistics.hpp", "include/statistics.inc", "include/gaussian.hpp", "include/gm.hpp"], [("nrand", "statistics.hpp"), ("sample, sample_pos, overlap", "gaussian.hpp, gm.hpp")], [("gen, ndist", "random stream of a thread", "statistics.inc")], ["Gaussian_::sample, sample_pos, overlap; GM::sample, sample_pos; nrand"])

p("C28", "Python application layer: forwards calls and combines maps and plots",
  "The Python application base class forwards predictions, scans and queries with their arguments unchanged to its tracker from its executor and returns the tracker's answers in order; its PHD sample is the tracker's map for its region and grid plus the prior for unknown targets and leaves the tracker unchanged, and a map containing a non-number raises a proper exception. The plotting helpers it calls exist and draw the given tracks, reports and regions with east on the horizontal and north on the vertical axis; a covariance is drawn as the ellipse of the stated number of standard deviations, turned as the covariance is.",
  ["inputs", "histories"], "all forwarding methods over recorded calls, all plot option combinations over small scenes",
  "No test runs the Python layer.",
  ["lmb/application.py", "lmb/plot.py"], [("Application", "lmb/application.py"), ("plot helpers", "lmb/plot.py")], [], ["Application methods, lmb.plot functions"])

p("C29", "Order and frame independence of scans",
  "The outcome of a scan does not depend on the order of its reports, on the order in which tracks happen to be stored, nor on where on the globe (away from poles and the antimeridian) or in which of the four quarter-turned headings the scene lies: permuting the reports, or moving the whole scene, yields the same existence probabilities, the same local means and covariances and the same clustering and births up to numbering and the tangent-plane approximation. Well separated groups of tracks and reports do not influence each other except through the scan-wide normalisation of birth probabilities.",
  ["inputs", "histories"], "all permutations of scans of up to 3 reports against all small reachable track sets, at a set of locations and headings; all pairs of separated groups",
  "The tests use one location and one order.",
  ["include/lmb.hpp", "include/cluster.hpp", "include/connectedcomponents.hpp", "include/cf.hpp"], [("clustering and local frames", "lmb.hpp, cluster.hpp")], [], ["get_targets after correct"])

p("C30", "Density over points: each component's weight shared out by its density",
  "Evaluating a Gaussian, a mixture or a track over a set of one or more points adds to every point's value the scale times each component's weight times that point's share of the component's position density, so that a component adds exactly the scale times its weight in total, for any positive definite covariance, including correlated and strongly anisotropic ones. A component whose densities at the points sum to at most 1e-7 adds nothing, a track's scale is its existence probability, values already there are added to, and neither the density nor the points change.",
  ["inputs"], "all lists of up to three points (with repetition) against all mixtures of up to three components over alphabets of means, covariances, weights, scales and initial values",
  "No test evaluates a density over points.",
  ["include/gaussian.hpp", "include/gm.hpp", "include/target.hpp"], [("sampled_pos_pdf", "gaussian.hpp, gm.hpp"), ("pos_phd", "target.hpp")], [], ["Gaussian_::sampled_pos_pdf, GM::sampled_pos_pdf, Target_::pos_phd"])

p("C31", "Printed output read back and drawn as the tracker held it",
  "Reading the printed form of a tracker's targets with clmb.py, one printed state after another, gives for every track its number, its latest cluster label, existence and density, and a history with the action, existence and density of each printed state in order; densities hold the printed components or particles, the mean is the weighted mean as a column and the covariance of particles is the unbiased weighted covariance (normalised by one minus the sum of the squared weights). Drawing does not fail for tracks that were read: the path goes through the means of the last max_back states (all by default), each component (or the particles) is drawn as the ellipse of the stated number of standard deviations (two by default) turned as the covariance is, with opacity in proportion to the weight, existence and number are written at the latest mean, the velocity is drawn from there with a length of at most 15, and the output plotter draws one picture per printed line with the paths up to that time.",
  ["inputs", "histories"], "all tracker histories of four operations printed and read; mixtures and particle sets over small alphabets; all plot option combinations over small scenes",
  "No test runs the reader or the plotter.",
  ["clmb.py", "plots/plot_results.py"], [("Target, GM, PF, plot_trace, plot_cov_ellipse", "clmb.py"), ("draw", "plots/plot_results.py"), ("repr", "include/lmb.hpp, include/target.hpp, include/gm.hpp, include/pf.hpp")], [], ["clmb.Target, clmb.GM, clmb.PF, clmb.plot_*; plots/plot_results.py"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
