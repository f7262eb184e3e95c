// C20: one operation on several worker threads; C21: several operations at once.
// Every schedule within the bounds, on the real code, under sched.cpp.
#define MC_OWN_RANDOM
#include "mc.hpp"
#include <random>
#include "ref.hpp"
#include "sched.hpp"
#include "gm.hpp"
#include "pf.hpp"
#include "lmb.hpp"
#include "models.hpp"
using mc::pick;
typedef ref::V2 V2; typedef ref::V4 V4; typedef ref::M2 M2; typedef ref::M4 M4;
typedef lmb::GM<4> PDF; typedef lmb::SILMB<PDF> Trk; typedef Trk::Target Tgt; typedef lmb::PositionSensor<Tgt> Sen; typedef lmb::GaussianReport_<2> Rep;
static const V2 O(58.3887657, 15.6965082);

// ---- results: flat numbers in static storage
struct Out {
    double v[6000]; int n;
    void clear() { n = 0; }
    void add(double d) { if (n < 6000) v[n++] = d; }
    template<class M> void mat(const M& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) add(m(i, j)); }
};
static bool close(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return std::fabs(a - b) <= 1e-8 + 1e-7 * std::fabs(b) || a == b; }
static int differ(const Out& a, const Out& b) { if (a.n != b.n) return std::min(a.n, b.n); for (int k = 0; k < a.n; ++k) if (!close(a.v[k], b.v[k])) return k; return -1; }
static uint64_t hash(const Out& o) { mc::Hasher h; for (int k = 0; k < o.n; ++k) h.rnd(o.v[k], 1e-6); return h.h; }

struct Row { double key[2]; double v[26]; };
// Tracks that existed before go by their number, those born since by position.
static void rows(Out& o, Row* r, int n) {
    std::sort(r, r + n, [](const Row& a, const Row& b) { for (int k = 0; k < 2; ++k) if (std::fabs(a.key[k] - b.key[k]) > 1e-9) return a.key[k] < b.key[k]; return a.v[0] < b.v[0]; });
    o.add(n); for (int k = 0; k < n; ++k) for (double d : r[k].v) o.add(d);
}
static void dump(Out& o, Trk& t, std::vector<Rep>* scan, unsigned n0, bool stats) {
    static Row r[64]; int n = 0; auto& ts = t.targettree.targets; std::set<unsigned> ids;
    auto all = t.targettree.query(lmb::AABBox(-89, -179, 89, 179)); std::sort(all.begin(), all.end()); int twice = 0, lost = 0;
    for (size_t k = 1; k < all.size(); ++k) twice += all[k] == all[k - 1];
    for (auto p : ts) {
        if (n >= 64) break;
        Row& w = r[n++]; memset(&w, 0, sizeof w); V4 m = p->pdf.mean(); M4 P = p->pdf.cov(); ids.insert(p->id);
        if (p->id < n0) { w.key[0] = -1000 + (int)p->id; w.v[0] = p->id; } else { w.key[0] = std::nearbyint(m[0] * 1e7) * 1e-7; w.key[1] = m[1]; w.v[0] = -1; }
        w.v[1] = p->r; w.v[2] = p->pdf.c.size(); for (int i = 0; i < 4; ++i) w.v[3 + i] = m[i]; int q = 7;
        double sc[4] = {1e5, 1e5, 1, 1}; for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) w.v[q++] = P(i, j) * sc[i] * sc[j];
        for (auto& c : p->pdf.c) { w.v[q] += c.w * c.w; w.v[q + 1] += c.w * c.x[2] * c.P(2, 2); }
        q += 2; w.v[q++] = (int)p->last_action; w.v[q++] = p->is_new;
        if (stats) { unsigned c = p->cid; bool ok = c < t.cluster_ntargets.size() && c < t.cluster_nreports.size() && c < t.cluster_nhyps.size(); w.v[q++] = ok ? t.cluster_ntargets[c] : -1; w.v[q++] = ok ? t.cluster_nreports[c] : -1; w.v[q++] = ok ? t.cluster_nhyps[c] : -1; }
        lost += std::count(all.begin(), all.end(), p) != 1;
        auto own = t.targettree.query(p->llaabbox()); lost += std::count(own.begin(), own.end(), p) != 1;
    }
    rows(o, r, n);
    o.add(ids.size()); o.add(all.size()); o.add(twice); o.add(lost); o.add(stats ? t.nof_clusters : 0);
    if (scan) {
        // partition of what was there: first member of the same cluster
        std::vector<unsigned> c; std::vector<Tgt*> old; for (auto p : ts) if (p->id < n0) old.push_back(p); std::sort(old.begin(), old.end(), [](Tgt* a, Tgt* b) { return a->id < b->id; });
        for (auto p : old) c.push_back(p->cid); for (auto& z : *scan) c.push_back(z.cid);
        for (auto k : c) o.add(std::find(c.begin(), c.end(), k) - c.begin());
        for (auto& z : *scan) { o.add(z.rB); o.mat(z.x.transpose()); o.mat(z.P); unsigned k = z.cid; bool ok = k < t.cluster_ntargets.size(); o.add(ok ? t.cluster_ntargets[k] : -1); o.add(ok ? t.cluster_nreports[k] : -1); o.add(ok ? t.cluster_nhyps[k] : -1); }
    }
}

// ---- worlds
struct World { int tr[4], rp[4]; int n = 0; };
static const V2 SITE[] = {V2(0, 0), V2(0, 2000), V2(1500, -800), V2(-1700, 900)};
static M2 m2(double a, double b, double c) { M2 m; m << a, b, b, c; return m; }
static void track(Trk& t, const V2& at, double r, double s, bool two) {
    PDF p(&t.params); V4 x; x << ref::ne2ll(at, O), 1.5, -.5; M4 P = M4::Identity(); P(0, 0) = P(1, 1) = s * s; P(2, 2) = 2; P(0, 2) = P(2, 0) = .3; p.c.emplace_back(x, P, two ? .7 : 1.);
    if (two) { V4 y = x; y.head<2>() = ref::ne2ll(V2(at + V2(3, -4)), O); p.c.emplace_back(y, 2 * P, .3); }
    p.transform_to_local(); p.transform_to_global(); t.targettree.new_target(r, std::move(p));
}
static void build(Trk& t, const World& w) {
    t.params.r_lim = .01;
    for (int k = 0; k < w.n; ++k) switch (w.tr[k]) {
        case 1: track(t, SITE[k], .8, 4, true); break;
        case 2: track(t, SITE[k], .6, 4, false); track(t, SITE[k] + V2(6, 5), .9, 5, true); break;
        case 3: track(t, SITE[k], .03, 4, false); break;       // does not survive a miss
        case 4: track(t, SITE[k], .999, 3, false); track(t, SITE[k] + V2(-5, 4), .03, 3, false); track(t, SITE[k] + V2(1, -7), .5, 3, false); break;
    }
}
static void reports(std::vector<Rep>& s, const World& w, int first, int last) {
    for (int k = first; k < last; ++k) {
        if (w.rp[k] >= 1) s.emplace_back(ref::ne2ll(V2(SITE[k] + V2(2, 1)), O), m2(2, .5, 3), .1);
        if (w.rp[k] >= 2) s.emplace_back(ref::ne2ll(V2(SITE[k] + V2(9, 8)), O), m2(3, 0, 2), .1);
    }
}
// The position sensor integrates the field of view by sampling, which is most of the work and has no
// part in the schedule; most scenes use a sensor that sees everything, some the real one.
struct Wide : Sen { template<typename P> double pD(const P&, const cf::LL&) const { return pD_; } };
template<class S = Wide> static S sensor() { S s; s.pD_ = .9; s.lambdaB = .8; return s; }
static std::string text(const World& w) { std::string s; char b[40]; for (int k = 0; k < w.n; ++k) { snprintf(b, 40, "site %d: tracks %d reports %d; ", k, w.tr[k], w.rp[k]); s += b; } return s; }

static Out want, got; 
template<class F> static void judge(sched::Config c, const std::string& what, F body) {
    c.free_choices = c.team == 2 && !c.nested;
    auto run = [&](Out& o) { lmb::gen.seed(7); lmb::ndist.reset(); o.clear(); body(o); };
    sched::serial([&] { run(want); });
    int k = -1; uint64_t hs = 0; double gv = 0, wv = 0;
    auto r = sched::explore(c, [&] { run(got); }, [&] { k = differ(got, want); mc::state(mc::mix(hash(got), hs++)); if (k >= 0) { gv = got.v[k]; wv = want.v[k]; } return k < 0; });
    mc::transition(r.points); mc::st().checks += r.schedules;
    const char* p = "C20";
    if (k >= 0) mc::fail(p, "%s, team of %d%s: result %d of %d is %.12g, single-threaded %.12g (of %d), on schedule %s", what.c_str(), c.team, c.nested ? " nested" : "", k, got.n, gv, wv, want.n, r.path.c_str());
    if (!r.bad.empty()) mc::fail(p, "%s, team of %d%s: %s on schedule %s", what.c_str(), c.team, c.nested ? " nested" : "", r.bad.c_str(), r.path.c_str());
    mc::describe("%s, team of %d%s, %d preemptions: %" PRIu64 " schedules, %" PRIu64 " points, longest %" PRIu64 ", %" PRIu64 " accesses, %d results", what.c_str(), c.team, c.nested ? " nested" : "", c.preemptions, r.schedules, r.points, r.max_depth, r.accesses, want.n);
    mc::outcome(r.schedules == 1 ? "one schedule" : r.schedules < 10 ? "2-9 schedules" : r.schedules < 100 ? "10-99 schedules" : r.schedules < 1000 ? "100-999 schedules" : "1000 schedules or more");
}
static lmb::CV<Tgt> cv(double dt = 0) { lmb::CV<Tgt> m; return m; }

static void fam_workers() {
    bool th = mc::thorough();
    static const int TEAM[] = {2, 3, 4};
    auto scan = [](Out& o, const World& w, bool real = false) { Trk t; build(t, w); std::vector<Rep> s; reports(s, w, 0, w.n); unsigned n0 = t.targettree.targets.size(); if (real) t.correct(sensor<Sen>(), s, 1.); else t.correct(sensor(), s, 1.); dump(o, t, &s, n0, true); };
    mc::family("par.scan2", 13 * 13 * 2 * 2, [=] {
        World w; w.n = 2; for (int k = 0; k < 2; ++k) { int d = pick(13); w.tr[k] = d == 12 ? 4 : d % 4; w.rp[k] = d == 12 ? 2 : d / 4; }
        sched::Config c; c.team = 2 + pick(2); c.nested = pick(2); int sz = 0; for (int k = 0; k < 2; ++k) sz += (w.tr[k] == 3 ? 1 : w.tr[k]) * (1 + w.rp[k]); bool big = sz > 5; c.preemptions = c.nested ? (th && !big ? 2 : 1) : c.team == 2 && !big ? (th ? 3 : 2) : (th ? 2 : 1);
        judge(c, "scan, " + text(w), [&](Out& o) { scan(o, w); });
    });
    mc::family("par.sensor", 4 * 4 * 2, [=] {
        static const int D[][2] = {{1, 1}, {0, 2}, {3, 0}, {4, 1}};
        World w; w.n = 2; for (int k = 0; k < 2; ++k) { auto d = pick(D); w.tr[k] = d[0]; w.rp[k] = d[1]; }
        sched::Config c; c.team = 2; c.nested = pick(2); c.preemptions = c.nested ? 0 : th ? 2 : 1;
        judge(c, "scan with the position sensor, " + text(w), [&](Out& o) { scan(o, w, true); });
    });
    mc::family("par.scan3", 7 * 7 * 7 * 2 * (th ? 2 : 1), [=] {
        static const int D[][2] = {{1, 0}, {1, 1}, {0, 2}, {3, 0}, {2, 1}, {3, 1}, {0, 1}};
        World w; w.n = 3; for (int k = 0; k < 3; ++k) { auto d = pick(D); w.tr[k] = d[0]; w.rp[k] = d[1]; }
        sched::Config c; c.team = 2 + pick(2); c.nested = th && pick(2); c.preemptions = c.nested ? 1 : th ? 2 : 1;
        judge(c, "scan, " + text(w), [&](Out& o) { scan(o, w); });
    });
    mc::family("par.scan4", 4 * 4 * 4 * 4 * 1, [=] {
        static const int D[][2] = {{1, 1}, {0, 2}, {3, 0}, {3, 1}};
        World w; w.n = 4; for (int k = 0; k < 4; ++k) { auto d = pick(D); w.tr[k] = d[0]; w.rp[k] = d[1]; }
        sched::Config c; c.team = th ? 4 : 2; c.preemptions = 1;
        judge(c, "scan, " + text(w), [&](Out& o) { scan(o, w); });
    });
    mc::family("par.predict", 5 * 5 * 5 * 2 * 3 * 2, [=] {
        World w; w.n = 3; for (int k = 0; k < 3; ++k) { w.tr[k] = pick(5); w.rp[k] = 0; }
        unsigned m = pick(2); sched::Config c; c.team = pick(TEAM); c.nested = pick(2); c.preemptions = c.nested ? (th ? 2 : 1) : th ? 4 : 3;
        judge(c, std::string(m ? "CV" : "NM") + " prediction, " + text(w), [&](Out& o) {
            Trk t; build(t, w); t.params.r_lim = .025; unsigned n0 = t.targettree.targets.size();
            if (m) { lmb::CV<Tgt> f; f.pS = .8; f.q = .5; t.predict(f, 2., .5); } else { lmb::NM<Tgt> f; f.pS = .8; f.Q = M4::Identity(); t.predict(f, 2., .5); }
            dump(o, t, nullptr, n0, false);
        });
    });
    // predict, scan, predict, scan in one execution
    mc::family("par.history", 7 * 7 * 3 * 2 * 2, [=] {
        static const int D[][2] = {{1, 1}, {0, 2}, {3, 0}, {2, 1}, {3, 1}, {2, 2}, {0, 0}};
        World w; w.n = 2; for (int k = 0; k < 2; ++k) { auto d = pick(D); w.tr[k] = d[0]; w.rp[k] = d[1]; }
        unsigned h = pick(3); sched::Config c; c.team = 2 + pick(2); c.preemptions = 1; if (pick(2)) { if (!th) { mc::skip(); return; } c.nested = true; c.preemptions = 0; }
        judge(c, std::string(h == 0 ? "scan, prediction; " : h == 1 ? "scan, scan; " : "prediction, scan, prediction; ") + text(w), [&](Out& o) {
            Trk t; build(t, w); std::vector<Rep> s, s2; reports(s, w, 0, w.n); unsigned n0 = t.targettree.targets.size(); lmb::CV<Tgt> f; f.pS = .9; f.q = .5;
            if (h == 2) t.predict(f, 1., 0.);
            t.correct(sensor(), s, 1.);
            if (h == 1) { reports(s2, w, 0, w.n); t.correct(sensor(), s2, 2.); dump(o, t, nullptr, n0, true); }
            else { t.predict(f, 3., 1.); dump(o, t, nullptr, n0, false); }
        });
    });
    // densities on their own
    mc::family("par.density", 6 * 4 * 3, [=] {
        unsigned op = pick(6), n = 1 + pick(4); sched::Config c; c.team = pick(TEAM); c.preemptions = th ? 4 : 2;
        static const char* NM[] = {"mixture update", "mixture motion", "mixture overlap with a box", "mixture overlap with a region", "mixture set_state", "particle update, miss, motion"};
        static lmb::Params par;
        judge(c, std::string(NM[op]) + " of " + std::to_string(n) + " components", [&](Out& o) {
            if (op == 5) {
                typedef lmb::PF<4, 6> PF; PF f(&par); for (int k = 0; k < 6; ++k) { f.w[k] = .1 + .05 * k; f.x.col(k) << k, 2 - k, k * k, 1; } f.origin = O; f.normalize();
                Rep z(V2(1, n), m2(2, .5, 3), .1); o.add(f.correct(z, sensor<Sen>())); o.mat(f.w.matrix()); M4 F = M4::Identity(); F(0, 2) = .5; f.linear_update(F, F); o.mat(f.x.matrix()); Sen s = sensor<Sen>(); s.pD_ = .3; o.add(f.missed(s)); o.mat(f.w.matrix()); o.mat(f.mean().transpose()); return;
            }
            PDF p(&par); p.origin = O; for (unsigned k = 0; k < n; ++k) { V4 x(k, 1 - (int)k, 2, k); M4 P = M4::Identity() * (2 + k); p.c.emplace_back(x, P, 1. / n); }
            Rep z(V2(1, 1), m2(2, .5, 3), .1); M4 F = M4::Identity(); F(0, 2) = F(1, 3) = 2;
            if (op == 0) o.add(p.correct(z, sensor<Sen>())); if (op == 1) p.linear_update(F, F);
            if (op == 2) { lmb::BBox b; b.corners << 3, 3, -2, -2, 4, -1, -1, 4; static double one; double v = p.overlap(b); if (&o == &want) { one = v; v = 0; } else if (std::fabs(v - one) < .1) v = 0; o.add(v); }     // sampled, from a generator per thread if (op == 3) o.add(p.overlap(lmb::AABBox(-2, -1, 3, 4)));
            if (op == 4) p.set_state(V4(1, 2, 3, 4));
            for (auto& k : p.c) { o.add(k.w); o.mat(k.x.transpose()); o.mat(k.P); } if (op == 0) o.add(p.eta);
        });
    });
}

// ---- C21
static const int NOPS = 16;
static const char* OPN[] = {"scan A", "scan B", "CV prediction", "NM prediction", "tracks", "tracks in a region", "count", "count in a region", "expected count", "expected count in a region", "OSPA", "OSPA about a point", "GOSPA", "GOSPA about a point", "map", "print"};
struct Call { int op; Out* o; unsigned n0; int team; };
static void summaries(Out& o, const Trk::TargetSummaries& s, unsigned n0) {
    Row r[32]; int n = 0;
    for (auto& q : s) { if (n >= 32) break; Row& w = r[n++]; memset(&w, 0, sizeof w); if (q.id < n0) { w.key[0] = -1000 + (int)q.id; w.v[0] = q.id; } else { w.key[0] = std::nearbyint(q.x[0] * 1e7) * 1e-7; w.key[1] = q.x[1]; w.v[0] = -1; } w.v[1] = q.r; for (int i = 0; i < 4; ++i) w.v[2 + i] = q.x[i]; for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) w.v[6 + i * 4 + j] = q.P(i, j); }
    rows(o, r, n);
}
static void call(Trk& t, const World& w, const Call& c) {
    Out& o = *c.o; V2 sc = ref::scale(O); lmb::AABBox box(O[0] - 500 / sc[0], O[1] - 500 / sc[1], O[0] + 500 / sc[0], O[1] + 2600 / sc[1]);
    Trk::TargetStates truth; if (c.op >= 10 && c.op < 14) { V4 a, b; a << ref::ne2ll(V2(1, 2), O), 1, 0; b << ref::ne2ll(V2(20, 2010), O), 0, 0; truth = {a, b}; }
    switch (c.op) {
        case 0: case 1: { std::vector<Rep> s; if (c.op == 0) reports(s, w, 0, w.n); else { s.emplace_back(ref::ne2ll(V2(3, -2), O), m2(4, 0, 4), .2); s.emplace_back(ref::ne2ll(V2(-600, 400), O), m2(4, 0, 4), .2); } t.correct(sensor(), s, 1.); for (auto& z : s) { o.add(z.rB); o.mat(z.x.transpose()); } break; }
        case 2: { lmb::CV<Tgt> f; f.pS = .9; f.q = .5; t.predict(f, 3., 1.); break; }
        case 3: { lmb::NM<Tgt> f; f.pS = .7; f.Q = M4::Identity(); t.predict(f, 2., 1.); break; }
        case 4: summaries(o, t.get_targets(), c.n0); break;
        case 5: summaries(o, t.get_targets(box), c.n0); break;
        case 6: o.add(t.nof_targets(.5)); break;
        case 7: o.add(t.nof_targets(box, .02)); break;
        case 8: o.add(t.enof_targets()); break;
        case 9: o.add(t.enof_targets(box)); break;
        case 10: o.add(t.ospa(truth, 100, 2)); break;
        case 11: o.add(t.ospa(truth, O, 100, 1)); break;
        case 12: o.add(t.gospa(truth, 100, 2)); break;
        case 13: o.add(t.gospa(truth, O, 100, 1)); break;
        case 14: { Eigen::Array2i n; n << 1, 2; o.mat(t.pos_phd(lmb::AABBox(O[0] - 1000 / sc[0], O[1] - 1000 / sc[1], O[0] + 1000 / sc[0], O[1] + 3000 / sc[1]), n)); break; }
        case 15: { std::string s = lmb::print(t); double v[4000]; int n = 0; const char* p = s.c_str(); while (*p && n < 4000) { char* e; double d = strtod(p, &e); if (e == p) ++p; else { v[n++] = d; p = e; } } std::sort(v, v + n); o.add(n); double a = 0, b = 0; for (int k = 0; k < n; ++k) { a += v[k]; b += std::sqrt(std::fabs(v[k])); } if (c.team == 1) { o.add(a / 10); o.add(b / 10); } break; }
    }
}
static Out specs[64]; static Out part[8];
// programs: op lists, one per caller
static void atomicity(const World& w, const std::vector<std::vector<int>>& prog, sched::Config c, const std::string& what) {
    int total = 0; for (auto& p : prog) total += p.size();
    static unsigned n0; static std::vector<std::vector<int>> P; P = prog; int n = prog.size();
    auto finish = [&](Out& o, Trk& t) { o.clear(); for (int k = 0; k < total; ++k) { o.add(part[k].n); for (int j = 0; j < part[k].n; ++j) o.add(part[k].v[j]); } dump(o, t, nullptr, n0, false); };
    auto start = [&] { lmb::gen.seed(7); lmb::ndist.reset(); for (auto& p : part) p.clear(); };
    std::vector<int> first(n); { int s = 0; for (int k = 0; k < n; ++k) { first[k] = s; s += prog[k].size(); } }
    // specification: every merge of the programs, one call after the other
    std::vector<int> order; for (int k = 0; k < n; ++k) for (size_t j = 0; j < prog[k].size(); ++j) order.push_back(k);
    int ns = 0;
    do {
        if (ns >= 64) break;
        sched::serial([&] { start(); { Trk t; build(t, w); n0 = t.targettree.targets.size(); std::vector<int> at(n, 0); for (int k : order) { int j = at[k]++; call(t, w, {P[k][j], &part[first[k] + j], n0, c.team}); } finish(specs[ns], t); } });
        bool dup = false; for (int k = 0; k < ns && !dup; ++k) dup = differ(specs[k], specs[ns]) < 0;
        if (!dup) ++ns;
    } while (std::next_permutation(order.begin(), order.end()));
    bool ok = true; uint64_t hs = 0; std::set<int> seen;
    auto r = sched::explore(c, [&] {
        start(); Trk t; build(t, w); n0 = t.targettree.targets.size();
        std::function<void()> f[4]; for (int k = 0; k < n; ++k) f[k] = [&, k] { for (size_t j = 0; j < P[k].size(); ++j) call(t, w, {P[k][j], &part[first[k] + j], n0, c.team}); };
        sched::concurrently(f, n);
        finish(got, t);
    }, [&] { ok = false; for (int k = 0; k < ns && !ok; ++k) if (differ(got, specs[k]) < 0) { ok = true; seen.insert(k); } mc::state(mc::mix(hash(got), hs++)); return ok; });
    mc::transition(r.points); mc::st().checks += r.schedules;
    std::string why; if (!ok) { char b[200]; for (int k = 0; k < ns; ++k) { int d = differ(got, specs[k]); snprintf(b, 200, " order %d differs at %d: %.10g, not %.10g;", k, d, d < got.n ? got.v[d] : 0, d < specs[k].n ? specs[k].v[d] : 0); why += b; } }
    if (!ok) mc::fail("C21", "%s: no sequential order of the calls gives these results (%s) on schedule %s", what.c_str(), why.c_str(), r.path.c_str());
    if (!r.bad.empty()) mc::fail("C21", "%s: %s on schedule %s", what.c_str(), r.bad.c_str(), r.path.c_str());
    mc::describe("%s: %" PRIu64 " schedules, %" PRIu64 " points, %d distinct sequential results, %zu of them seen", what.c_str(), r.schedules, r.points, ns, seen.size());
    mc::outcome(std::to_string(seen.size()) + " of " + std::to_string(ns) + " sequential results seen");
}
static World world(int k) { World w; static const int D[][6] = {{1, 1, 2, 2, 3, 0}, {0, 1, 1, 0, 1, 1}, {2, 2, 3, 1, 0, 2}, {1, 1, 0, 1, 0, 0}, {3, 1, 1, 0, 0, 0}}; w.n = 3; for (int i = 0; i < 3; ++i) { w.tr[i] = D[k][2 * i]; w.rp[i] = D[k][2 * i + 1]; } return w; }
static void fam_callers() {
    bool th = mc::thorough();
    mc::family("calls.pairs", NOPS * (NOPS + 1) / 2 * 3 * 2, [=] {
        int d = pick(NOPS * (NOPS + 1) / 2), a = 0; while (d >= NOPS - a) { d -= NOPS - a; ++a; } int b = a + d; int wk = pick(3); sched::Config c; c.team = 1 + pick(2); c.free_choices = c.team == 1; c.preemptions = (th ? 3 : 2) - (c.team > 1);
        atomicity(world(wk), {{a}, {b}}, c, std::string(OPN[a]) + " | " + OPN[b] + ", world " + std::to_string(wk) + (c.team > 1 ? ", two workers each" : ""));
    });
    // one modification against two more calls
    static const int R[] = {0, 1, 2, 3, 4, 7, 11, 14}, Q[] = {0, 2, 4, 7, 13};
    mc::family("calls.triples", 4ull * (th ? NOPS * NOPS * 3 : 64), [=] {
        int a = pick(4), b = th ? pick(NOPS) : pick(R), d = th ? pick(NOPS) : pick(R); int wk = th ? pick(3) : 3; if (d < b) { mc::skip(); return; } sched::Config c; c.team = 1; c.preemptions = th ? 2 : 1;
        atomicity(world(wk), {{a}, {b}, {d}}, c, std::string(OPN[a]) + " | " + OPN[b] + " | " + OPN[d] + ", world " + std::to_string(wk));
    });
    // two calls each: a caller never goes back in time
    mc::family("calls.twice", 16ull * (th ? NOPS * NOPS : 25), [=] {
        int a = pick(4), b = pick(4), x = th ? pick(NOPS) : pick(Q), y = th ? pick(NOPS) : pick(Q); sched::Config c; c.team = 1; c.preemptions = th ? 2 : 1;
        atomicity(world(th ? 1 : 4), {{a, b}, {x, y}}, c, std::string(OPN[a]) + ", " + OPN[b] + " | " + OPN[x] + ", " + OPN[y]);
    });
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] { if (mc::want("C20")) fam_workers(); if (mc::want("C21")) fam_callers(); });
}
