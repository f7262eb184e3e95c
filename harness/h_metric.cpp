// C17 OSPA/GOSPA against brute force; C19 PHD maps of concentrated tracks.
#include "mc.hpp"
#include "ref.hpp"
#include "gm.hpp"
#include "lmb.hpp"
using mc::pick;
typedef ref::V2 V2; typedef ref::V4 V4; typedef ref::M2 M2; typedef ref::M4 M4;
typedef lmb::GM<4> PDF; typedef lmb::SILMB<PDF> Trk;
struct K { double w; V4 x; };    // local
static M4 tiny(double s2) { return M4::Identity() * s2; }
static void add(Trk& t, double r, const V2& o, const std::vector<K>& k, double s2) {
    PDF p(&t.params);
    for (auto& c : k) { V4 x = c.x; x.head<2>() = ref::ne2ll(V2(c.x[0], c.x[1]), o); p.c.emplace_back(x, tiny(s2), c.w); }
    p.transform_to_local(); p.transform_to_global();
    t.targettree.new_target(r, std::move(p));
}
static const V2 OO[] = {V2(58.3887657, 15.6965082), V2(-33.9, 151.2), V2(.5, -70), V2(-62, 20)};

static std::vector<std::vector<int>> multisets(int n, int m) {
    std::vector<std::vector<int>> r = {{}}, cur = {{}};
    for (int k = 0; k < m; ++k) { std::vector<std::vector<int>> nx; for (auto& c : cur) for (int i = c.empty() ? 0 : c.back(); i < n; ++i) { auto d = c; d.push_back(i); nx.push_back(d); } r.insert(r.end(), nx.begin(), nx.end()); cur = nx; }
    return r;
}
static void fam_metric() {
    bool th = mc::thorough();
    // positions chosen so that the best assignment depends on the exponent and the cut-off
    static const V4 X[] = {V4(0, 0, 0, 0), V4(1, 0, 0, 0), V4(2.2, 0, 0, .1), V4(0, 1.5, 1, 0), V4(40, -30, 2, 2), V4(1.1, 0, -2, 0)};
    int K1 = th ? 6 : 5, N = 4;
    static auto TS = multisets(K1, N);
    uint64_t seqs = 0; for (int k = 0; k <= N; ++k) seqs += mc::ipow(K1, k);
    static const double C[] = {1.2, 3, 1000}; static const double P[] = {1, 2, 3};
    mc::family("metric", (uint64_t)TS.size() * seqs * 9, [=] {
        auto& ts = TS[pick(TS.size())]; uint64_t d = pick((unsigned)seqs); double c = pick(C), p = pick(P);
        int n = 0; uint64_t cnt = 1; while (d >= cnt) { d -= cnt; cnt *= K1; ++n; }
        std::vector<V4> tr; for (int k = 0; k < n; ++k, d /= K1) tr.push_back(X[d % K1]);
        V2 o = OO[(ts.size() + n) % 4];
        // near the origin the frame's curvature does not matter; how the origin is chosen is the other family
        Trk t; std::vector<V4> ms;
        for (int k : ts) { V4 x = X[k] + V4(.05, -.02, 0, 0); add(t, .3, o, {{1, x}}, 1e-2); ms.push_back(x); }
        Trk::TargetStates truth; for (auto& x : tr) { V4 g = x; g.head<2>() = ref::ne2ll(V2(x[0], x[1]), o); truth.push_back(g); }
        // brute force over assignments of the smaller set
        int M = ms.size(), m = std::min(M, n), mx = std::max(M, n);
        double best = 1e300; std::vector<int> q(mx); for (int k = 0; k < mx; ++k) q[k] = k;
        if (m == 0) best = 0;
        else do { double s = 0; for (int k = 0; k < m; ++k) { double e = M <= n ? (ms[k] - tr[q[k]]).norm() : (ms[q[k]] - tr[k]).norm(); s += std::pow(std::min(e, c), p); } best = std::min(best, s); } while (std::next_permutation(q.begin(), q.end()));
        double eo = mx ? std::pow((best + std::pow(c, p) * (mx - m)) / mx, 1 / p) : 0, eg = std::pow(best + std::pow(c, p) / 2 * (mx - m), 1 / p);
        double g1 = t.ospa(truth, o, c, p), g2 = t.ospa(truth, c, p), g3 = t.gospa(truth, o, c, p), g4 = t.gospa(truth, c, p);
        auto near = [&](double a, double b) { return std::fabs(a - b) < 1e-7 + 1e-9 * b; };
        std::string w; char b[160]; for (int k : ts) w += std::to_string(k) + " "; w += "| "; for (auto& x : tr) { snprintf(b, 160, "(%g %g %g %g) ", x[0], x[1], x[2], x[3]); w += b; }
        MC_CHECK("C17", near(g1, eo), "tracks %s c %g p %g: OSPA %.12g, by definition %.12g", w.c_str(), c, p, g1, eo);
        MC_CHECK("C17", near(g2, eo), "tracks %s c %g p %g: OSPA with the default origin %.12g, by definition %.12g", w.c_str(), c, p, g2, eo);
        MC_CHECK("C17", near(g3, eg), "tracks %s c %g p %g: GOSPA %.12g, by definition %.12g", w.c_str(), c, p, g3, eg);
        MC_CHECK("C17", near(g4, eg), "tracks %s c %g p %g: GOSPA with the default origin %.12g, by definition %.12g", w.c_str(), c, p, g4, eg);
        mc::transition(4); mc::state(mc::Hasher().add(eo).add(eg).add(M).add(n).add(c).add(p).h); mc::outcome(std::to_string(M) + " tracks, " + std::to_string(n) + " states");
        mc::describe("tracks %s c %g p %g: OSPA %.6g GOSPA %.6g", w.c_str(), c, p, eo, eg);
    });
    // scenes so wide that the choice of the origin shows; mixtures
    static const V2 W[] = {V2(0, 0), V2(30000, 0), V2(0, -40000), V2(-9000, 25000), V2(12000, 12000)};
    mc::family("origin", 4ull * 31 * 31 * 3 * 2 * 2, [] {
        V2 o = pick(OO); unsigned a = 1 + pick(31), b = 1 + pick(31), wh = pick(3); double p = 1 + pick(2); bool mix = pick(2);
        Trk t; std::vector<std::vector<ref::Comp>> ms; V2 avg = V2::Zero(); int cnt = 0;
        for (unsigned k = 0; k < 5; ++k) if (a >> k & 1) {
            std::vector<ref::Comp> c; V2 g = ref::ne2ll(W[k], o), h = ref::ne2ll(W[(k + 1) % 5], o);
            PDF pd(&t.params); V4 x; x << g, 1, k; c.push_back({mix ? .75 : 1, x, tiny(1)}); if (mix) { x << h, -1, 0; c.push_back({.25, x, tiny(1)}); }
            for (auto& q : c) pd.c.emplace_back(q.x, q.P, q.w);
            pd.transform_to_local(); pd.transform_to_global(); c.clear(); for (auto& q : pd.c) c.push_back({q.w, q.x, q.P});
            t.targettree.new_target(.9, std::move(pd)); ms.push_back(c); avg += V2(ref::mean(c).head<2>()); ++cnt;
        }
        Trk::TargetStates truth; for (unsigned k = 0; k < 5; ++k) if (b >> k & 1) { V4 x; x << ref::ne2ll(V2(W[k] + V2(100. * k, -50)), o), 1, k; truth.push_back(x); avg += V2(x.head<2>()); ++cnt; }
        avg /= cnt; V2 org = wh == 0 ? avg : wh == 1 ? V2(o + V2(.8, -1.5)) : V2(o + V2(-3, 4));
        double c = 7000;
        int M = ms.size(), n = truth.size(), m = std::min(M, n), mx = std::max(M, n);
        std::vector<V4> xs, zs; for (auto& q : ms) xs.push_back(ref::mean(ref::local(q, org))); for (auto& z : truth) { V4 l = z; l.head<2>() = ref::ll2ne(V2(z.head<2>()), org); zs.push_back(l); }
        double best = 1e300; std::vector<int> q(mx); for (int k = 0; k < mx; ++k) q[k] = k;
        do { double s = 0; for (int k = 0; k < m; ++k) { double e = M <= n ? (xs[k] - zs[q[k]]).norm() : (xs[q[k]] - zs[k]).norm(); s += std::pow(std::min(e, c), p); } best = std::min(best, s); } while (std::next_permutation(q.begin(), q.end()));
        double eo = std::pow((best + std::pow(c, p) * (mx - m)) / mx, 1 / p), eg = std::pow(best + std::pow(c, p) / 2 * (mx - m), 1 / p);
        double go = wh == 0 ? t.ospa(truth, c, p) : t.ospa(truth, org, c, p), gg = wh == 0 ? t.gospa(truth, c, p) : t.gospa(truth, org, c, p);
        MC_CHECK("C17", std::fabs(go - eo) < 1e-5, "%d tracks, %d states over 50 km, origin %u p %g: OSPA %.12g, by definition %.12g", M, n, wh, p, go, eo);
        MC_CHECK("C17", std::fabs(gg - eg) < 1e-5, "%d tracks, %d states over 50 km, origin %u p %g: GOSPA %.12g, by definition %.12g", M, n, wh, p, gg, eg);
        mc::transition(2); mc::state(mc::Hasher().add(eo).add(eg).add(a).add(b).h); mc::outcome(wh ? "given origin" : "average origin"); mc::describe("%d tracks, %d states, OSPA %.6g GOSPA %.6g", M, n, eo, eg);
    });
    // more tracks than brute force can permute: distinct nearest pairs, known optimum
    mc::family("metric.many", 12 * 12 * 3 * 3, [] {
        int M = pick(12), n = pick(12); double c = pick(C), p = pick(P); V2 o = OO[0]; Trk t; Trk::TargetStates truth;
        for (int k = 0; k < M; ++k) { V4 x(100. * k, 0, 0, 0); add(t, .5, o, {{1, x}}, 1e-2); }
        for (int k = n - 1; k >= 0; --k) { V4 x(100. * k, .25 * (k + 1), 0, 0), g = x; g.head<2>() = ref::ne2ll(V2(x[0], x[1]), o); truth.push_back(g); }
        int m = std::min(M, n), mx = std::max(M, n); if (c > 100) c = 90;   // beyond that other pairings matter
        double s = 0; for (int k = 0; k < m; ++k) s += std::pow(std::min(.25 * (k + 1), c), p);
        double eo = mx ? std::pow((s + std::pow(c, p) * (mx - m)) / mx, 1 / p) : 0, eg = std::pow(s + std::pow(c, p) / 2 * (mx - m), 1 / p);
        double go = t.ospa(truth, o, c, p), gg = t.gospa(truth, o, c, p);
        MC_CHECK("C17", std::fabs(go - eo) < 1e-5 && std::fabs(gg - eg) < 1e-5, "%d tracks, %d states c %g p %g: OSPA %.10g (%.10g), GOSPA %.10g (%.10g)", M, n, c, p, go, eo, gg, eg);
        mc::transition(2); mc::state(mc::Hasher().add(eo).add(eg).h); mc::outcome("many"); mc::describe("%d tracks, %d states", M, n);
    });
}

// ---- C19
static void fam_phd() {
    bool th = mc::thorough();
    static const int SZ[][2] = {{3, 4}, {1, 1}, {5, 2}, {7, 7}, {1, 6}};
    static const double WT[][4] = {{1, 0, 0, 0}, {.5, .5, 0, 0}, {.25, .25, .25, .25}, {1 / 3., 1 / 3., 1 / 3., 0}, {.7, .2, .0996, .0004}, {.999, .001, 0, 0}, {.9, .1, 0, 0}};
    static const double RR[] = {1, .37, .004};
    int nt = th ? 3 : 2;
    mc::family("phd", 4ull * 5 * 7 * 3 * mc::ipow(9, 2) * 3 * nt, [=] {
        V2 o = pick(OO); auto sz = pick(SZ); auto wt = pick(WT); double r = pick(RR); unsigned pa = pick(9), pb = pick(9), s2 = pick(3); int more = pick(nt);
        double half0 = 30, half1 = 42; V2 sc = ref::scale(o);
        lmb::AABBox fov(o[0] + half0 / sc[0], o[1] - half1 / sc[1], o[0] - half0 / sc[0], o[1] + half1 / sc[1]);
        Eigen::Array2i size; size << sz[0], sz[1];
        static const double S2[] = {1e-12, 1e-8, 1e-14};
        Trk t; Eigen::MatrixXd e = Eigen::MatrixXd::Zero(sz[0], sz[1]); double total = 0; std::string log;
        double slack = 0;
        auto place = [&](unsigned k, unsigned q) {    // component k: cell or outside
            // 0-6 cells spread over the grid, 7 outside to the north, 8 outside to the west
            int i = (q * 2 + k) % sz[0], j = (q + 3 * k) % sz[1];
            V2 x(-half0 + (i + .5) * 2 * half0 / sz[0], -half1 + (j + .5) * 2 * half1 / sz[1]);
            if (q == 7) x[0] = half0 + 5 + k; if (q == 8) x[1] = -half1 - 4 - k;
            return x; };
        auto cell = [&](const V2& x) { int i = std::floor((x[0] + half0) / (2 * half0) * sz[0]), j = std::floor((x[1] + half1) / (2 * half1) * sz[1]); return i >= 0 && j >= 0 && i < sz[0] && j < sz[1] ? std::make_pair(i, j) : std::make_pair(-1, -1); };
        for (int n = 0; n <= more; ++n) {
            std::vector<K> c; double rr = n ? r * .5 : r;
            for (int k = 0; k < 4 && wt[k] > 0; ++k) { V2 x = place(k + n, k % 2 ? pb : pa); V4 s; s << x, 3, -2; c.push_back({wt[k], s}); auto p = cell(x); if (p.first >= 0) { e(p.first, p.second) += rr * wt[k]; total += rr * wt[k]; } }
            slack += rr * 4e-3; if (c.size() == 1) slack -= rr * 4e-3;
            add(t, rr, o, c, S2[s2]);
        }
        auto m = t.pos_phd(fov, size);
        mc::transition();
        MC_CHECK("C19", m.rows() == sz[0] && m.cols() == sz[1], "a %dx%d map has %d rows and %d columns", sz[0], sz[1], (int)m.rows(), (int)m.cols());
        if (m.rows() != sz[0] || m.cols() != sz[1]) return;
        for (int i = 0; i < sz[0]; ++i) for (int j = 0; j < sz[1]; ++j) MC_CHECK("C19", std::fabs(m(i, j) - e(i, j)) <= slack + 1e-9, "%dx%d map: cell (%d, %d) is %.9g, the tracks there weigh %.9g", sz[0], sz[1], i, j, m(i, j), e(i, j));
        MC_CHECK("C19", std::fabs(m.sum() - total) <= (pa < 7 && pb < 7 ? 1e-9 : slack + 1e-9), "%dx%d map sums to %.12g, the tracks inside to %.12g", sz[0], sz[1], m.sum(), total);
        mc::state(mc::Hasher().add(e.sum()).add(sz[0]).add(sz[1]).add(pa).add(pb).add(r).h); mc::outcome(pa < 7 && pb < 7 ? "inside" : pa >= 7 && pb >= 7 ? "outside" : "partly inside");
        mc::describe("%d tracks of existence %g in a %dx%d map: %.6g", more + 1, r, sz[0], sz[1], total);
    });
    // a density wider than the region: no more than its existence, nothing counted twice; a wide one inside adds up
    mc::family("phd.wide", 4 * 5 * 4 * 3 * 3, [] {
        V2 o = pick(OO); auto sz = pick(SZ); static const double SD[] = {2, 10, 60, 400}; double sd = pick(SD); double r = pick(RR); unsigned off = pick(3);
        V2 sc = ref::scale(o); double half = 100; lmb::AABBox fov(o[0] - half / sc[0], o[1] - half / sc[1], o[0] + half / sc[0], o[1] + half / sc[1]); Eigen::Array2i size; size << sz[0], sz[1];
        Trk t; add(t, r, o, {{.6, V4(off * 70., 0, 0, 0)}, {.4, V4(0, off * -70., 0, 0)}}, sd * sd);
        auto m = t.pos_phd(fov, size); mc::transition();
        MC_CHECK("C19", m.minCoeff() >= 0 && m.sum() <= r * (1 + 1e-9), "a map of one track of existence %g sums to %.9g", r, m.sum());
        if (sd * 8 + off * 70 < half) MC_CHECK("C19", std::fabs(m.sum() - r) < 1e-9, "a track of existence %g well inside the region counts %.9g", r, m.sum());
        mc::state(mc::Hasher().add(m.sum()).h); mc::outcome("wide"); mc::describe("one track of %g m, existence %g: %.6g", sd, r, m.sum());
    });
    // drawing from a mixture: every column and row comes from a component, in proportion
    mc::family("draw", 7 * 6 * 3, [] {
        auto wt = pick(WT); static const int N[] = {1, 2, 3, 10, 997, 1000}; int n = pick(N); unsigned what = pick(3);
        lmb::Params p; PDF g(&p); int nc = 0; for (; nc < 4 && wt[nc] > 0; ++nc) g.c.emplace_back(V4(nc + 1, -nc - 1, 10 * nc + 1, nc - 100), tiny(1e-16), wt[nc]);
        Eigen::MatrixXd s = Eigen::MatrixXd::Constant(what == 1 ? 2 : 4, n, 1e9); Eigen::Array<double, 2, Eigen::Dynamic> a(2, n); a.setConstant(1e9); Eigen::Matrix<double, 4, Eigen::Dynamic> f(4, n); f.setConstant(1e9);
        if (what == 0) { g.sample(f); s = f; } else if (what == 1) { g.sample_pos(a); s = a.matrix(); } else { PDF h(&p); h.c.push_back(g.c[0]); h.c[0].w = 1; h.sample(f); s = f; }
        std::vector<int> cnt(nc, 0); bool ok = true;
        for (int k = 0; k < n; ++k) { int c = (int)std::lround(s(0, k)) - 1; if (c < 0 || c >= nc) { ok = false; continue; } for (int q = 0; q < s.rows(); ++q) ok &= std::fabs(s(q, k) - g.c[c].x[q]) < 1e-6; ++cnt[c]; }
        MC_CHECK("C19", ok, "a draw of %d columns from %d components has columns of no component", n, nc);
        if (ok && what < 2) for (int c = 0; c < nc; ++c) MC_CHECK("C19", std::fabs(cnt[c] - wt[c] * n) <= 1.000001, "of %d columns %d are from a component of weight %g", n, cnt[c], wt[c]);
        mc::transition(); mc::state(mc::Hasher().add(n).add(nc).add(what).h); mc::outcome("drawn"); mc::describe("%d columns from %d components", n, nc);
    });
}
static void reg() { if (mc::want("C17")) fam_metric(); if (mc::want("C19")) fam_phd(); }
int main(int c, char** v) { return mc::main_(c, v, reg); }
