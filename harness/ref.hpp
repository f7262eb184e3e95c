// Reference model of the tracker, written independently of /repo: geodesy, motion,
// clustering, exact multi-Bernoulli posterior with truncation, birth, termination.
// It predicts the complete post-state from a pre-state; anything that lies too near a
// threshold to be decided in floating point is marked ambiguous.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <vector>
namespace ref {
typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4;
typedef Eigen::Matrix2d M2; typedef Eigen::Matrix4d M4; typedef std::array<double, 4> Box;   // min0 min1 max0 max1
const double A = 6378137.0, F = 1 / 298.257223563, E2 = F * (2 - F), D2R = 0.017453292519943295;

inline V3 ecef(const V2& ll) {
    double la = ll[0] * D2R, lo = ll[1] * D2R, s = std::sin(la), n = A / std::sqrt(1 - E2 * s * s);
    return V3(n * std::cos(la) * std::cos(lo), n * std::cos(la) * std::sin(lo), n * (1 - E2) * s);
}
inline V3 north(const V2& o) { double la = o[0] * D2R, lo = o[1] * D2R; return V3(-std::sin(la) * std::cos(lo), -std::sin(la) * std::sin(lo), std::cos(la)); }
inline V3 east(const V2& o) { double lo = o[1] * D2R; return V3(-std::sin(lo), std::cos(lo), 0); }
// geodetic coordinates by fixed-point iteration to convergence
inline V2 geodetic(const V3& p) {
    double w = std::hypot(p[0], p[1]), la = std::atan2(p[2], w * (1 - E2));
    for (int k = 0; k < 60; ++k) {
        double s = std::sin(la), n = A / std::sqrt(1 - E2 * s * s), l2 = std::atan2(p[2] + E2 * n * s, w);
        double d = std::fabs(l2 - la); la = l2; if (d < 1e-16) break;
    }
    return V2(la / D2R, std::atan2(p[1], p[0]) / D2R);
}
inline V2 ll2ne(const V2& ll, const V2& o) { V3 d = ecef(ll) - ecef(o); return V2(north(o).dot(d), east(o).dot(d)); }
inline V2 ne2ll(const V2& ne, const V2& o) { return geodetic(ecef(o) + north(o) * ne[0] + east(o) * ne[1]); }
// metres per degree at o
inline V2 scale(const V2& o) {
    double s = std::sin(o[0] * D2R), q = 1 - E2 * s * s;
    return V2(A * (1 - E2) / std::pow(q, 1.5), A / std::sqrt(q) * std::cos(o[0] * D2R)) * D2R;
}

struct Comp { double w; V4 x; M4 P; };
struct Track { unsigned id, cid; double r; std::vector<Comp> c; Box bb; char la; };
struct Report { V2 x; M2 P; double kappa; };
struct Params { double w_lim, r_lim, nhyp_max, rB_max, nstd, cw_lim, cov_lim, tscale; unsigned max_comp; };
struct Sensor { Eigen::Matrix<double, 2, 4> fov; double pD, lambdaB; M2 pv; };

inline V4 mean(const std::vector<Comp>& c) { V4 m = V4::Zero(); for (auto& k : c) m += k.w * k.x; return m; }
inline M4 cov(const std::vector<Comp>& c) {
    V4 m = mean(c); M4 P = M4::Zero();
    for (auto& k : c) P += k.w * (k.P + (k.x - m) * (k.x - m).transpose());
    return P;
}
inline std::vector<Comp> local(std::vector<Comp> c, const V2& o) { for (auto& k : c) k.x.head<2>() = ll2ne(k.x.head<2>(), o); return c; }
inline std::vector<Comp> global(std::vector<Comp> c, const V2& o) { for (auto& k : c) k.x.head<2>() = ne2ll(k.x.head<2>(), o); return c; }
inline Box llbox(const Box& b, const V2& o) {
    V2 a = ne2ll(V2(b[0], b[1]), o), z = ne2ll(V2(b[2], b[3]), o);
    return {std::min(a[0], z[0]), std::min(a[1], z[1]), std::max(a[0], z[0]), std::max(a[1], z[1])};
}
inline Box nebox(const std::vector<Comp>& c, double nstd) {
    Box b = {1e300, 1e300, -1e300, -1e300};
    for (auto& k : c) for (int a = 0; a < 2; ++a) {
        double h = nstd * std::sqrt(k.P(a, a));
        b[a] = std::min(b[a], k.x[a] - h); b[a + 2] = std::max(b[a + 2], k.x[a] + h);
    }
    return b;
}
// 1 touching, 0 apart, -1 too close to call. Scaled by the box sizes.
inline int overlap(const Box& a, const Box& b, double eps = 1e-9) {
    int res = 1;
    for (int k = 0; k < 2; ++k) {
        double gap = std::max(a[k] - b[k + 2], b[k] - a[k + 2]);
        if (gap > eps) return 0;
        if (gap > -eps) res = -1;
    }
    return res;
}
// a position density of covariance P at ll against a convex field of view: 1 inside, 0 outside, -1 neither clearly
inline int in_fov(const V2& ll, double spread, const Eigen::Matrix<double, 2, 4>& fov) {
    V2 s = scale(ll); V2 q[4]; double diag = 0, area = 0;
    for (int i = 0; i < 4; ++i) q[i] = (fov.col(i) - ll).cwiseProduct(s);
    for (int i = 0; i < 4; ++i) { diag = std::max(diag, (q[i] - q[(i + 2) % 4]).norm()); area += q[i][0] * q[(i + 1) % 4][1] - q[i][1] * q[(i + 1) % 4][0]; }
    double margin = std::max(spread, .02 * diag), worst = 1e300; bool inside = true, out = false;
    for (int i = 0; i < 4; ++i) {
        V2 e = q[(i + 1) % 4] - q[i]; double d = (e[0] * -q[i][1] - e[1] * -q[i][0]) / e.norm() * (area > 0 ? 1 : -1);   // >0: inner side
        if (d < margin) inside = false;
        if (d < -margin) out = true;
        worst = std::min(worst, d);
    }
    return inside ? 1 : out ? 0 : -1;
}
inline int in_fov(const Comp& k, const Sensor& s, double nstd = 9) {
    return in_fov(k.x.head<2>(), nstd * std::sqrt(k.P.topLeftCorner<2, 2>().norm()), s.fov);
}

struct Expect {
    bool ambiguous = false;                       // nothing can be said about the scan as a whole
    struct T { int pre; int cluster = -1; double r = 0; std::vector<Comp> c; V2 o = V2::Zero(); bool amb = false, alive = true, untouched = false, undecided_alive = false; };
    std::vector<T> t;                              // one per pre-track, same order
    struct C { std::vector<int> tracks, reports; unsigned nhyp = 0; bool amb = false, nhyp_open = false, impossible = false; double skipped = 0; };
    std::vector<C> clusters;
    std::vector<double> rB; std::vector<bool> rBamb; std::vector<int> rcluster;
    struct B { int report; double r; };
    std::vector<B> births; bool births_amb = false;
};

inline void predict_cv(Track& t, const Params& p, double pS, double q, double dt) {
    double d = dt / p.tscale;
    V2 o = mean(t.c).head<2>();
    auto c = local(t.c, o);
    M4 Fm = M4::Identity(); Fm(0, 2) = Fm(1, 3) = d;
    M4 Q = M4::Zero();
    for (int a = 0; a < 2; ++a) { Q(a, a) = d * d * d / 3; Q(a, a + 2) = Q(a + 2, a) = d * d / 2; Q(a + 2, a + 2) = d; }
    for (auto& k : c) { k.x = Fm * k.x; k.P = Fm * k.P * Fm.transpose() + q * Q; }
    t.bb = llbox(nebox(c, p.nstd), o);
    t.c = global(c, o); t.r *= std::pow(pS, d); t.la = 'u';
}
inline void predict_nm(Track& t, const Params& p, double pS, const M4& Q) {
    V2 o = mean(t.c).head<2>();
    auto c = local(t.c, o);
    for (auto& k : c) k.P += Q;
    t.bb = llbox(nebox(c, p.nstd), o);
    t.c = global(c, o); t.r *= pS; t.la = 'u';
}
// Kalman update of a component with a report in the same frame; log of w*pD*likelihood/kappa
inline Comp update(const Comp& k, const V2& z, const M2& R, double& loglik) {
    M2 S = k.P.topLeftCorner<2, 2>() + R;
    double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
    M2 Si; Si << S(1, 1), -S(0, 1), -S(1, 0), S(0, 0); Si /= det;
    V2 y = z - k.x.head<2>();
    Eigen::Matrix<double, 4, 2> K = k.P.leftCols<2>() * Si;
    Comp n; n.w = k.w; n.x = k.x + K * y;
    M4 IKH = M4::Identity(); IKH.leftCols<2>() -= K;
    n.P = IKH * k.P * IKH.transpose() + K * R * K.transpose();     // Joseph form
    loglik = -.5 * y.dot(Si * y) - .5 * std::log(det) - std::log(2 * M_PI);
    return n;
}
inline int viable(double r, const std::vector<Comp>& c, const Params& p) {   // 1 keep, 0 drop, -1 near the limit
    auto side = [](double v, double lim) { return std::fabs(v - lim) < 1e-6 * std::max(std::fabs(lim), 1e-3) ? -1 : v >= lim; };
    int a = side(r, p.r_lim); if (a == 0) return 0;
    // position covariance with and without the spread of the components: both readings must agree
    M2 P = M2::Zero(), S = M2::Zero(); V4 m = mean(c); V2 s = scale(m.head<2>());
    for (auto& k : c) { V2 d = (k.x - m).head<2>().cwiseProduct(s); P += k.w * k.P.topLeftCorner<2, 2>(); S += k.w * d * d.transpose(); }
    int b = side(P.norm(), p.cov_lim), b2 = side((P + S).norm(), p.cov_lim);
    if (b == 1 && b2 == 1) b = 0; else if (b == 0 && b2 == 0) b = 1; else b = -1;
    if (b == 0) return 0;
    return a == 1 && b == 1 ? 1 : -1;
}

inline Expect scan(const std::vector<Track>& pre, const std::vector<Report>& rep, const Sensor& s, const Params& p) {
    Expect e; size_t T = pre.size(), N = rep.size();
    // overlap graph
    std::vector<int> par(T + N); for (size_t i = 0; i < par.size(); ++i) par[i] = i;
    std::function<int(int)> find = [&](int i) { return par[i] == i ? i : par[i] = find(par[i]); };
    std::vector<char> touched(T, 0);
    for (size_t j = 0; j < N; ++j) {
        Box b = llbox({-2 * std::sqrt(rep[j].P(0, 0)), -2 * std::sqrt(rep[j].P(1, 1)), 2 * std::sqrt(rep[j].P(0, 0)), 2 * std::sqrt(rep[j].P(1, 1))}, rep[j].x);
        for (size_t i = 0; i < T; ++i) {
            int o = overlap(b, pre[i].bb);
            if (o < 0) { e.ambiguous = true; return e; }
            if (o) { touched[i] = 1; par[find(i)] = find(T + j); }
        }
    }
    e.t.resize(T);
    std::vector<char> part(T, 0);
    for (size_t i = 0; i < T; ++i) {
        e.t[i].pre = i;
        V4 m = mean(pre[i].c);
        auto loc = local(pre[i].c, m.head<2>());
        M4 P = cov(loc);
        int f = in_fov(m.head<2>(), p.nstd * 1.5 * std::sqrt(P.topLeftCorner<2, 2>().norm()) , s.fov);
        if (touched[i]) part[i] = 1;
        else if (f < 0) { e.ambiguous = true; return e; }
        else part[i] = f;
    }
    std::vector<int> lab(T + N, -1);
    for (size_t k = 0; k < T + N; ++k) {
        size_t v = k < N ? T + k : k - N;      // reports first
        if (v < T && !part[v]) { e.t[v].untouched = true; continue; }
        int r = find(v);
        if (lab[r] < 0) { lab[r] = e.clusters.size(); e.clusters.emplace_back(); }
        (v < T ? e.clusters[lab[r]].tracks : e.clusters[lab[r]].reports).push_back(v < T ? v : v - T);
    }
    e.rB.assign(N, 1); e.rBamb.assign(N, false); e.rcluster.assign(N, -1);
    const double NI = -std::numeric_limits<double>::infinity();
    for (size_t ci = 0; ci < e.clusters.size(); ++ci) {
        auto& cl = e.clusters[ci];
        for (int j : cl.reports) e.rcluster[j] = ci;
        size_t M = cl.tracks.size(), n = cl.reports.size();
        V2 o = V2::Zero();
        for (int j : cl.reports) o += rep[j].x;
        for (int i : cl.tracks) o += mean(pre[i].c).head<2>();
        o /= M + n;
        // per-track candidates
        std::vector<std::vector<std::vector<Comp>>> cand(M); std::vector<std::vector<double>> L(M); std::vector<char> sure;   // L: n reports, miss, absent (log)
        for (size_t a = 0; a < M; ++a) {
            auto& t = pre[cl.tracks[a]]; e.t[cl.tracks[a]].cluster = ci;
            auto c = local(t.c, o);
            std::vector<double> pd(c.size());
            for (size_t k = 0; k < c.size(); ++k) { int f = in_fov(t.c[k], s); if (f < 0) { e.ambiguous = true; return e; } pd[k] = f * s.pD; }
            double lr = std::log(t.r);
            for (size_t b = 0; b < n; ++b) {
                auto& z = rep[cl.reports[b]]; V2 zn = ll2ne(z.x, o);
                std::vector<Comp> u; std::vector<double> lw; double tot = 0;
                for (size_t k = 0; k < c.size(); ++k) { double ll; u.push_back(update(c[k], zn, z.P, ll)); double w = c[k].w * pd[k] * std::exp(ll) / z.kappa; lw.push_back(w); tot += w; }
                if (tot > .99e-8 && tot < 1.01e-8) { e.ambiguous = true; return e; }
                if (tot > 1e-8) { for (size_t k = 0; k < u.size(); ++k) u[k].w = lw[k] / tot; L[a].push_back(lr + std::log(tot)); }
                else { u.clear(); L[a].push_back(NI); }
                cand[a].push_back(u);
            }
            double miss = 1; for (size_t k = 0; k < c.size(); ++k) miss -= c[k].w * pd[k];
            // certain detection, up to rounding: a miss that floating point may take for barely possible
            bool rm = miss < 1e-9; sure.push_back(rm);
            // a single component of weight one that is certainly detected: no rounding in that
            bool never = c.size() == 1 && c[0].w == 1 && pd[0] == 1;
            L[a].push_back(never ? NI : lr + std::log(rm ? 1e-15 : miss));
            L[a].push_back(t.r < 1 ? std::log(1 - t.r) : NI);
            cand[a].push_back(c);
        }
        if (M == 0) continue;
        // all joint associations
        struct H { double lw; std::vector<int> as; };  double barely = NI;
        std::vector<H> hyp; std::vector<int> cur(M); std::vector<char> used(n, 0);
        std::function<void(size_t, double)> rec = [&](size_t a, double lw) {
            if (lw == NI) return;
            if (a == M) { bool b = false; for (size_t q = 0; q < M; ++q) b |= sure[q] && cur[q] == (int)n; if (b) barely = std::max(barely, lw); else hyp.push_back({lw, cur}); return; }
            for (size_t o2 = 0; o2 < n + 2; ++o2) {
                if (o2 < n) { if (used[o2]) continue; used[o2] = 1; }
                cur[a] = o2; rec(a + 1, lw + L[a][o2]);
                if (o2 < n) used[o2] = 0;
            }
        };
        rec(0, 0);
        std::sort(hyp.begin(), hyp.end(), [](const H& x, const H& y) { return x.lw > y.lw; });
        std::vector<std::vector<double>> R(M, std::vector<double>(n + 1, 0));
        if (!hyp.empty() && barely > hyp[0].lw - 18) cl.amb = true;
        if (hyp.empty()) {
            cl.impossible = true; cl.nhyp = 0; cl.nhyp_open = barely != NI;
            // possible by rounding only: what the reports leave unexplained is open too
            if (barely != NI) for (int j : cl.reports) e.rBamb[j] = true;
            for (size_t a = 0; a < M; ++a) { auto& x = e.t[cl.tracks[a]]; auto& t = pre[cl.tracks[a]]; x.r = t.r; x.c = t.c; x.o = o; x.amb = true; x.undecided_alive = true; }
            continue;
        }
        double sum = 0, l0 = hyp[0].lw; size_t h = 0;
        for (;; ) {
            double w = std::exp(hyp[h].lw - l0); sum += w;
            for (size_t a = 0; a < M; ++a) if (hyp[h].as[a] <= (int)n) R[a][hyp[h].as[a]] += w;
            ++h;
            double q = w / sum;
            if (h < hyp.size() && p.w_lim > 0 && std::fabs(q - p.w_lim) < 1e-6 * p.w_lim) { cl.amb = true; break; }
            if (q < p.w_lim || h >= p.nhyp_max) {
                // a tie across the cut leaves the choice open
                if (h < hyp.size() && std::fabs(hyp[h].lw - hyp[h - 1].lw) < 1e-7) cl.amb = true;
                break;
            }
            if (h == hyp.size()) break;
        }
        for (size_t k = h; k < hyp.size(); ++k) cl.skipped += std::exp(hyp[k].lw - l0);
        cl.nhyp = h; cl.nhyp_open = barely != NI && h == hyp.size();
        for (auto& r : R) for (auto& x : r) x /= sum;
        for (size_t b = 0; b < n; ++b) { double v = 1; for (size_t a = 0; a < M; ++a) v -= R[a][b]; e.rB[cl.reports[b]] = v; e.rBamb[cl.reports[b]] = cl.amb; }
        for (size_t a = 0; a < M; ++a) {
            auto& x = e.t[cl.tracks[a]]; x.amb = cl.amb;
            for (double v : R[a]) x.r += v;
            if (std::fabs(x.r - 1e-6) < 1e-9) x.amb = true;
            std::vector<Comp> all;
            for (size_t b = 0; b <= n; ++b) for (auto& k : cand[a][b]) { all.push_back(k); all.back().w *= R[a][b]; }
            if (x.r < 1e-6) { x.r = 0; x.alive = false; continue; }
            std::sort(all.begin(), all.end(), [](const Comp& u, const Comp& v) { return u.w > v.w; });
            double ws = 0; size_t k = 0;
            for (; k < all.size() && k < p.max_comp; ++k) {
                ws += all[k].w; double q = all[k].w / ws;
                if (p.cw_lim > 0 && std::fabs(q - p.cw_lim) < 1e-6 * p.cw_lim) x.amb = true;
                if (q < p.cw_lim) { ws -= all[k].w; break; }
            }
            if (k < all.size() && k > 0 && all[k].w > 0 && std::fabs(all[k].w / all[k - 1].w - 1) < 1e-7) x.amb = true;
            all.resize(k);
            for (auto& q : all) q.w /= ws;
            while (!all.empty() && all.back().w < 1e-15) all.pop_back();
            x.o = o;
            x.c = global(all, o);
            int v = viable(x.r, x.c, p);
            x.alive = v != 0; x.undecided_alive = v < 0;
        }
    }
    double s1 = 0; bool amb = false;
    for (size_t j = 0; j < N; ++j) { s1 += e.rB[j]; amb |= e.rBamb[j]; }
    e.births_amb = amb || std::fabs(s1 - p.r_lim) < 1e-6;
    if (s1 >= p.r_lim) for (size_t j = 0; j < N; ++j) {
        double nr = e.rB[j] * s.lambdaB / s1;
        if (std::fabs(nr - p.r_lim) < 1e-6) e.births_amb = true;
        if (nr >= p.r_lim) e.births.push_back({(int)j, std::min(nr, p.rB_max)});
    }
    return e;
}
}  // namespace ref
