// C25: particle densities against a plain list of weighted points.
#include "mc.hpp"
#include "ref.hpp"
#include "statistics.hpp"
namespace lmb { static double mc_u0 = .5; static double mc_urand() { return mc_u0; } }
#define urand mc_urand      // the resampling offset is an input here
#include "pf.hpp"
#undef urand
#include "report.hpp"
#include "sensors.hpp"
#include "target.hpp"
#include "gm.hpp"
#include "json.hpp"
using mc::pick;
typedef ref::V2 V2; typedef ref::V4 V4; typedef ref::M2 M2; typedef ref::M4 M4;
typedef lmb::GaussianReport_<2> Rep;
static const V2 OO[] = {V2(58.3887657, 15.6965082), V2(-33.9, 151.2), V2(.5, -70), V2(-62, 20)};

struct Pt { double w; V4 x; };
typedef std::vector<Pt> Pts;
struct Model { Pts p; bool dead = false; };

static const V4 XS[] = {V4(0, 0, 0, 0), V4(3, -1, 1, 2), V4(-2, 4, -1, .5), V4(5, 5, 0, -3), V4(3, -1, 1, 2.5), V4(-6, 0, 2, 2)};
static const double WS[] = {.5, .125, .3, 0, .05, 1};
struct Sen { V2 c; double half, pd; };   // field of view, local
static const Sen SEN[] = {{V2(0, 0), 1000, .9}, {V2(4, 2), 4.3, .7}, {V2(0, 0), 1000, 1}, {V2(-4, 2), 3.7, 1}};
static const double ZX[][2] = {{0, 0}, {2.5, -.5}, {4, 4}, {40, 40}, {1e4, 0}};
static M2 m2(double a, double b, double c) { M2 m; m << a, b, b, c; return m; }
static const M2 ZR[] = {m2(1, 0, 1), m2(4, 1.5, 2), m2(9, -2, .7)};
static const double KP[] = {1, .01, 3};

template<class PF> static lmb::PositionSensor<lmb::Target_<lmb::GM<4>>> sensor(const Sen& s, const V2& o) {
    lmb::PositionSensor<lmb::Target_<lmb::GM<4>>> r; r.pD_ = s.pd;
    V2 sc = ref::scale(o); double n = s.half / sc[0], e = s.half / sc[1], cn = o[0] + s.c[0] / sc[0], ce = o[1] + s.c[1] / sc[1];
    r.fov.corners << cn + n, cn + n, cn - n, cn - n, ce + e, ce - e, ce - e, ce + e; return r;
}
static bool inside(const Sen& s, const V4& x) { return std::fabs(x[0] - s.c[0]) < s.half && std::fabs(x[1] - s.c[1]) < s.half; }
static double sum(const Pts& p) { double s = 0; for (auto& q : p) s += q.w; return s; }
static void norm(Model& m, double& eta) { eta = sum(m.p); if (eta > 1e-8) { for (auto& q : m.p) q.w /= eta; m.dead = false; } else { m.dead = true; eta = 0; } }
static double like(const V2& d, const M2& R) { double D = R(0, 0) * R(1, 1) - R(0, 1) * R(1, 0); M2 I; I << R(1, 1) / D, -R(0, 1) / D, -R(1, 0) / D, R(0, 0) / D; return std::exp(-.5 * d.dot(I * d)) / (2 * M_PI * std::sqrt(D)); }

template<class PF> static void load(PF& f, const Pts& p) { for (size_t k = 0; k < p.size(); ++k) { f.w[k] = p[k].w; f.x.col(k) = p[k].x.array(); } }
static bool near(double a, double b, double e = 1e-9) { return std::fabs(a - b) <= e * (1 + std::fabs(b)); }

// weights, states and moments against the list
template<class PF> static void compare(PF& f, const Model& m, const char* at, const char* log, double xt = 1e-9) {
    int n = m.p.size();
    MC_CHECK("C25", f.w.cols() == n && f.x.cols() == n, "%s: %d weights and %d particles instead of %d (%s)", at, (int)f.w.cols(), (int)f.x.cols(), n, log);
    if (f.w.cols() != n || f.x.cols() != n) return;
    double s = 0, s2 = 0; V4 mean = V4::Zero();
    for (int k = 0; k < n; ++k) {
        MC_CHECK("C25", std::isfinite(f.w[k]) && f.w[k] >= 0, "%s: weight %d is %g (%s)", at, k, f.w[k], log);
        if (!m.dead) MC_CHECK("C25", near(f.w[k], m.p[k].w, 1e-7) || std::fabs(f.w[k] - m.p[k].w) < 1e-12, "%s: weight %d is %.12g, by definition %.12g (%s)", at, k, f.w[k], m.p[k].w, log);
        for (int i = 0; i < 4; ++i) MC_CHECK("C25", near(f.x(i, k), m.p[k].x[i], xt), "%s: particle %d state %d is %.12g, by definition %.12g (%s)", at, k, i, f.x(i, k), m.p[k].x[i], log);
        s += m.p[k].w; s2 += m.p[k].w * m.p[k].w; mean += m.p[k].w * m.p[k].x;
    }
    if (m.dead) { mc::outcome("no weight"); return; }
    MC_CHECK("C25", std::fabs(f.w.sum() - 1) < 1e-12, "%s: weights sum to %.17g (%s)", at, f.w.sum(), log);
    MC_CHECK("C25", near(f.neff(), 1 / s2, 1e-7), "%s: effective sample size %.10g, by definition %.10g (%s)", at, f.neff(), 1 / s2, log);
    M4 cov = M4::Zero(), c0 = M4::Zero(); V4 off(1, 2, 3, 4);
    for (auto& q : m.p) { V4 d = q.x - mean, e = q.x - off; cov += q.w * d * d.transpose(); c0 += q.w * e * e.transpose(); }
    V4 fm = f.mean(); M4 fc = f.cov(), fo = f.cov(off);
    double sc = 1; for (auto& q : m.p) sc = std::max(sc, q.x.cwiseAbs().maxCoeff()); sc *= 1e-6; sc = std::max(sc, xt * 1e3);
    MC_CHECK("C25", (fm - mean).cwiseAbs().maxCoeff() < sc, "%s: mean (%g %g %g %g), by definition (%g %g %g %g) (%s)", at, fm[0], fm[1], fm[2], fm[3], mean[0], mean[1], mean[2], mean[3], log);
    double cs = sc * (1 + std::sqrt(cov.cwiseAbs().maxCoeff())), cs0 = sc * (1 + std::sqrt(c0.cwiseAbs().maxCoeff()));
    MC_CHECK("C25", (fc - cov).cwiseAbs().maxCoeff() < cs, "%s: covariance differs from the weighted moments by %g (%s)", at, (fc - cov).cwiseAbs().maxCoeff(), log);
    MC_CHECK("C25", (fo - c0).cwiseAbs().maxCoeff() < cs0, "%s: second moment about a point differs from the weighted moment by %g (%s)", at, (fo - c0).cwiseAbs().maxCoeff(), log);
    V2 fp = f.pos(); M2 pc = f.poscov();
    MC_CHECK("C25", (fp - V2(mean.head<2>())).norm() < 2 * sc && (pc - M2(cov.topLeftCorner<2, 2>())).cwiseAbs().maxCoeff() < cs, "%s: position moments are not those of the state (%s)", at, log);
}
// the printed form: particles and weights to full precision
template<class PF> static void text(const PF& f, const char* log) {
    Json j; std::ostringstream o; o << f; std::string s = o.str();
    bool ok = JsonParser::parse(s, j) && j["type"].s == "PF"; unsigned n = f.w.cols();
    if (ok) {
        // a single row may be printed flat or as one row
        const Json* w = &j["w"]; if (w->a.size() == 1 && !w->a[0].a.empty()) w = &w->a[0];
        ok = w->a.size() == n && j["x"].a.size() == 4; for (unsigned k = 0; ok && k < n; ++k) ok = near(w->a[k].n, f.w[k], 1e-14);
        for (unsigned i = 0; ok && i < 4; ++i) { const Json& r = j["x"].a[i]; ok = r.a.size() == n; for (unsigned k = 0; ok && k < n; ++k) ok = near(r.a[k].n, f.x(i, k), 1e-14); }
    }
    MC_CHECK("C23", ok, "%u particles print as %.300s (%s)", n, s.c_str(), log);
}
static uint64_t hash(const Model& m) { mc::Hasher h; for (auto& q : m.p) { h.rnd(q.w, 1e-7); for (int i = 0; i < 4; ++i) h.rnd(q.x[i], 1e-5); } return h.h; }

// the box after a return to latitude and longitude: the nstd-sigma rectangle of the particles
template<class PF> static void box(PF& f, const Pts& loc, const V2& o, double nstd, const char* log) {
    V2 m = V2::Zero(); M2 P = M2::Zero(); for (auto& q : loc) m += q.w * q.x.template head<2>(); for (auto& q : loc) { V2 d = V2(q.x.template head<2>()) - m; P += q.w * d * d.transpose(); }
    double tr = P.trace(), det = P.determinant(); if (!(det > 1e-4 * tr * tr && tr > .01)) { mc::skip(); return; }
    double l1 = tr / 2 + std::sqrt(std::max(0., tr * tr / 4 - det)), l2 = tr - l1;
    V2 u = std::fabs(P(0, 1)) > 1e-12 ? V2(l1 - P(1, 1), P(0, 1)) : P(0, 0) >= P(1, 1) ? V2(1, 0) : V2(0, 1); u.normalize();
    if (l1 - l2 < 1e-6 * tr) { mc::skip(); return; }     // principal axes not unique
    // each corner: +-nstd sigma along both axes
    bool got[4] = {}; bool all = true; double worst = 0; V2 lo(1e9, 1e9), hi(-1e9, -1e9);
    for (int k = 0; k < 4; ++k) {
        V2 c = ref::ll2ne(V2(f.bbox.corners.col(k)), o); lo = lo.cwiseMin(V2(f.bbox.corners.col(k))); hi = hi.cwiseMax(V2(f.bbox.corners.col(k)));
        V2 d = c - m; double a = d.dot(u) / (nstd * std::sqrt(l1)), b = (d[1] * u[0] - d[0] * u[1]) / (nstd * std::sqrt(l2));
        worst = std::max({worst, std::fabs(std::fabs(a) - 1), std::fabs(std::fabs(b) - 1)}); if (!(std::isfinite(a) && std::isfinite(b))) worst = 1e9;
        got[(a > 0) * 2 + (b > 0)] = true;
    }
    for (bool g : got) all &= g;
    MC_CHECK("C25", all && worst < 1e-4, "corners of the %g-sigma box are off by a factor of %g (%s)", nstd, 1 + worst, log);
    auto ll = f.llaabbox();
    double e = std::max({std::fabs(ll.min[0] - lo[0]), std::fabs(ll.min[1] - lo[1]), std::fabs(ll.max[0] - hi[0]), std::fabs(ll.max[1] - hi[1])}) * 1e5;
    MC_CHECK("C25", e < 1e-3 * nstd * std::sqrt(l1) + 1e-3, "latitude-longitude box is off the corners' hull by %g m (%s)", e, log);
    V2 g = ref::ne2ll(m, o); double far = 3 * nstd * std::sqrt(l1) / ref::scale(o)[0];
    MC_CHECK("C25", f.intersects(lmb::AABBox(g[0] - 1e-9, g[1] - 1e-9, g[0] + 1e-9, g[1] + 1e-9)), "a region at the mean does not meet the density (%s)", log);
    MC_CHECK("C25", !f.intersects(lmb::AABBox(g[0] + far, g[1], g[0] + 2 * far, g[1] + .1)), "a region 3 boxes north of the mean meets the density (%s)", log);
}

template<unsigned N> static void histories(int depth, const char* name) {
    typedef lmb::PF<4, N> PF;
    static lmb::Params par;
    // operations: 5 reports x sensors..., missed, motion, frames
    static const int OPS = 14;
    uint64_t starts = mc::ipow(3, N) * 2;
    mc::family(name, starts * mc::ipow(OPS, depth), [=] {
        PF f(&par); Model m; V2 o = OO[0]; std::string log;
        // initial particles: state k gets weight WS[(digit)]
        int rot = pick(2);
        for (unsigned k = 0; k < N; ++k) m.p.push_back({WS[pick(3) + (k % 2) * 2], XS[(k + 2 * rot) % 6]});
        double eta; load(f, m.p); norm(m, eta); f.normalize();
        MC_CHECK("C25", m.dead || near(f.eta, eta, 1e-7), "normalising gives %g instead of %g", f.eta, eta);
        V2 glob = ref::ne2ll(V2(0, 0), o); (void)glob; f.origin = o;
        compare(f, m, "start", log.c_str());
        for (int d = 0; d < depth; ++d) {
            int op = pick(OPS); char b[100]; mc::transition();
            if (op < 8) {
                int zi = op % 5, ri = op % 3, ki = (op / 2) % 3; const Sen& s = SEN[op % 4]; V2 z(ZX[zi][0], ZX[zi][1]);
                snprintf(b, 100, "correct(z %g %g, R%d, kappa %g, sensor %d) ", z[0], z[1], ri, KP[ki], op % 4); log += b;
                Rep rep(z, ZR[ri], KP[ki]); auto sen = sensor<PF>(s, o);
                for (auto& q : m.p) q.w *= (inside(s, q.x) ? s.pd : 0) * like(z - V2(q.x.template head<2>()), ZR[ri]) / KP[ki];
                double total = sum(m.p); norm(m, eta);
                if (total > 1e-9 && total < 1e-7) { mc::skip(); return; }
                double g = f.correct(rep, sen);
                MC_CHECK("C25", near(g, eta, 1e-7), "correction returns %.12g, total weight is %.12g (%s)", g, eta, log.c_str());
                MC_CHECK("C25", !m.dead || (g == 0 && f.eta == 0), "a correction that leaves nothing returns %g, eta is %g (%s)", g, f.eta, log.c_str());
                MC_CHECK("C25", near(f.eta, eta, 1e-7), "eta is %.12g, total weight is %.12g (%s)", f.eta, eta, log.c_str());
                mc::outcome(m.dead ? "correction: nothing left" : "correction");
            } else if (op < 11) {
                const Sen& s = SEN[op - 8]; snprintf(b, 100, "missed(sensor %d) ", op - 8); log += b;
                auto sen = sensor<PF>(s, o);
                for (auto& q : m.p) q.w *= 1 - (inside(s, q.x) ? s.pd : 0);
                double total = sum(m.p); norm(m, eta); if (total > 1e-9 && total < 1e-7) { mc::skip(); return; }
                double g = f.missed(sen);
                MC_CHECK("C25", near(g, eta, 1e-7), "missed detection returns %.12g, total weight is %.12g (%s)", g, eta, log.c_str());
                MC_CHECK("C25", !m.dead || (g == 0 && f.eta == 0), "a missed detection that leaves nothing returns %g, eta is %g (%s)", g, f.eta, log.c_str());
                mc::outcome(m.dead ? "missed: nothing left" : "missed");
            } else if (op < 13) {
                M4 F = M4::Identity(); double dt = op == 11 ? 2 : -.5; F(0, 2) = F(1, 3) = dt; if (op == 12) F(2, 1) = .25;
                snprintf(b, 100, "motion(%g) ", dt); log += b;
                for (auto& q : m.p) q.x = F * q.x;
                f.linear_update(F, M4::Zero().eval()); mc::outcome("motion");
            } else {
                log += "frames ";
                if (m.dead) { mc::skip(); return; }
                Pts loc = m.p; f.transform_to_global();
                Model gl = m; for (auto& q : gl.p) { V2 g = ref::ne2ll(V2(q.x.template head<2>()), o); q.x.template head<2>() = g; }
                compare(f, gl, "in latitude and longitude", log.c_str(), 1e-10);
                box(f, loc, o, par.nstd, log.c_str());
                o = OO[0] + V2(.0001, -.0002); f.transform_to_local(o);
                for (size_t k = 0; k < m.p.size(); ++k) m.p[k].x.template head<2>() = ref::ll2ne(V2(gl.p[k].x.template head<2>()), o);
                MC_CHECK("C25", (V2(f.origin) - o).norm() < 1e-15, "origin is not the one asked for");
                mc::outcome("frames");
            }
            compare(f, m, "after", log.c_str(), 1e-6); if (!m.dead) text(f, log.c_str());
            mc::state(hash(m));
            if (mc::st().failed || m.dead) break;
        }
        mc::describe("%u particles: %s", N, log.c_str());
    });
}

template<unsigned N> static void construct(const char* name) {
    typedef lmb::PF<4, N> PF; static lmb::Params par[3]; par[1].nstd = 1; par[2].nstd = 3.5;
    mc::family(name, 4 * 3 * 4 * 3, [] {
        V2 o = pick(OO); auto& pa = par[pick(3)]; static const double SD[] = {.5, 20, 300, 1e-3}; double sd = SD[pick(4)]; unsigned sh = pick(3);
        V4 mean; mean << o, 1, -2; M4 P = M4::Identity(); V2 sc = ref::scale(o);
        P(0, 0) = std::pow(sd / sc[0], 2); P(1, 1) = std::pow((sh ? 3 : 1) * sd / sc[1], 2); P(0, 1) = P(1, 0) = sh == 2 ? .6 * std::sqrt(P(0, 0) * P(1, 1)) : 0;
        PF f(&pa, mean, P);      // latitude and longitude in, as the tracker's own densities
        mc::transition();
        Model m; for (unsigned k = 0; k < N; ++k) m.p.push_back({1. / N, V4(f.x.col(k))});
        compare(f, m, "constructed", "", 1e-9); 
        for (auto& q : m.p) for (int i = 0; i < 4; ++i) MC_CHECK("C25", std::fabs(q.x[i] - mean[i]) < 7 * std::sqrt(P(i, i)) + 1e-9, "particle state %d is %g away from the mean %g", i, q.x[i] - mean[i], mean[i]);
        V2 a = V2::Zero(); for (auto& q : m.p) a += q.w * q.x.template head<2>();
        Pts loc = m.p; for (auto& q : loc) { V2 l = ref::ll2ne(V2(q.x.template head<2>()), a); q.x.template head<2>() = l; }
        box(f, loc, a, pa.nstd, "constructed");
        PF g; g = f; PF h(f); f.correct(Rep(o, m2(1, 0, 1), 1), sensor<PF>(SEN[0], o));
        compare(g, m, "assigned copy", "", 1e-9); compare(h, m, "copy", "", 1e-9);
        mc::outcome("constructed"); mc::state(mc::Hasher().add(sd).add(sh).add(o[0]).add(pa.nstd).h); mc::describe("%u particles, sd %g", N, sd);
    });
}

// kept: the N heaviest, then within one copy of their share each, at equal weight
template<unsigned N> static void counts(lmb::PF<4, N>& f, const Pts& want, const char* log) {
    double s = 0; for (auto& q : want) s += q.w;
    std::vector<int> left(N, 0); 
    for (unsigned k = 0; k < N; ++k) {
        MC_CHECK("C25", near(f.w[k], 1. / N, 1e-12), "resampled weight %u is %.12g (%s)", k, f.w[k], log);
        int hit = -1; for (size_t q = 0; q < want.size() && hit < 0; ++q) if ((V4(f.x.col(k)) - want[q].x).norm() < 1e-12) hit = q;
        MC_CHECK("C25", hit >= 0, "particle %u is none of those kept (%s)", k, log); if (hit >= 0) ++left[hit];
    }
    for (size_t q = 0; q < want.size(); ++q) { double e = N * want[q].w / s; MC_CHECK("C25", std::fabs(left[q] - e) < 1 + 1e-9, "particle of share %g is kept %d times (%s)", e, left[q], log); }
}
static const double U0[] = {0, .25, .5, .75, .999999};
template<unsigned N> static void resample(const char* name) {
    typedef lmb::PF<4, N> PF; static lmb::Params par;
    mc::family(name, mc::ipow(6, N) * 5, [] {
        lmb::mc_u0 = pick(U0); PF f(&par); Pts p; std::string log; char b[40];
        for (unsigned k = 0; k < N; ++k) { V4 x = XS[k % 6]; x[3] += 100 * k; p.push_back({pick(WS), x}); snprintf(b, 40, "%g ", p.back().w); log += b; }
        if (sum(p) < 1e-3) { mc::skip(); return; }
        load(f, p); f.normalize(); f.resample(); mc::transition(2);
        counts<N>(f, p, log.c_str()); MC_CHECK("C25", std::fabs(f.w.sum() - 1) < 1e-12, "weights sum to %.17g", f.w.sum());
        mc::state(mc::Hasher().add(mc::hash_bytes(log.data(), log.size())).add(lmb::mc_u0).h); mc::outcome("resampled"); mc::describe("weights %s offset %g", log.c_str(), lmb::mc_u0);
    });
}
template<unsigned N> static void join(const char* name, unsigned W) {
    typedef lmb::PF<4, N> PF; static lmb::Params par;
    static const double JW[] = {.6, .3, 1, .1, 0};
    mc::family(name, mc::ipow(5, 2) * 3 * mc::ipow(W, 2 * N) * 2, [=] {
        lmb::mc_u0 = pick(2) ? .3 : .9; double jw[3] = {pick(JW), pick(JW), .25}; int n = 1 + pick(3);
        std::vector<PF> v; std::vector<Pt> all; std::string log; char b[60];
        static const double WT[] = {.5, .11, .07, 0, .9};
        for (int j = 0; j < n; ++j) {
            v.emplace_back(&par); Pts p; snprintf(b, 60, "| %g: ", jw[j]); log += b;
            for (unsigned k = 0; k < N; ++k) { double w = WT[j < 2 ? pick(W) : k % W]; V4 x = XS[k % 6]; x[3] += 100 * k + 1000 * j; p.push_back({w * (1 + .01 * j + .003 * k), x}); snprintf(b, 60, "%g ", p.back().w); log += b; }
            load(v[j], p); v[j].normalize();
            double s = sum(p); if (s < 1e-3) { mc::skip(); return; }
            for (auto& q : p) all.push_back({q.w / s * jw[j], q.x});
        }
        std::stable_sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.w > b.w; });
        if (all[0].w < 1e-6) { mc::skip(); return; }
        bool tie = all.size() > N && all[N - 1].w - all[N].w < 1e-12 && all[N - 1].w > 0;
        if (tie) { mc::skip(); mc::outcome("tie at the cut"); return; }
        all.resize(N); Eigen::Array<double, 1, Eigen::Dynamic> w(1, n); for (int j = 0; j < n; ++j) w[j] = jw[j];
        PF f(&par); PF::join(f, w, v); mc::transition();
        Pts kept; for (auto& q : all) if (q.w > 0) kept.push_back(q);
        counts<N>(f, kept, log.c_str()); MC_CHECK("C25", std::fabs(f.w.sum() - 1) < 1e-12, "weights sum to %.17g (%s)", f.w.sum(), log.c_str());
        mc::state(mc::Hasher().add(mc::hash_bytes(log.data(), log.size())).h); mc::outcome(std::to_string(n) + " joined"); mc::describe("%s", log.c_str());
    });
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        bool th = mc::thorough();
        if (!mc::want("C25")) { histories<1>(2, "pf.history.1"); histories<3>(2, "pf.history.3"); return; }
        construct<1>("pf.construct.1"); construct<7>("pf.construct.7"); construct<64>("pf.construct.64");
        histories<1>(th ? 4 : 3, "pf.history.1"); histories<3>(th ? 4 : 3, "pf.history.3"); if (th) histories<6>(3, "pf.history.6"); else histories<5>(2, "pf.history.5");
        resample<1>("pf.resample.1"); resample<4>("pf.resample.4"); if (th) resample<6>("pf.resample.6"); else resample<5>("pf.resample.5");
        join<2>("pf.join.2", 5); join<3>("pf.join.3", th ? 4 : 3);
    });
}
