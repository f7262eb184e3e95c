// C12, C13, C30: Gaussian mixture update, algebra and point evaluation, on the real GM/Gaussian/report code,
// against closed formulas written out separately.
#include "mc.hpp"
#include <Eigen/Dense>
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
using mc::pick;
typedef Eigen::Vector2d V2; typedef Eigen::Vector4d V4; typedef Eigen::Matrix2d M2; typedef Eigen::Matrix4d M4;
static M2 m2(double a, double b, double d) { M2 m; m << a, b, b, d; return m; }
static M4 m4(const M2& a, const M2& d, double c) { M4 m = M4::Zero(); m.topLeftCorner<2, 2>() = a; m.bottomRightCorner<2, 2>() = d; m(0, 2) = m(2, 0) = c; m(1, 3) = m(3, 1) = -c / 2; m(0, 3) = m(3, 0) = c / 3; return m; }

// a measurement device whose detection probability depends on where the density is
template<typename T> struct Step : lmb::PositionSensor<T> {
    double a, b, at;
    template<typename PDF> double pD(const PDF& p, const cf::LL&) const { return p.mean()[0] < at ? a : b; }
};
struct Cmp { double w; V4 x; M4 P; };
// exact linear-Gaussian posterior, written for scalars in the 2x2 innovation
static Cmp posterior(const Cmp& c, const V2& z, const M2& R, double pD, double kappa) {
    double s00 = c.P(0, 0) + R(0, 0), s01 = c.P(0, 1) + R(0, 1), s11 = c.P(1, 1) + R(1, 1), det = s00 * s11 - s01 * s01;
    double d0 = z[0] - c.x[0], d1 = z[1] - c.x[1];
    double m = (s11 * d0 * d0 - 2 * s01 * d0 * d1 + s00 * d1 * d1) / det;
    Cmp r; r.w = c.w * pD * std::exp(-.5 * m) / (2 * M_PI * std::sqrt(det)) / kappa;
    Eigen::Matrix<double, 4, 2> K;
    for (int k = 0; k < 4; ++k) { K(k, 0) = (c.P(k, 0) * s11 - c.P(k, 1) * s01) / det; K(k, 1) = (c.P(k, 1) * s00 - c.P(k, 0) * s01) / det; r.x[k] = c.x[k] + K(k, 0) * d0 + K(k, 1) * d1; }
    M4 A = M4::Identity(); A.leftCols<2>() -= K;
    r.P = A * c.P * A.transpose() + K * R * K.transpose();   // Joseph form
    return r;
}
static bool near(double a, double b, double rel, double abs = 0) { return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs; }
static std::string str(const V4& v) { char b[128]; snprintf(b, sizeof b, "(%.9g %.9g %.9g %.9g)", v[0], v[1], v[2], v[3]); return b; }

static const M2 I2 = M2::Identity();
static M4 cov(unsigned k) {
    switch (k) { case 0: return m4(I2, I2, 0); case 1: return m4(m2(4, 1.5, 1), m2(2, -.4, .5), .3); case 2: return m4(m2(.01, 0, 100), m2(1, 0, 9), .05); case 3: return m4(m2(1e4, 3e3, 2e3), I2, 5); case 4: return m4(m2(1e-6, 0, 1e-6), I2 * 1e-2, 0); default: return m4(m2(2, -1.9, 2), I2, .1); }
}
static V4 mean(unsigned k) { switch (k) { case 0: return V4(0, 0, 0, 0); case 1: return V4(1.5, -.5, 1, -2); case 2: return V4(-2, 3, 0, .5); default: return V4(400, 80, -3, 9); } }
static M2 rcov(unsigned k) { switch (k) { case 0: return I2; case 1: return m2(.5, .4, .6); case 2: return m2(30, -20, 40); default: return m2(1e-4, 0, 1e-3); } }
static V2 rpos(unsigned k) { switch (k) { case 0: return V2(0, 0); case 1: return V2(1, 2); case 2: return V2(-3, -.7); case 3: return V2(60, 0); default: return V2(1e5, -1e5); } }

template<int S, int MAX> using GMx = lmb::GM<S, MAX>;
typedef GMx<4, 200> PDF; typedef lmb::Target_<PDF> Tgt; typedef lmb::GaussianReport_<2> Rep;
static const double KA[] = {1, .02, 1e5, 1e-9};
static lmb::Params& params() { static lmb::Params p; return p; }

static void fam_update() {
    bool th = mc::thorough();
    static const double PD[][2] = {{1, 1}, {.9, .3}, {.5, 0}, {0, 0}};
    static const double WW[][3] = {{1, 0, 0}, {.5, .3, .2}, {.9, .1, 1e-6}, {.25, .25, .25}, {.7, .7, .7}};
    static const unsigned CC[][3] = {{0, 1, 2}, {1, 5, 0}, {2, 3, 4}, {3, 0, 5}, {4, 2, 1}, {5, 4, 3}}, MM[][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 3}, {3, 1, 1}};
    unsigned ncc = 6, nr = 4, nz = 5, nm = 4;
    mc::family("update", 3ull * 5 * ncc * nm * nz * nr * 4 * 4 * (th ? 3 : 1), [=] {
        unsigned n = 1 + pick(3); auto ww = pick(WW); auto cc = CC[pick(ncc)]; auto mm = MM[pick(nm)]; V2 z = rpos(pick(nz)); M2 R = rcov(pick(nr)); double ka = pick(KA); auto pd = pick(PD);
        unsigned scale = th ? pick(3) : 0;
        if (scale) { R *= scale == 1 ? 100 : .01; z *= scale == 1 ? .1 : 3; }
        PDF g(&params()); g.origin << 58, 15; std::vector<Cmp> c;
        for (unsigned k = 0; k < n; ++k) { c.push_back({ww[k], mean(mm[k]), cov(cc[k])}); g.c.emplace_back(c[k].x, c[k].P, c[k].w); }
        Step<Tgt> s; s.a = pd[0]; s.b = pd[1]; s.at = 1;
        Rep r(z, R, ka);
        PDF h(g);
        // missed detection first: it must not change anything
        double qd = 0; for (auto& k : c) qd += k.w * (k.x[0] < s.at ? s.a : s.b);
        double m = h.missed(s);
        MC_CHECK("C12", near(m, std::max(0., 1 - qd), 1e-12, 1e-13), "%u components: missed detection is %.15g, not %.15g", n, m, std::max(0., 1 - qd));
        bool same = h.c.size() == n; for (unsigned k = 0; same && k < n; ++k) same = h.c[k].x == c[k].x && h.c[k].P == c[k].P && h.c[k].w == c[k].w;
        MC_CHECK("C12", same, "%u components: a missed detection changes the density", n);
        // one component alone
        lmb::Gaussian_<4> one(c[0].x, c[0].P, c[0].w); double w1 = one.correct(r, s, g.origin);
        double eta = h.correct(r, s);
        std::vector<Cmp> e; double tot = 0, wmax = 0;
        for (auto& k : c) { e.push_back(posterior(k, z, R, k.x[0] < s.at ? s.a : s.b, ka)); tot += e.back().w; wmax = std::max(wmax, e.back().w); }
        auto cmp = [&](const Cmp& a, const V4& x, const M4& P, double w, unsigned k) {
            double sx = 1 + c[k].x.cwiseAbs().maxCoeff() + z.cwiseAbs().maxCoeff(), sp = c[k].P.cwiseAbs().maxCoeff(), cond = sp / std::min(1., R.determinant() / R.norm());
            MC_CHECK("C12", near(w, a.w, 1e-8 * (1 + cond * 1e-6)), "component %u of %u weighs %.12g, not %.12g", k, n, w, a.w);
            MC_CHECK("C12", (x - a.x).norm() <= 1e-11 * sx * (1 + cond * 1e-2), "component %u of %u has mean %s, not %s", k, n, str(x).c_str(), str(a.x).c_str());
            MC_CHECK("C12", (P - a.P).norm() <= 1e-11 * sp * (1 + cond * 1e-2), "component %u of %u has covariance diagonal %s, not %s (off by %.3g)", k, n, str(P.diagonal()).c_str(), str(a.P.diagonal()).c_str(), (P - a.P).norm());
        };
        if (e[0].w > 1e-290) { cmp(e[0], one.x, one.P, one.w, 0); MC_CHECK("C12", w1 == one.w, "a component's correction returns %.12g, its weight is %.12g", w1, one.w); }
        if (tot < .99e-8) {
            MC_CHECK("C12", h.c.empty() && eta == 0, "total %.3g: %zu components remain, returned %.3g", tot, h.c.size(), eta); mc::outcome("emptied");
        } else if (tot > 1.01e-8) {
            MC_CHECK("C12", near(eta, tot, 1e-8), "returned %.12g, total weight is %.12g", eta, tot);
            MC_CHECK("C12", h.c.size() == n, "%zu of %u components remain", h.c.size(), n);
            double sum = 0;
            for (unsigned k = 0; k < n && k < h.c.size(); ++k) { Cmp a = e[k]; a.w /= tot; sum += h.c[k].w; if (a.w > 1e-290) cmp(a, h.c[k].x, h.c[k].P, h.c[k].w, k); }
            MC_CHECK("C12", near(sum, 1, 1e-12), "weights sum to %.15g", sum); mc::outcome("updated");
        } else mc::skip();
        mc::transition(3); mc::state(mc::Hasher().add(tot).add(n).add(z[0]).add(R(0, 0)).h);
        mc::describe("%u components, report (%g, %g), kappa %g, pD %g/%g: total %.6g", n, z[0], z[1], ka, s.a, s.b, tot);
    });
    // two reports in sequence: order does not matter for mean, covariance and total
    mc::family("update.twice", 6 * 4 * 5 * 5 * 4 * 4, [] {
        M4 P = cov(pick(6)); V4 x = mean(pick(4)); V2 za = rpos(pick(5)), zb = rpos(pick(5)); M2 Ra = rcov(pick(4)), Rb = rcov(pick(4));
        Step<Tgt> s; s.a = s.b = .8; s.at = 0; Rep a(za, Ra, .5), b(zb, Rb, 2);
        Cmp e = posterior(posterior({1, x, P}, za, Ra, .8, .5), zb, Rb, .8, 2), f = posterior(posterior({1, x, P}, zb, Rb, .8, 2), za, Ra, .8, .5);
        if (e.w < 1e-7 || f.w < 1e-7) { mc::skip(); return; }
        PDF g(&params(), x, P), h(&params(), x, P); g.c[0].x = h.c[0].x = x;
        double t1 = g.correct(a, s), t3 = h.correct(b, s);
        if (g.c.empty() || h.c.empty()) { mc::skip(); return; }
        double t2 = g.correct(b, s), t4 = h.correct(a, s);
        MC_CHECK("C12", g.c.size() == 1 && h.c.size() == 1, "a component is lost");
        if (g.c.size() != 1 || h.c.size() != 1) return;
        double sx = 1 + x.norm() + za.norm() + zb.norm();
        MC_CHECK("C12", near(t1 * t2, e.w, 1e-6) && near(t3 * t4, e.w, 1e-6), "totals %.12g and %.12g, exact %.12g", t1 * t2, t3 * t4, e.w);
        MC_CHECK("C12", (g.c[0].x - e.x).norm() < 1e-8 * sx && (h.c[0].x - e.x).norm() < 1e-8 * sx, "means %s and %s, exact %s", str(g.c[0].x).c_str(), str(h.c[0].x).c_str(), str(e.x).c_str());
        MC_CHECK("C12", (g.c[0].P - e.P).norm() < 1e-8 * P.norm() && (h.c[0].P - e.P).norm() < 1e-8 * P.norm(), "covariances differ from the exact one by %.3g and %.3g", (g.c[0].P - e.P).norm(), (h.c[0].P - e.P).norm());
        mc::transition(4); mc::state(mc::Hasher().add(e.w).add(e.x[0]).h); mc::outcome("two reports"); mc::describe("two reports, total %.6g", e.w);
    });
    // through the real sensor: everything inside, or everything outside, its field of view
    mc::family("update.sensor", 6 * 4 * 4 * 3 * 4 * 4, [] {
        M4 P = cov(pick(6)); V2 z = rpos(pick(4)); M2 R = rcov(pick(4)); static const double PD[] = {1, .7, .2}; double pd = pick(PD), ka = pick(KA); unsigned fv = pick(4);
        static const V2 O[] = {V2(58, 15), V2(-33, 151), V2(1, 100), V2(64, 10)};
        V2 o = O[fv]; bool in = fv != 2;
        lmb::PositionSensor<Tgt> s; s.pD_ = pd; s.kappa_ = ka;
        double q = in ? 1 : 4; s.fov.corners << o[0] + q + 1, o[0] + q + 1, o[0] + q - 2, o[0] + q - 2, o[1] + q + 1, o[1] + q - 2, o[1] + q - 2, o[1] + q + 1;
        V4 x = mean(1);
        PDF g(&params()); g.origin = o; g.c.emplace_back(x, P, .6); g.c.emplace_back(mean(2), cov(0), .4);
        Rep r(s, z, R);
        MC_CHECK("C12", r.kappa == ka, "a report made by the sensor has clutter %g", r.kappa);
        double e = posterior({.6, x, P}, z, R, pd, ka).w + posterior({.4, mean(2), cov(0)}, z, R, pd, ka).w;
        double m = g.missed(s);
        MC_CHECK("C12", near(m, in ? 1 - pd : 1, 1e-12, 1e-13), "missed %.12g with pD %g %s the field of view", m, pd, in ? "inside" : "outside");
        double eta = g.correct(r, s);
        if (!in || e < .99e-8) MC_CHECK("C12", eta == 0 && g.c.empty(), "a density %s the field of view has total %.6g", in ? "inside" : "outside", eta);
        else if (e > 1.01e-8) MC_CHECK("C12", near(eta, e, 1e-8), "total %.12g, exact %.12g", eta, e);
        mc::transition(2); mc::state(mc::Hasher().add(e).add(fv).add(pd).h); mc::outcome(in ? "inside" : "outside"); mc::describe("sensor at (%g,%g) pD %g total %.6g", o[0], o[1], pd, e);
    });
}


// ---- algebra
struct Sp { double w; int tag; };
template<typename G> static void put(G& g, const std::vector<Sp>& s) {
    g.c.clear();
    for (auto& k : s) { V4 x(k.tag, 2 * k.tag, -k.tag, .5); M4 P = m4(m2(1 + k.tag, .1 * k.tag, 2), m2(1, .2, 1 + k.tag), .01 * k.tag); g.c.emplace_back(x, P, k.w); }
}
template<typename G> static bool intact(const G& g, size_t i, int tag) { V4 x(tag, 2 * tag, -tag, .5); M4 P = m4(m2(1 + tag, .1 * tag, 2), m2(1, .2, 1 + tag), .01 * tag); return g.c[i].x == x && g.c[i].P == P; }
template<typename G> static int tag(const G& g, size_t i) { int t = (int)std::lround(g.c[i].x[0]); return intact(g, i, t) ? t : -1; }
static std::string show(const std::vector<Sp>& s) { std::string r = "{"; for (auto& k : s) { char b[32]; snprintf(b, sizeof b, "%g ", k.w); r += b; } return r + "}"; }
template<typename G> static std::string showg(const G& g) { std::string r = "{"; for (auto& k : g.c) { char b[48]; snprintf(b, sizeof b, "%.9g@%g ", k.w, k.x[0]); r += b; } return r + "}"; }

// expected weights in order, each with the tags it may carry
struct Ex { double w; };
// candidates sorted by weight; kept: those passing, then the heaviest cap ones. Ties may be resolved either way.
template<typename G> static void judge(const char* what, const G& g, std::vector<Sp> cand, size_t keep, double total, const std::string& in) {
    // every kept component is a distinct candidate with the proportional weight; the weights are the 'keep' largest
    std::stable_sort(cand.begin(), cand.end(), [](const Sp& a, const Sp& b) { return a.w > b.w; });
    MC_CHECK("C13", g.c.size() == keep, "%s of %s keeps %s, expected %zu components", what, in.c_str(), showg(g).c_str(), keep);
    if (g.c.size() != keep) return;
    std::set<int> seen; double sum = 0;
    for (size_t k = 0; k < keep; ++k) {
        int t = tag(g, k); const Sp* s = nullptr; for (auto& c : cand) if (c.tag == t) s = &c;
        MC_CHECK("C13", s && seen.insert(t).second, "%s of %s gives %s: component %zu is not one of the inputs, unchanged and once", what, in.c_str(), showg(g).c_str(), k);
        if (!s) return;
        MC_CHECK("C13", near(s->w, cand[k].w, 1e-12), "%s of %s gives %s: component %zu is not the next heaviest", what, in.c_str(), showg(g).c_str(), k);
        MC_CHECK("C13", near(g.c[k].w, s->w / total, 1e-12), "%s of %s gives %s: component %zu should weigh %.12g", what, in.c_str(), showg(g).c_str(), k, s->w / total);
        sum += g.c[k].w;
    }
    if (keep) MC_CHECK("C13", near(sum, 1, 1e-12), "%s of %s: weights sum to %.15g", what, in.c_str(), sum);
}
static const double W[] = {.5, .2, .2000000001, .01, .0099, 1e-9, 0, 3};
template<int MAX> static void fam_algebra(const char* nm) {
    typedef GMx<4, MAX> G;
    bool th = mc::thorough();
    unsigned nw = 8; int L = th ? 5 : 4;
    static const double CL[] = {.01, 0, .3};
    std::string n = nm;
    // all mixtures up to L components: normalise, prune, +
    uint64_t lists = 0; for (int k = 0; k <= L; ++k) lists += mc::ipow(nw, k);
    auto dec = [=](int L) { unsigned n = pick(L + 1); std::vector<Sp> s; for (int k = 0; k < L; ++k) { unsigned d = pick(nw); if (k < (int)n) s.push_back({W[d], k + 1}); else if (d) { s.clear(); s.push_back({-1, 0}); return s; } } return s; };
    mc::family("algebra." + n, 3ull * (L + 1) * mc::ipow(nw, L), [=] {
        lmb::Params p; p.cw_lim = pick(CL);
        auto s = dec(L); if (s.size() == 1 && s[0].w < 0) return;   // the same list with an unused digit
        std::string in = show(s); double tot = 0; for (auto& k : s) tot += k.w;
        { G g(&p); put(g, s); g.normalize();
          if (tot > 1.01e-8) {
              MC_CHECK("C13", near(g.eta, tot, 1e-13), "normalising %s reports %.12g", in.c_str(), g.eta);
              MC_CHECK("C13", g.c.size() == s.size(), "normalising %s leaves %zu components", in.c_str(), g.c.size());
              for (size_t k = 0; k < s.size() && k < g.c.size(); ++k) MC_CHECK("C13", intact(g, k, s[k].tag) && near(g.c[k].w, s[k].w / tot, 1e-13), "normalising %s gives %s", in.c_str(), showg(g).c_str());
          } else if (tot < .99e-8) MC_CHECK("C13", g.c.empty() && g.eta == 0, "normalising %s leaves %s, eta %g", in.c_str(), showg(g).c_str(), g.eta);
          mc::transition(); }
        auto pruned = [&](const std::vector<Sp>& a, std::vector<Sp>& c, size_t& keep, double& t) {
            c.clear(); for (auto& k : a) if (!(k.w < p.cw_lim)) c.push_back(k);
            std::stable_sort(c.begin(), c.end(), [](const Sp& a, const Sp& b) { return a.w > b.w; });
            keep = std::min<size_t>(c.size(), MAX); t = 0; for (size_t k = 0; k < keep; ++k) t += c[k].w;
            if (t < 1e-8) keep = 0;
            return !(t > .99e-8 && t < 1.01e-8);
        };
        std::vector<Sp> c; size_t keep; double t;
        if (pruned(s, c, keep, t)) { G g(&p); put(g, s); g.prune(); judge("pruning", g, c, keep, t, in); mc::transition(); }
        // sums: every split into two mixtures
        for (size_t k = 0; k <= s.size(); ++k) {
            G a(&p), b(&p); put(a, {s.begin(), s.begin() + k}); put(b, {s.begin() + k, s.end()});
            G d = a + b; if (pruned(s, c, keep, t)) judge("adding", d, c, keep, t, in + " split at " + std::to_string(k));
            bool un = a.c.size() == k && b.c.size() == s.size() - k; for (size_t q = 0; un && q < s.size(); ++q) { auto& g = q < k ? a : b; size_t i = q < k ? q : q - k; un = intact(g, i, s[q].tag) && g.c[i].w == s[q].w; }
            MC_CHECK("C13", un, "adding %s changes an operand", in.c_str());
            a += b; if (pruned(s, c, keep, t)) judge("accumulating", a, c, keep, t, in + " split at " + std::to_string(k));
            mc::transition(2);
        }
        // moments of the list as it is
        { G g(&p); put(g, s); V4 m = V4::Zero(); for (auto& k : g.c) for (int i = 0; i < 4; ++i) m[i] += k.w * k.x[i];
          M4 P = M4::Zero(); for (auto& k : g.c) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) P(i, j) += k.w * (k.P(i, j) + (k.x[i] - m[i]) * (k.x[j] - m[j]));
          double sc = 1 + P.norm() + m.norm();
          MC_CHECK("C13", (g.mean() - m).norm() < 1e-12 * sc && (g.cov() - P).norm() < 1e-11 * sc, "%s: moments %s, exact %s", in.c_str(), str(g.mean()).c_str(), str(m).c_str());
          MC_CHECK("C13", (g.pos() - m.head<2>()).norm() < 1e-12 * sc && (g.vel() - m.tail<2>()).norm() < 1e-12 * sc && (g.poscov() - P.topLeftCorner<2, 2>()).norm() < 1e-11 * sc && (g.velcov() - P.bottomRightCorner<2, 2>()).norm() < 1e-11 * sc, "%s: position or velocity part is not the block of the moments", in.c_str());
          M4 Q = M4::Zero(); V4 y(1, -2, .5, 4); for (auto& k : g.c) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) Q(i, j) += k.w * (k.P(i, j) + (k.x[i] - y[i]) * (k.x[j] - y[j]));
          MC_CHECK("C13", (g.cov(y) - Q).norm() < 1e-11 * (1 + Q.norm()), "%s: second moment about a point", in.c_str());
          mc::transition(3); }
        mc::Hasher h; for (auto& k : s) h.add(k.w); mc::state(h.add(p.cw_lim).h); mc::outcome(std::to_string(s.size()) + " components");
        mc::describe("%s cw_lim %g max %d", in.c_str(), p.cw_lim, MAX);
    });
    // joins of up to three mixtures of up to two (three) components
    int Q = 2; unsigned nj = th ? 5 : 4, njw = th ? 5 : 4; static const double WJ[] = {.7, .2, .05, .2000000001, 1e-9}; static const double JW[] = {1, .2, 0, 1e-9, .05};
    uint64_t per = 0; for (int k = 0; k <= Q; ++k) per += mc::ipow(nj, k);
    mc::family("join." + n, 3ull * mc::ipow(per, 3) * mc::ipow(njw, 3), [=] {
        lmb::Params p; static const double CJ[] = {.01, 0, .2}; p.cw_lim = pick(CJ);
        std::vector<G> v; std::vector<Sp> cand; std::string in; int tg = 1; Eigen::Array<double, 1, 3> w;
        std::vector<std::vector<Sp>> src;
        for (int j = 0; j < 3; ++j) {
            uint64_t d = pick((unsigned)per); int n = 0; uint64_t c = 1; while (d >= c) { d -= c; c *= nj; ++n; }
            std::vector<Sp> s; for (int k = 0; k < n; ++k, d /= nj) s.push_back({WJ[d % nj], tg++});
            v.emplace_back(&p); put(v.back(), s); src.push_back(s);
        }
        for (int j = 0; j < 3; ++j) { w[j] = JW[pick(njw)]; char b[24]; snprintf(b, sizeof b, "%g*", w[j]); in += b + show(src[j]) + " "; for (auto& k : src[j]) cand.push_back({k.w * w[j], k.tag}); }
        std::stable_sort(cand.begin(), cand.end(), [](const Sp& a, const Sp& b) { return a.w > b.w; });
        size_t keep = 0; double t = 0; bool open = false;
        for (; keep < cand.size() && keep < MAX; ++keep) {
            double nt = t + cand[keep].w;
            if (nt > 0 && near(cand[keep].w, nt * p.cw_lim, 1e-9) && p.cw_lim > 0) open = true;
            if (nt > 0 && cand[keep].w / nt < p.cw_lim) break;
            t = nt;
        }
        if (t > .99e-8 && t < 1.01e-8) open = true;
        if (t < 1e-8) keep = 0;
        if (open) { mc::skip(); return; }
        G g(&p); put(g, {{.5, 99}}); g.eta = 7;
        G::join(g, w, v);
        judge("joining", g, cand, keep, t, in);
        mc::transition(); mc::Hasher h; for (auto& k : cand) h.add(k.w); mc::state(h.add(p.cw_lim).h); mc::outcome("joined " + std::to_string(keep));
        mc::describe("%scw_lim %g max %d", in.c_str(), p.cw_lim, MAX);
    });
}
// F, Q and state setting apply to every component
static void fam_linear() {
    mc::family("linear", 4 * 4 * 4, [] {
        unsigned n = pick(4), f = pick(4), q = pick(4);
        lmb::Params p; PDF g(&p); for (unsigned k = 0; k < n; ++k) g.c.emplace_back(mean(k), cov(k + 1), .1 * (k + 1));
        M4 F = M4::Identity(); if (f == 1) F(0, 2) = F(1, 3) = 2.5; if (f == 2) F << 1, 2, 3, 4, 0, 1, -1, 0, .5, 0, 1, 0, 0, 0, 2, 1; if (f == 3) F.setZero();
        M4 Q = q ? cov(q) : M4(M4::Zero());
        PDF h(g); h.linear_update(F, Q);
        for (unsigned k = 0; k < n; ++k) {
            V4 x = V4::Zero(); M4 P = Q; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { x[i] += F(i, j) * g.c[k].x[j]; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) P(i, j) += F(i, a) * g.c[k].P(a, b) * F(j, b); }
            MC_CHECK("C13", h.c[k].w == g.c[k].w && (h.c[k].x - x).norm() < 1e-11 * (1 + x.norm()) && (h.c[k].P - P).norm() < 1e-11 * (1 + P.norm()), "linear update of component %u of %u", k, n);
        }
        PDF e(g); V4 s(1, 2, 3, 4); e.set_state(s); for (unsigned k = 0; k < n; ++k) MC_CHECK("C13", e.c[k].x == s && e.c[k].P == g.c[k].P && e.c[k].w == g.c[k].w, "setting the state of component %u of %u", k, n);
        PDF c(g); c.clear(); MC_CHECK("C13", c.c.empty() && c.eta == 0, "a cleared mixture has components");
        mc::transition(3); mc::state(mc::Hasher().add(n).add(f).add(q).h); mc::describe("%u components F%u Q%u", n, f, q); mc::outcome("linear");
    });
}
// C30: a density spread over a set of points. Components: mean on and off the points, wide, narrow and tilted.
static const V2 PT[] = {V2(0, 0), V2(1, 2), V2(-3, -.7), V2(1.5, -.5), V2(400, 80)};
static double dens(const V2& x, const V2& m, const M2& P) {
    double det = P(0, 0) * P(1, 1) - P(0, 1) * P(1, 0), a = x[0] - m[0], b = x[1] - m[1];
    return std::exp(-.5 * (P(1, 1) * a * a - 2 * P(0, 1) * a * b + P(0, 0) * b * b) / det) / (2 * M_PI * std::sqrt(det));
}
// what a component adds; open is set where the total lies at the limit below which nothing is added
static Eigen::ArrayXd share(const Eigen::Array<double, 2, Eigen::Dynamic>& p, const V4& x, const M4& P, double scale, bool& open) {
    Eigen::ArrayXd e = Eigen::ArrayXd::Zero(p.cols()); double s = 0;
    for (int j = 0; j < p.cols(); ++j) { e[j] = dens(p.col(j).matrix(), x.head<2>(), P.topLeftCorner<2, 2>()); s += e[j]; }
    if (near(s, 1e-7, 1e-6)) open = true;
    if (s <= 1e-7) return e * 0;
    return e * (scale / s);
}
static void fam_points() {
    int L = mc::thorough() ? 4 : 3, np = 5;
    uint64_t lists = 0; for (int k = 1; k <= L; ++k) lists += mc::ipow(np, k);
    static const double SC[] = {1, .3, 2.5, 0}, IN[] = {0, .125, 7};
    static const std::vector<std::vector<double>> W = {{1}, {.5, .5}, {.2, .8}, {.1, .3, .6}, {0, 1}, {}};
    uint64_t combos = 0; std::vector<uint64_t> per; for (auto& w : W) { uint64_t c = mc::ipow(24, std::min<size_t>(w.size(), 2)); per.push_back(c); combos += c; }
    mc::family("points", lists * combos * 3, [=] {
        uint64_t l = pick(lists); int n = 1; while (l >= (uint64_t)mc::ipow(np, n)) { l -= mc::ipow(np, n); ++n; }
        Eigen::Array<double, 2, Eigen::Dynamic> p(2, n); std::string in = "points"; for (int j = 0; j < n; ++j) { p.col(j) = PT[l % np].array(); in += " " + std::to_string(l % np); l /= np; }
        uint64_t c = pick(combos); unsigned wi = 0; while (c >= per[wi]) c -= per[wi++];
        unsigned ini = pick(3); double scale = SC[(wi + n + ini) % 4];
        lmb::Params prm; PDF g(&prm);
        for (size_t k = 0; k < W[wi].size(); ++k) { unsigned a = k == 0 ? c % 24 : k == 1 ? c / 24 % 24 : (c + 7) % 24; g.c.emplace_back(mean(a % 4), cov(a / 4), W[wi][k]); in += " N(" + std::to_string(a % 4) + "," + std::to_string(a / 4) + ")*" + std::to_string(W[wi][k]); }
        PDF was(g);
        bool open = false; Eigen::ArrayXd want = Eigen::ArrayXd::Constant(n, IN[ini]), one = want;
        for (auto& k : g.c) want += share(p, k.x, k.P, scale * k.w, open);
        Eigen::Array<double, 1, Eigen::Dynamic> r(1, n); r.setConstant(IN[ini]);
        g.sampled_pos_pdf(p, r, scale);
        auto cmp = [&](const char* what, const Eigen::Array<double, 1, Eigen::Dynamic>& r, const Eigen::ArrayXd& want) {
            MC_CHECK("C30", r.cols() == n, "%s of %s: %d values", what, in.c_str(), (int)r.cols());
            for (int j = 0; j < n && j < r.cols(); ++j) MC_CHECK("C30", open || near(r[j], want[j], 1e-9, 1e-12), "%s of %s, scale %g from %g: value %d is %.12g, it should be %.12g", what, in.c_str(), scale, IN[ini], j, r[j], want[j]);
        };
        cmp("mixture", r, want);
        if (g.c.size() == 1) {
            r.setConstant(IN[ini]); g.c[0].sampled_pos_pdf(p, r, scale); cmp("Gaussian", r, want);
            r.setConstant(IN[ini]); g.c[0].sampled_pos_pdf(p, r); bool o = false; one += share(p, g.c[0].x, g.c[0].P, 1, o); cmp("Gaussian without scale", r, one);
            lmb::Gaussian_<2> h(V2(g.c[0].x.head<2>()), M2(g.c[0].P.topLeftCorner<2, 2>()), .5); r.setConstant(IN[ini]); h.sampled_pos_pdf(p, r, scale); cmp("plane Gaussian", r, want);
            mc::transition(3);
        }
        PDF arg(g); lmb::Target_<PDF> t(scale, std::move(arg), &prm, 0); r.setConstant(IN[ini]); t.pos_phd(p, r); cmp("track", r, want);
        t.pos_phd(p, r); cmp("track, twice", r, 2 * want - IN[ini]);
        bool same = t.r == scale && t.pdf.c.size() == was.c.size() && g.c.size() == was.c.size();
        for (size_t k = 0; same && k < was.c.size(); ++k) same = g.c[k].x == was.c[k].x && g.c[k].P == was.c[k].P && g.c[k].w == was.c[k].w && t.pdf.c[k].x == was.c[k].x && t.pdf.c[k].P == was.c[k].P && t.pdf.c[k].w == was.c[k].w;
        MC_CHECK("C30", same, "%s: spreading a density over points changes it", in.c_str());
        mc::transition(3); mc::Hasher h; for (int j = 0; j < n; ++j) h.add(want[j]); mc::state(h.add(wi).h); mc::outcome(open ? "open" : (want.maxCoeff() > IN[ini]) ? "added" : "nothing to add"); mc::describe("%s scale %g from %g", in.c_str(), scale, IN[ini]);
    });
}
static void reg() {
    if (mc::want("C12")) fam_update();
    if (mc::want("C13")) { fam_algebra<200>("200"); fam_algebra<3>("3"); fam_algebra<1>("1"); fam_linear(); }
    if (mc::want("C30")) fam_points();
}
int main(int c, char** v) { return mc::main_(c, v, reg); }
