// Operation histories on the real tracker, stepped side by side with the reference model of ref.hpp.
#include "mc.hpp"
#include <memory>
#include "lmb.hpp"
#include "gm.hpp"
#include "models.hpp"
#include "sensors.hpp"
#include "ref.hpp"
#include "json.hpp"
using mc::pick;
using ref::V2; using ref::V4; using ref::M2; using ref::M4; using ref::Box;
typedef lmb::GaussianReport_<2> Rep;

static const V2 BASE(58.3887657, 15.6965082);
static std::string S(double d) { char b[40]; snprintf(b, sizeof b, "%.9g", d); return b; }
static M2 m2(double a, double b, double c) { M2 m; m << a, b, b, c; return m; }
static M4 m4(const M2& p, const M2& v, double c = 0) { M4 m = M4::Zero(); m.topLeftCorner<2, 2>() = p; m.bottomRightCorner<2, 2>() = v; m(0, 2) = m(2, 0) = m(1, 3) = m(3, 1) = c; return m; }

struct RD { double n, e; M2 P; double kappa; };                 // a report in local metres
struct SD { double pD = .9, lambdaB = 1; M2 pv = M2::Identity(); int fov = 0; };   // fov 0 around the scene, 1 elsewhere
struct CD { double w, n, e, vn, ve; M4 P; };                     // a component in local metres
struct TD { double r; std::vector<CD> c; };

static ref::Params rp(const lmb::Params& p, unsigned maxc) { return {p.w_lim, p.r_lim, p.nhyp_max, p.rB_max, p.nstd, p.cw_lim, p.cov_lim, p.tscale, maxc}; }
static lmb::Params par(double w_lim, double r_lim, double nhyp, double rB_max, double cw_lim, double cov_lim) {
    lmb::Params p; p.w_lim = w_lim; p.r_lim = r_lim; p.nhyp_max = nhyp; p.rB_max = rB_max; p.cw_lim = cw_lim; p.cov_lim = cov_lim; return p;
}
static lmb::Params open_limits(double r_lim = 1e-4) { return par(0, r_lim, 1e9, 1, 0, 1e12); }

template<int MAXC = 200> struct Sys {
    using PDF = lmb::GM<4, MAXC>;
    using Trk = lmb::SILMB<PDF>;
    using Target = typename Trk::Target;
    using Sensor = lmb::PositionSensor<Target>;
    std::unique_ptr<Trk> trk; V2 base; double turn_c = 1, turn_s = 0;
    std::set<unsigned> ever; double time = 0; std::string log; bool posterior_open = false;
    mc::Hasher hist;
    const char* postprop = "C06";

    // the same sensor for scenes wholly inside the field of view, without its Monte Carlo integration
    struct Inside : Sensor {
        Inside(const Sensor& s) : Sensor(s) {}
        template<typename P> double pD(const P&, const cf::LL&) const { return this->pD_; }
    };
    bool fast = false;

    explicit Sys(const lmb::Params& p, const V2& b = BASE, int quarter = 0) : trk(new Trk(p)), base(b) {
        static const int c4[] = {1, 0, -1, 0}, s4[] = {0, 1, 0, -1}; turn_c = c4[quarter & 3]; turn_s = s4[quarter & 3];
        posterior_open = p.w_lim == 0 && p.cw_lim == 0 && p.nhyp_max >= 1e6;
        postprop = posterior_open ? "C06" : "C07";
    }
    ref::Params params() const { return rp(trk->params, MAXC); }
    V2 rot(const V2& v) const { return V2(turn_c * v[0] - turn_s * v[1], turn_s * v[0] + turn_c * v[1]); }
    M2 rot(const M2& P) const { M2 R; R << turn_c, -turn_s, turn_s, turn_c; return R * P * R.transpose(); }
    M4 rot(const M4& P) const { M4 R = M4::Zero(); R.topLeftCorner<2, 2>() << turn_c, -turn_s, turn_s, turn_c; R.bottomRightCorner<2, 2>() = R.topLeftCorner<2, 2>(); return R * P * R.transpose(); }
    V2 unrot(const V2& v) const { return V2(turn_c * v[0] + turn_s * v[1], -turn_s * v[0] + turn_c * v[1]); }
    V2 ll(double n, double e) const { return ref::ne2ll(rot(V2(n, e)), base); }

    void add(const TD& t) {
        PDF p(&trk->params);
        for (auto& c : t.c) { V4 x; x.head<2>() = ll(c.n, c.e); x.tail<2>() = rot(V2(c.vn, c.ve)); p.c.emplace_back(x, rot(c.P), c.w); }
        p.transform_to_local(); p.transform_to_global();
        auto x = trk->targettree.new_target(t.r, std::move(p));
        ever.insert(x->id);
        log += "track(r=" + S(t.r);
        for (auto& c : t.c) log += " " + S(c.w) + "@" + S(c.n) + "," + S(c.e);
        log += ") "; hist.add(t.r); for (auto& c : t.c) hist.add(c.w).add(c.n).add(c.e).add(c.P(0, 0)).add(c.P(0, 1));
    }
    Sensor sensor(const SD& d) const {
        Sensor s; s.pD_ = d.pD; s.lambdaB = d.lambdaB; s.pv = rot(d.pv);
        double o = d.fov == 1 ? 8 : 0, h = .4;
        double sgn = base[0] > 0 ? -1 : 1;
        double a = base[0] + sgn * o - h, b = base[0] + sgn * o + h, c = base[1] - h, e = base[1] + h;
        s.fov.corners << b, b, a, a, e, c, c, e;
        return s;
    }
    static ref::Track snap(Target* t) {
        ref::Track r; r.id = t->id; r.cid = t->cid; r.r = t->r; r.la = t->last_action;
        for (auto& g : t->pdf.c) r.c.push_back({g.w, g.x, g.P});
        auto b = t->llaabbox(); r.bb = {b.min[0], b.min[1], b.max[0], b.max[1]};
        return r;
    }
    std::vector<ref::Track> snap() const { std::vector<ref::Track> v; for (auto t : trk->targettree.targets) v.push_back(snap(t)); return v; }

    static bool close(double a, double b, double rel, double abs) { return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
    static std::string comps(const std::vector<ref::Comp>& c) {
        std::string s; int k = 0;
        for (auto& x : c) { if (++k > 6) { s += "..."; break; } s += "{" + S(x.w) + " [" + S(x.x[0]) + " " + S(x.x[1]) + " " + S(x.x[2]) + " " + S(x.x[3]) + "] P " + S(x.P(0, 0)) + " " + S(x.P(0, 1)) + " " + S(x.P(1, 1)) + "} "; }
        return s;
    }
    // equal mixtures, in any order; components of vanishing weight do not count
    static bool same(const std::vector<ref::Comp>& a, const std::vector<ref::Comp>& b, double tol = 1) {
        std::vector<char> used(b.size(), 0);
        for (auto& x : a) {
            bool f = false; V2 sc = ref::scale(x.x.head<2>());
            for (size_t k = 0; k < b.size() && !f; ++k) {
                if (used[k] || !close(x.w, b[k].w, 1e-6 * tol, 1e-8 * tol)) continue;
                V2 d = (x.x - b[k].x).head<2>().cwiseProduct(sc);
                if (!(d.norm() <= 2e-5 * tol + 1e-7 * tol * std::sqrt(x.P(0, 0) + x.P(1, 1)))) continue;
                if (!((x.x - b[k].x).tail<2>().norm() <= 1e-6 * tol * (1 + x.x.tail<2>().norm()))) continue;
                if (!((x.P - b[k].P).norm() <= 1e-7 * tol * (1e-3 + x.P.norm()))) continue;
                used[k] = 1; f = true;
            }
            if (!f && x.w > 1e-8) return false;
        }
        for (size_t k = 0; k < b.size(); ++k) if (!used[k] && b[k].w > 1e-8) return false;
        return true;
    }
    bool same_box(const Box& a, const Box& b) const {
        V2 s = ref::scale(base); for (int k = 0; k < 4; ++k) { double h = (a[k % 2 + 2] - a[k % 2]) * s[k % 2]; if (!(std::fabs(a[k] - b[k]) * s[k % 2] <= 2e-4 + 1e-6 * h)) return false; }
        return true;
    }
    static bool equal(const ref::Track& a, const ref::Track& b) {
        if (a.id != b.id || a.cid != b.cid || a.r != b.r || a.c.size() != b.c.size() || a.bb != b.bb || a.la != b.la) return false;
        for (size_t k = 0; k < a.c.size(); ++k) if (a.c[k].w != b.c[k].w || a.c[k].x != b.c[k].x || a.c[k].P != b.c[k].P) return false;
        return true;
    }

    // ---------------------------------------------------------------- prediction
    // model 0: constant velocity, 1: random walk
    void predict(int model, double pS, double q, double dt, const M4& Q = M4::Zero()) {
        auto pre = snap();
        log += model ? "NM(pS=" + S(pS) + ") " : "CV(pS=" + S(pS) + ",q=" + S(q) + ",dt=" + S(dt) + ") ";
        hist.add(1 + model).add(pS).add(q).add(dt).add(Q(0, 0)).add(Q(2, 2));
        if (model == 0) { lmb::CV<Target> m(pS, q); trk->template predict<lmb::CV<Target>>(m, time + dt, time); }
        else { lmb::NM<Target> m(pS, rot(Q)); trk->template predict<lmb::NM<Target>>(m, time + dt, time); }
        mc::transition(); time += dt;
        auto post = snap(); auto p = params();
        std::map<unsigned, ref::Track*> by; for (auto& t : post) by[t.id] = &t;
        bool dup = by.size() != post.size();
        MC_CHECK("C10", !dup, "%s: a track is listed twice", log.c_str());
        size_t kept = 0;
        for (auto t : pre) {
            unsigned cid = t.cid;
            if (model == 0) ref::predict_cv(t, p, pS, q, dt); else ref::predict_nm(t, p, pS, rot(Q));
            auto f = by.find(t.id); ref::Track* g = f == by.end() ? nullptr : f->second;
            int v = ref::viable(t.r, t.c, p);
            if (v >= 0) MC_CHECK("C10", (g != nullptr) == (v == 1), "%s: track %u with r=%.9g and position covariance norm %.9g is %s (r_lim %g, cov_lim %g)", log.c_str(), t.id, t.r, poscov(t), g ? "kept" : "removed", p.r_lim, p.cov_lim);
            if (!g) continue;
            ++kept;
            MC_CHECK("C09", close(g->r, t.r, 1e-9, 1e-12), "%s: track %u has r %.12g, the model gives %.12g", log.c_str(), t.id, g->r, t.r);
            MC_CHECK("C09", same(t.c, g->c), "%s: track %u predicted as %s, the model gives %s", log.c_str(), t.id, comps(g->c).c_str(), comps(t.c).c_str());
            boxcheck("C09", *g, t.bb);
            MC_CHECK("C09", g->cid == cid, "%s: prediction changes the label of track %u", log.c_str(), t.id);
        }
        MC_CHECK("C10", kept == post.size(), "%s: %zu tracks after a prediction of %zu", log.c_str(), post.size(), pre.size());
        after();
    }
    static double poscov(const ref::Track& t) { M2 P = M2::Zero(); for (auto& k : t.c) P += k.w * k.P.template topLeftCorner<2, 2>(); return P.norm(); }
    void boxcheck(const char* prop, const ref::Track& g, const Box& want) {
        MC_CHECK(prop, same_box(g.bb, want), "%s: the box of track %u is [%.10g %.10g %.10g %.10g], its density gives [%.10g %.10g %.10g %.10g]", log.c_str(), g.id,
                 g.bb[0], g.bb[1], g.bb[2], g.bb[3], want[0], want[1], want[2], want[3]);
    }

    // ---------------------------------------------------------------- scan
    std::vector<Rep> last; bool last_ambiguous = true; ref::Expect exp;
    void scan(const std::vector<RD>& rd, const SD& sd) {
        Sensor s = sensor(sd);
        scan_with(rd, s, "pD=" + S(sd.pD) + ",lB=" + S(sd.lambdaB) + (sd.fov ? ",elsewhere" : ""));
    }
    void scan_with(const std::vector<RD>& rd, const Sensor& s, const std::string& what) {
        auto pre = snap(); std::vector<Rep> z; std::vector<ref::Report> rr;
        log += "scan(" + what;
        hist.add(7).add(s.pD_).add(s.lambdaB).add(s.fov.corners(0, 0));
        for (auto& d : rd) {
            Rep r(ll(d.n, d.e), rot(d.P), d.kappa); r.rB = -7; z.push_back(r); rr.push_back({r.x, r.P, d.kappa});
            log += " " + S(d.n) + "," + S(d.e) + "|" + S(d.P(0, 0)) + "," + S(d.P(0, 1)) + "," + S(d.P(1, 1)) + (d.kappa != 1 ? "/k" + S(d.kappa) : "");
            hist.add(d.n).add(d.e).add(d.P(0, 0)).add(d.P(0, 1)).add(d.P(1, 1)).add(d.kappa);
        }
        log += ") ";
        unsigned idmax = 0; for (unsigned i : ever) idmax = std::max(idmax, i);
        if (fast) { Inside in(s); trk->template correct<Inside>(in, z, time); }
        else trk->template correct<Sensor>(s, z, time);
        mc::transition();
        last = z;
        auto post = snap(); auto p = params();
        ref::Sensor rs; rs.fov = s.fov.corners; rs.pD = s.pD_; rs.lambdaB = s.lambdaB; rs.pv = s.pv;
        auto e = ref::scan(pre, rr, rs, p);
        exp = e; last_ambiguous = e.ambiguous;
        if (e.ambiguous) { mc::outcome("scan near a threshold"); after(); return; }
        std::map<unsigned, ref::Track*> by; for (auto& t : post) by[t.id] = &t;
        const char* PP = postprop;
        // reports are given back unchanged but for label and rB
        for (size_t j = 0; j < z.size(); ++j) {
            V2 d = (z[j].x - rr[j].x).cwiseProduct(ref::scale(base));
            MC_CHECK("C08", d.norm() < 2e-5 && (z[j].P - rr[j].P).norm() < 1e-9 * rr[j].P.norm() && z[j].kappa == rr[j].kappa, "%s: the scan moves report %zu", log.c_str(), j);
        }
        // tracks
        std::vector<std::set<unsigned>> labels(e.clusters.size());
        size_t kept = 0;
        for (auto& x : e.t) {
            auto& t = pre[x.pre]; auto f = by.find(t.id); ref::Track* g = f == by.end() ? nullptr : f->second;
            if (g) ++kept;
            if (x.untouched) {
                MC_CHECK("C10", g && equal(t, *g), "%s: track %u takes no part in the scan but is %s", log.c_str(), t.id, g ? "changed" : "gone");
                MC_CHECK("C24", g && g->r == t.r, "%s: track %u, outside the field of view, is weakened from %g to %g", log.c_str(), t.id, t.r, g ? g->r : 0.);
                if (g) MC_CHECK("C05", g->cid == t.cid, "%s: track %u takes no part in the scan but is labelled anew", log.c_str(), t.id);
                continue;
            }
            if (g && x.cluster >= 0) labels[x.cluster].insert(g->cid);
            if (x.amb) continue;
            if (!x.undecided_alive)
                MC_CHECK("C10", (g != nullptr) == x.alive, "%s: track %u with r=%.9g is %s (r_lim %g, cov_lim %g)", log.c_str(), t.id, x.r, g ? "kept" : "removed", p.r_lim, p.cov_lim);
            if (!g) { if (x.alive && !x.undecided_alive) MC_CHECK(PP, false, "%s: track %u, of posterior existence %.9g, is gone", log.c_str(), t.id, x.r); continue; }
            MC_CHECK(PP, close(g->r, x.r, 1e-7, 1e-10), "%s: track %u has existence %.12g, the posterior is %.12g", log.c_str(), t.id, g->r, x.r);
            if (x.alive) {
                MC_CHECK(PP, same(x.c, g->c), "%s: track %u is %s, the posterior mixture is %s", log.c_str(), t.id, comps(g->c).c_str(), comps(x.c).c_str());
                boxcheck("C04", *g, ref::llbox(ref::nebox(ref::local(g->c, x.o), p.nstd), x.o));
            }
        }
        // clusters
        std::set<int> all; size_t nobs = 0; bool split = false;
        for (size_t j = 0; j < z.size(); ++j) labels[e.rcluster[j]].insert(z[j].cid);
        MC_CHECK("C05", trk->nof_clusters == e.clusters.size(), "%s: %u clusters published, %zu exist", log.c_str(), trk->nof_clusters, e.clusters.size());
        MC_CHECK("C05", trk->cluster_ntargets.size() == e.clusters.size() && trk->cluster_nreports.size() == e.clusters.size() && trk->cluster_nhyps.size() == e.clusters.size(), "%s: statistics of %zu, %zu and %zu clusters, %zu exist", log.c_str(), trk->cluster_ntargets.size(), trk->cluster_nreports.size(), trk->cluster_nhyps.size(), e.clusters.size());
        for (size_t c = 0; c < labels.size(); ++c) {
            auto& l = labels[c]; auto& cl = e.clusters[c];
            if (l.empty()) continue;
            MC_CHECK("C05", l.size() == 1, "%s: one group of linked reports and tracks carries %zu labels", log.c_str(), l.size());
            if (l.size() != 1) { split = true; continue; }
            unsigned v = *l.begin(); ++nobs;
            MC_CHECK("C05", all.insert(v).second, "%s: two separate groups share the label %u", log.c_str(), v);
            MC_CHECK("C05", v < e.clusters.size(), "%s: label %u of %zu clusters", log.c_str(), v, e.clusters.size());
            if (v < trk->cluster_ntargets.size() && v < trk->cluster_nreports.size() && v < trk->cluster_nhyps.size()) {
                MC_CHECK("C05", trk->cluster_ntargets[v] == (int)cl.tracks.size() && trk->cluster_nreports[v] == (int)cl.reports.size(),
                         "%s: cluster %u publishes %d tracks and %d reports, it has %zu and %zu", log.c_str(), v, trk->cluster_ntargets[v], trk->cluster_nreports[v], cl.tracks.size(), cl.reports.size());
                if (!cl.amb) MC_CHECK("C07", trk->cluster_nhyps[v] == (int)cl.nhyp || (cl.nhyp_open && trk->cluster_nhyps[v] >= (int)cl.nhyp), "%s: cluster %u publishes %d hypotheses, %u are used", log.c_str(), v, trk->cluster_nhyps[v], cl.nhyp);
            }
        }
        (void)split; (void)nobs;
        // births
        double amb = e.births_amb;
        for (size_t j = 0; j < z.size(); ++j) if (!e.rBamb[j]) {
            bool none = e.clusters[e.rcluster[j]].tracks.empty();
            double rb = z[j].rB;
            const char* bp = "C08"; (void)none;
            {
                MC_CHECK(bp, close(rb, e.rB[j], 1e-7, 1e-8), "%s: report %zu has unexplained weight %.12g, it is %.12g", log.c_str(), j, rb, e.rB[j]);
                MC_CHECK(PP, close(rb, e.rB[j], 1e-7, 1e-8), "%s: report %zu has unexplained weight %.12g, it is %.12g", log.c_str(), j, rb, e.rB[j]);
            }
        }
        std::vector<ref::Track*> fresh; std::set<unsigned> preids; for (auto& t : pre) preids.insert(t.id);
        for (auto& t : post) if (!preids.count(t.id)) fresh.push_back(&t);
        for (auto t : fresh) MC_CHECK("C04", !ever.count(t->id), "%s: the new track has the id %u of an earlier one", log.c_str(), t->id);
        for (auto t : fresh) ever.insert(t->id);
        MC_CHECK("C04", by.size() == post.size(), "%s: two tracks share an id", log.c_str());
        if (!amb) {
            MC_CHECK("C08", fresh.size() == e.births.size(), "%s: %zu tracks are founded, %zu should be", log.c_str(), fresh.size(), e.births.size());
            std::vector<char> used(fresh.size(), 0);
            for (auto& b : e.births) {
                ref::Comp c; c.w = 1; c.x.setZero(); c.x.head<2>() = rr[b.report].x; c.P = m4(rr[b.report].P, s.pv);
                bool f = false;
                for (size_t k = 0; k < fresh.size() && !f; ++k) if (!used[k] && same({c}, fresh[k]->c) && close(fresh[k]->r, b.r, 1e-7, 1e-9) && fresh[k]->cid == z[b.report].cid) { used[k] = 1; f = true; boxcheck("C08", *fresh[k], ref::llbox(ref::nebox(ref::local({c}, c.x.head<2>()), p.nstd), c.x.head<2>())); }
                MC_CHECK("C08", f, "%s: report %d should found a track of existence %.9g there; founded: %s", log.c_str(), b.report, b.r, fresh.empty() ? "none" : (S(fresh[0]->r) + " cid " + S(fresh[0]->cid) + " " + comps(fresh[0]->c)).c_str());
            }
        }
        MC_CHECK("C10", kept + fresh.size() == post.size(), "%s: the track list has %zu entries, %zu kept and %zu new", log.c_str(), post.size(), kept, fresh.size());
        if (mc::want("C11")) for (size_t j = 0; j < z.size(); ++j) { double rb = z[j].rB; MC_CHECK("C11", rb >= -1e-9 && rb <= 1 + 1e-9, "%s: report %zu has unexplained weight %g", log.c_str(), j, rb); }
        mc::outcome(e.clusters.empty() ? "scan of nothing" : "scan compared");
        after();
    }

    // ---------------------------------------------------------------- state checks
    bool want_queries = true;
    void after() {
        auto post = snap();
        mc::Hasher h;
        for (auto& t : post) { h.add(t.id).add(t.cid).add(t.r); for (auto& c : t.c) { h.add(c.w); for (int k = 0; k < 4; ++k) h.add(c.x[k]); h.add(c.P(0, 0)).add(c.P(0, 1)); } }
        mc::state(h.h);
        if (mc::want("C11")) valid(post);
        if (mc::want("C04") && want_queries) queries(post);
        if (mc::want("C23")) text(post);
    }
    void valid(const std::vector<ref::Track>& post) {
        for (auto& t : post) {
            MC_CHECK("C11", t.r > 0 && t.r <= 1 + 1e-9, "%s: track %u has existence probability %g", log.c_str(), t.id, t.r);
            MC_CHECK("C11", !t.c.empty(), "%s: track %u has an empty mixture", log.c_str(), t.id);
            double sw = 0; bool fin = true, pd = true, wpos = true;
            for (auto& c : t.c) {
                sw += c.w; if (!(c.w >= 0)) wpos = false;
                if (!c.x.allFinite() || !c.P.allFinite()) { fin = false; continue; }
                if (!((c.P - c.P.transpose()).norm() <= 1e-7 * c.P.norm())) pd = false;
                Eigen::SelfAdjointEigenSolver<M4> es((c.P + c.P.transpose()) / 2);
                if (!(es.eigenvalues()[0] > 0)) pd = false;
            }
            MC_CHECK("C11", wpos && std::fabs(sw - 1) < 1e-9, "%s: the weights of track %u sum to %.12g", log.c_str(), t.id, sw);
            MC_CHECK("C11", fin, "%s: track %u has a non-finite mean or covariance", log.c_str(), t.id);
            MC_CHECK("C11", pd, "%s: track %u has a covariance that is not symmetric positive definite", log.c_str(), t.id);
            bool box = true; if (fin && !t.c.empty()) { V4 m = ref::mean(t.c); for (int k = 0; k < 2; ++k) if (!(std::isfinite(t.bb[k]) && std::isfinite(t.bb[k + 2]) && t.bb[k] <= m[k] + 1e-9 && t.bb[k + 2] >= m[k] - 1e-9)) box = false; }
            MC_CHECK("C11", box, "%s: the box of track %u does not contain its mean", log.c_str(), t.id);
        }
    }
    static std::vector<Box> regions(const V2& base, const std::vector<ref::Track>& post) {
        std::vector<Box> q = {{-90, -180, 90, 180}, {10, 10, 11, 11}};
        V2 s = ref::scale(base);
        for (double r : {2., 60., 900.}) q.push_back({base[0] - r / s[0], base[1] - r / s[1], base[0] + r / s[0], base[1] + r / s[1]});
        for (size_t i = 0; i < post.size() && i < 5; ++i) {
            auto& b = post[i].bb;
            q.push_back(b);
            q.push_back({b[2], b[3], b[2] + 1e-3, b[3] + 1e-3});                    // touches the corner
            q.push_back({b[0] - 1e-3, b[1] - 1e-3, std::nextafter(b[0], -100), b[3]}); // just not
            V4 m = ref::mean(post[i].c); q.push_back({m[0], m[1], m[0], m[1]});
        }
        return q;
    }
    void queries(const std::vector<ref::Track>& post) {
        auto eq = [&](const typename Trk::TargetSummaries& got, const std::vector<const ref::Track*>& want) {
            if (got.size() != want.size()) return false;
            std::set<unsigned> seen;
            for (auto& g : got) {
                if (!seen.insert(g.id).second) return false;
                const ref::Track* w = nullptr; for (auto x : want) if (x->id == g.id) w = x;
                if (!w || g.w != w->r || g.cid != w->cid) return false;
                V4 m = ref::mean(w->c); if (!((g.x - m).norm() <= 1e-9) || !((g.P - ref::cov(w->c)).norm() <= 1e-9 * (1 + g.P.norm()))) return false;
            }
            return true;
        };
        auto judge = [&](const Box* b) {
            std::vector<const ref::Track*> want; double en = 0; unsigned conf = 0, conf2 = 0;
            for (auto& t : post) if (!b || ((*b)[0] <= t.bb[2] && t.bb[0] <= (*b)[2] && (*b)[1] <= t.bb[3] && t.bb[1] <= (*b)[3])) { want.push_back(&t); en += t.r; conf += t.r >= .7; conf2 += t.r >= .2; }
            std::string w = b ? "region [" + S((*b)[0]) + " " + S((*b)[1]) + " " + S((*b)[2]) + " " + S((*b)[3]) + "]" : "all";
            lmb::AABBox a; if (b) a = lmb::AABBox((*b)[0], (*b)[1], (*b)[2], (*b)[3]);
            auto got = b ? trk->get_targets(a) : trk->get_targets();
            MC_CHECK("C04", eq(got, want), "%s: get_targets for %s gives %zu tracks, the list has %zu there", log.c_str(), w.c_str(), got.size(), want.size());
            double ge = b ? trk->enof_targets(a) : trk->enof_targets();
            MC_CHECK("C04", close(ge, en, 1e-12, 1e-12), "%s: enof_targets for %s is %.12g, the list gives %.12g", log.c_str(), w.c_str(), ge, en);
            unsigned g1 = b ? trk->nof_targets(a) : trk->nof_targets(), g2 = b ? trk->nof_targets(a, .2) : trk->nof_targets(.2);
            MC_CHECK("C04", g1 == conf && g2 == conf2, "%s: nof_targets for %s is %u and %u, the list gives %u and %u", log.c_str(), w.c_str(), g1, g2, conf, conf2);
            if (b) {
                auto q = trk->targettree.query(a); std::set<unsigned> ids; for (auto t : q) ids.insert(t->id);
                std::set<unsigned> wi; for (auto t : want) wi.insert(t->id);
                MC_CHECK("C04", q.size() == want.size() && ids == wi, "%s: the index gives %zu tracks for %s, the list has %zu there", log.c_str(), q.size(), w.c_str(), want.size());
            }
            mc::transition(b ? 5 : 4);
        };
        judge(nullptr);
        for (auto& b : regions(base, post)) judge(&b);
    }
    // ---------------------------------------------------------------- printed form
    static bool num(const Json& j, double v, double rel) { return j.k == Json::NUM && close(j.n, v, rel, 1e-300); }
    template<typename M> static bool mat(const Json& j, const M& m) {
        if (j.k != Json::ARR || (int)j.a.size() != m.rows()) return false;
        for (int r = 0; r < m.rows(); ++r) { if (j.a[r].k != Json::ARR || (int)j.a[r].a.size() != m.cols()) return false; for (int c = 0; c < m.cols(); ++c) if (!num(j.a[r].a[c], m(r, c), 6e-15)) return false; }
        return true;
    }
    static bool gauss(const Json& j, const ref::Comp& c) { return j.k == Json::OBJ && j["type"].s == "G" && num(j["w"], c.w, 6e-6) && mat(j["x"], c.x) && mat(j["P"], c.P); }
    static bool mixture(const Json& j, const std::vector<ref::Comp>& c) {
        if (j.k != Json::OBJ || j["type"].s != "GM" || j["c"].k != Json::ARR || j["c"].a.size() != c.size()) return false;
        for (size_t k = 0; k < c.size(); ++k) if (!gauss(j["c"].a[k], c[k])) return false;
        return true;
    }
    static bool track(const Json& j, const ref::Track& t) { return j.k == Json::OBJ && j["id"].k == Json::NUM && j["id"].n == t.id && j["cid"].k == Json::NUM && j["cid"].n == t.cid && j["la"].k == Json::STR && j["la"].s == std::string(1, t.la) && num(j["r"], t.r, 6e-6) && mixture(j["pdf"], t.c); }
    static bool report(const Json& j, const Rep& r) { return j.k == Json::OBJ && j["type"].s == "GR" && mat(j["x"], r.x) && mat(j["P"], r.P); }
    template<typename T> static std::string out(const T& x) { std::ostringstream o; o << x; return o.str(); }
    void text(const std::vector<ref::Track>& post) {
        Json j; std::string s = out(*trk);
        bool ok = JsonParser::parse(s, j);
        MC_CHECK("C23", ok, "%s: the tracker prints as %.300s, which is not JSON", log.c_str(), s.c_str());
        MC_CHECK("C23", lmb::print(*trk) == s, "%s: print and << differ", log.c_str());
        if (ok) {
            MC_CHECK("C23", j["targets"].k == Json::ARR && j["targets"].a.size() == post.size(), "%s: %zu tracks printed of %zu", log.c_str(), j["targets"].a.size(), post.size());
            for (size_t k = 0; k < post.size() && k < j["targets"].a.size(); ++k) MC_CHECK("C23", track(j["targets"].a[k], post[k]), "%s: track %u prints as %.400s", log.c_str(), post[k].id, out(*trk->targettree.targets[k]).c_str());
        }
        auto ts = trk->get_targets();
        for (auto& t : ts) {
            std::string q = lmb::print(t); Json k;
            bool good = JsonParser::parse(q, k) && k["type"].s == "T" && k["id"].n == t.id && num(k["w"], t.w, 6e-6) && mat(k["x"], t.x) && mat(k["P"], t.P);
            MC_CHECK("C23", good, "%s: the track summary prints as %.400s", log.c_str(), q.c_str());
        }
        {
            std::string q = out(last); Json k; bool good = JsonParser::parse(q, k) && k.k == Json::ARR && k.a.size() == last.size();
            for (size_t i = 0; good && i < last.size(); ++i) good = report(k.a[i], last[i]);
            MC_CHECK("C23", good, "%s: the scan prints as %.400s", log.c_str(), q.c_str());
        }
        {
            std::vector<Rep*> rs; for (auto& r : last) rs.push_back(&r);
            lmb::Cluster_<Rep, Target> c(3, rs, trk->targettree.targets, &trk->params);
            std::string q = out(c); Json k; bool good = JsonParser::parse(q, k) && k["type"].s == "CL" && k["R"].a.size() == rs.size() && k["T"].a.size() == post.size();
            for (size_t i = 0; good && i < rs.size(); ++i) good = report(k["R"].a[i], last[i]);
            for (size_t i = 0; good && i < post.size(); ++i) good = track(k["T"].a[i], post[i]);
            MC_CHECK("C23", good, "%s: the cluster prints as %.400s", log.c_str(), q.c_str());
        }
        for (size_t i = 0; i < post.size(); ++i) {
            auto& b = trk->targettree.targets[i]->pdf.bbox; std::string q = out(b); Json k;
            MC_CHECK("C23", JsonParser::parse(q, k) && k["type"].s == "BBox" && mat(k["c"], b.corners), "%s: the box prints as %.300s", log.c_str(), q.c_str());
        }
        mc::transition(3 + ts.size() + post.size());
    }
};
#include "h_hist_fam.hpp"
int main(int argc, char** argv) { return mc::main_(argc, argv, reg); }
