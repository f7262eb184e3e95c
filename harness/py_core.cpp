// The core reached directly, for the objects the lmb Python module creates:
// what an attribute or method of the module is compared with.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <Eigen/Core>
#include <cmath>
#include <string>
#include <vector>
#include "lmb.hpp"
#include "gaussian.hpp"
#include "gm.hpp"
#include "pf.hpp"
#include "models.hpp"
#include "params.hpp"
#include "sensors.hpp"
namespace py = pybind11;
typedef lmb::SILMB<lmb::GM<4>> Tracker; typedef lmb::PositionSensor<Tracker::Target> Sensor; typedef lmb::GaussianReport_<2> Report;
typedef lmb::TargetSummary_<4> Summary; typedef lmb::NM<Tracker::Target> NM; typedef lmb::CV<Tracker::Target> CV; typedef std::vector<double> V;
template<class M> static void put(V& v, const M& m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) v.push_back(m(i, j)); }
static V params(const lmb::Params& p) { return {p.w_lim, p.r_lim, p.nhyp_max, p.rB_max, p.nstd, p.cw_lim, p.cov_lim, p.tscale}; }
static V bbox(const lmb::BBox& b) { V v; put(v, b.corners); return v; }
static V aabbox(const lmb::AABBox& b) { return {b.min[0], b.min[1], b.max[0], b.max[1]}; }
static V sensor(const Sensor& s) { V v = bbox(s.fov); put(v, s.pv); v.push_back(s.lambdaB); v.push_back(s.pD_); v.push_back(s.kappa_); return v; }
static V nm(const NM& m) { V v{m.pS}; put(v, m.Q); return v; }
static V cv(const CV& m) { return {m.pS, m.q}; }
static V gaussian(const lmb::Gaussian_<4>& g) { V v{g.w}; put(v, g.x); put(v, g.P); return v; }
static V summary(const Summary& t) { V v; put(v, t.x); put(v, t.P); v.push_back(t.w); v.push_back(t.r); v.push_back(t.id); v.push_back(t.cid); return v; }
static V report(const Report& r) { V v; put(v, r.x); put(v, r.P); v.push_back(r.kappa); v.push_back(r.cid); return v; }
static V tracker(const Tracker& t) {
    V v = params(t.params); v.push_back(t.nof_clusters);
    for (auto* c : {&t.cluster_ntargets, &t.cluster_nreports, &t.cluster_nhyps}) { v.push_back(c->size()); for (int k : *c) v.push_back(k); }
    auto ts = t.targettree.targets; std::sort(ts.begin(), ts.end(), [](auto a, auto b) { return a->id < b->id; });
    v.push_back(ts.size()); for (auto p : ts) { v.push_back(p->id); v.push_back(p->cid); v.push_back(p->r); v.push_back(p->pdf.c.size()); for (auto& c : p->pdf.c) { auto g = gaussian(c); v.insert(v.end(), g.begin(), g.end()); } }
    return v;
}
static std::vector<V> summaries(const std::vector<Summary>& s) { std::vector<V> r; for (auto& t : s) r.push_back(summary(t)); return r; }
static std::vector<V> reports(const std::vector<Report>& s) { std::vector<V> r; for (auto& t : s) r.push_back(report(t)); return r; }
template<class T> static std::string text(const T& o) { std::ostringstream s; o.repr(s); return s.str(); }

PYBIND11_MODULE(core, m) {
    m.def("params", &params); m.def("bbox", &bbox); m.def("aabbox", &aabbox); m.def("sensor", &sensor); m.def("nm", &nm); m.def("cv", &cv); m.def("gaussian", &gaussian);
    m.def("summary", &summary); m.def("report", &report); m.def("tracker", &tracker);
    // a tracker and settings made by the core alone
    m.def("set_params", [](Tracker& t, const V& p) { double* f[] = {&t.params.w_lim, &t.params.r_lim, &t.params.nhyp_max, &t.params.rB_max, &t.params.nstd, &t.params.cw_lim, &t.params.cov_lim, &t.params.tscale}; for (int k = 0; k < 8; ++k) *f[k] = p[k]; });
    m.def("scan", [](Tracker& t, const V& s, const std::vector<V>& zs, double time) {
        Sensor q; for (int k = 0; k < 8; ++k) q.fov.corners(k % 2, k / 2) = s[k]; q.pv << s[8], s[10], s[9], s[11]; q.lambdaB = s[12]; q.pD_ = s[13]; q.kappa_ = s[14];
        std::vector<Report> r; for (auto& z : zs) { Eigen::Matrix2d P; P << z[2], z[4], z[3], z[5]; r.emplace_back(Eigen::Vector2d(z[0], z[1]), P, z[6]); }
        t.correct(q, r, time); return reports(r); });
    m.def("predict_nm", [](Tracker& t, double pS, const Eigen::Matrix4d& Q, double a, double b) { NM n(pS, Q); t.predict(n, a, b); });
    m.def("predict_cv", [](Tracker& t, double pS, double q, double a, double b) { CV n(pS, q); t.predict(n, a, b); });
    m.def("targets", [](Tracker& t) { return summaries(t.get_targets()); });
    m.def("targets_in", [](Tracker& t, const V& b) { return summaries(t.get_targets(lmb::AABBox(b[0], b[1], b[2], b[3]))); });
    m.def("enof", [](Tracker& t) { return t.enof_targets(); });
    m.def("enof_in", [](Tracker& t, const V& b) { return t.enof_targets(lmb::AABBox(b[0], b[1], b[2], b[3])); });
    m.def("nof", [](Tracker& t, double r) { return t.nof_targets(r); });
    m.def("nof_in", [](Tracker& t, const V& b, double r) { return t.nof_targets(lmb::AABBox(b[0], b[1], b[2], b[3]), r); });
    m.def("phd", [](Tracker& t, const V& b, int x, int y) { return t.pos_phd(lmb::AABBox(b[0], b[1], b[2], b[3]), Eigen::Array2i(x, y)); });
    m.def("ospa", [](Tracker& t, const std::vector<Eigen::Vector4d>& s, double c, double p) { return t.ospa(s, c, p); });
    m.def("gospa", [](Tracker& t, const std::vector<Eigen::Vector4d>& s, double c, double p) { return t.gospa(s, c, p); });
    // boxes
    m.def("bbox_of_aabbox", [](const V& b) { return bbox(lmb::BBox(lmb::AABBox(b[0], b[1], b[2], b[3]))); });
    m.def("bbox_from_gaussian", [](const Eigen::Vector2d& x, const Eigen::Matrix2d& P, double n) { lmb::BBox b; b.from_gaussian(x, P, n); return bbox(b); });
    m.def("bbox_ne", [](const lmb::BBox& b, const cf::LL& o) { return bbox(b.nebbox(o)); });
    m.def("bbox_aa", [](const lmb::BBox& b) { return aabbox(b.aabbox()); });
    m.def("bbox_text", [](const lmb::BBox& b) { return text(b); });
    m.def("aabbox_ll", [](const lmb::AABBox& b, const cf::LL& o) { return aabbox(b.llaabbox(o)); });
    m.def("aabbox_ne", [](const lmb::AABBox& b, const cf::LL& o) { return aabbox(b.neaabbox(o)); });
    m.def("default_region", [] { return aabbox(lmb::AABBox()); });
    m.def("aabbox_text", [](const lmb::AABBox& b) { return text(b); });
    m.def("gaussian_text", [](const lmb::Gaussian_<4>& b) { return text(b); });
    m.def("summary_ne", [](const Summary& b, const cf::LL& o, double n) { return bbox(b.nebbox(o, n)); });
    m.def("summary_text", [](const Summary& b) { return text(b); });
    m.def("report_ne", [](const Report& b, const cf::LL& o, double n) { return bbox(b.nebbox(o, n)); });
    m.def("report_text", [](const Report& b) { return text(b); });
    // what a program prints, for the reader in clmb.py
    m.def("gm_text", [](const std::vector<V>& cs, double r, unsigned id, unsigned cid, const std::string& a) {
        lmb::Params q; lmb::Target_<lmb::GM<4>> t; t.pdf.params = &q; t.r = r; t.id = id; t.cid = cid; t.last_action = lmb::Action(a[0]);
        for (auto& c : cs) { Eigen::Vector4d x; Eigen::Matrix4d P; for (int k = 0; k < 4; ++k) x[k] = c[1 + k]; for (int k = 0; k < 16; ++k) P(k % 4, k / 4) = c[5 + k]; t.pdf.c.emplace_back(x, P, c[0]); }
        return text(t); });
    m.def("pf_text", [](const V& w, const V& x, double r, unsigned id, unsigned cid, const std::string& a) {
        typedef lmb::PF<4, 4> PF; lmb::Params q; lmb::Target_<PF> t{}; t.r = r; t.id = id; t.cid = cid; t.last_action = lmb::Action(a[0]); auto& f = t.pdf; f.params = &q; f.w.resize(1, w.size()); f.x.resize(4, w.size());
        for (size_t k = 0; k < w.size(); ++k) { f.w[k] = w[k]; for (int i = 0; i < 4; ++i) f.x(i, k) = x[4 * k + i]; }
        return text(t); });
    m.def("tracker_local", [](Tracker& t, const cf::LL& o) { for (auto* x : t.targettree.targets) x->transform_to_local(o); auto s = text(t); V v; auto& ts = t.targettree.targets; v.push_back(ts.size());
        for (auto* p : ts) { v.push_back(p->id); v.push_back(p->cid); v.push_back(char(p->last_action)); v.push_back(p->r); v.push_back(p->pdf.c.size()); for (auto& c : p->pdf.c) { auto g = gaussian(c); v.insert(v.end(), g.begin(), g.end()); } }
        for (auto* x : t.targettree.targets) x->transform_to_global(); return std::make_pair(s, v); });
    // coordinates
    typedef const Eigen::Vector3d& A; typedef const Eigen::Vector2d& B; typedef Eigen::Vector3d R3; typedef Eigen::Vector2d R2;
    m.def("nedrot", [](A a) -> Eigen::Matrix3d { return cf::nedrot(a); }); m.def("nerot", [](B a) -> Eigen::Matrix<double, 2, 3> { return cf::nerot(a); });
    m.def("lla2ecef", [](A a) -> R3 { return cf::lla2ecef(a); }); m.def("ll2ecef", [](B a) -> R3 { return cf::ll2ecef(a); });
    m.def("ecef2ned", [](A a, A o) -> R3 { return cf::ecef2ned(a, o); }); m.def("ecef2ne", [](A a, B o) -> R2 { return cf::ecef2ne(a, o); });
    m.def("lla2ned", [](A a, A o) -> R3 { return cf::lla2ned(a, o); }); m.def("ll2ne", [](B a, B o) -> R2 { return cf::ll2ne(a, o); });
    m.def("ecef2lla", [](A a) -> R3 { return cf::ecef2lla(a); }); m.def("ecef2ll", [](A a) -> R2 { return cf::ecef2ll(a); });
    m.def("ned2ecef", [](A a, A o) -> R3 { return cf::ned2ecef(a, o); }); m.def("ne2ecef", [](B a, B o) -> R3 { return cf::ne2ecef(a, o); });
    m.def("ned2lla", [](A a, A o) -> R3 { return cf::ned2lla(a, o); }); m.def("ne2ll", [](B a, B o) -> R2 { return cf::ne2ll(a, o); });
}
