// C14 coordinate frames, C15 covariance boxes, C16 box geometry: the real cf/bbox/gm/report
// code against separately written geometry.
#include "mc.hpp"
#include "ref.hpp"
#include <Eigen/Dense>
#include "bbox.hpp"
#include "cf.hpp"
#include "gm.hpp"
#include "lmb.hpp"
using mc::pick;
typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix2d M2; typedef Eigen::Matrix4d M4; typedef Eigen::Matrix3d M3;
typedef long double L;
const L A = 6378137.0L, Fl = 1 / 298.257223563L, E2 = Fl * (2 - Fl), PI = 3.14159265358979323846264338327950288L, D2R = PI / 180;
struct P3 { L x, y, z; };
static P3 ecef(L lat, L lon, L h) {
    L s = sinl(lat * D2R), c = cosl(lat * D2R), n = A / sqrtl(1 - E2 * s * s);
    return {(n + h) * c * cosl(lon * D2R), (n + h) * c * sinl(lon * D2R), (n * (1 - E2) + h) * s};
}
static L dist(const P3& p, const V3& q) { return sqrtl((p.x - q[0]) * (p.x - q[0]) + (p.y - q[1]) * (p.y - q[1]) + (p.z - q[2]) * (p.z - q[2])); }
static void geodetic(const P3& p, L& lat, L& lon, L& h) {
    L w = hypotl(p.x, p.y), la = atan2l(p.z, w * (1 - E2));
    for (int k = 0; k < 200; ++k) { L s = sinl(la), n = A / sqrtl(1 - E2 * s * s), hh = w / cosl(la) - n; (void)hh; L l2 = atan2l(p.z + E2 * n * s, w); L d = fabsl(l2 - la); la = l2; if (d < 1e-19L) break; }
    L s = sinl(la), c = cosl(la), n = A / sqrtl(1 - E2 * s * s);
    lat = la / D2R; lon = atan2l(p.y, p.x) / D2R; h = fabsl(c) > .5L ? w / c - n : p.z / s - n * (1 - E2);
}
static void axes(L lat, L lon, P3& n, P3& e, P3& d) {
    L a = lat * D2R, o = lon * D2R;
    n = {-sinl(a) * cosl(o), -sinl(a) * sinl(o), cosl(a)}; e = {-sinl(o), cosl(o), 0}; d = {-cosl(a) * cosl(o), -cosl(a) * sinl(o), -sinl(a)};
}
static L dot(const P3& a, const P3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static L w2(const P3& p) { return (p.x * p.x + p.y * p.y) / dot(p, p); }
static L wrap(L d) { while (d > 180) d -= 360; while (d < -180) d += 360; return d; }

static std::vector<double> lats(bool th) {
    std::vector<double> v;
    for (double l = -88; l <= 88; l += th ? .5 : 2) v.push_back(l);
    for (double l : {0., 1e-9, -1e-9, 56.7, 56.9, 57.1, -56.7, -56.9, -57.1, 44.999, 88., -88., 58.3887657}) v.push_back(l);
    return v;
}
static std::vector<double> lons(bool th) { std::vector<double> v; for (double l = -180; l <= 180; l += th ? 2.5 : 7.5) v.push_back(l); for (double l : {1e-9, -1e-9, 89.9, 90.1, -90.1, 179.9, -179.9, 15.6965082}) v.push_back(l); return v; }

static void fam_cf() {
    bool th = mc::thorough();
    static auto LA = lats(th), LO = lons(th);
    static const std::vector<double> AL = {0, -5000, -100, 1, 1000, 10000, 400000};
    // single points
    mc::family("point", (uint64_t)LA.size() * LO.size() * AL.size(), [] {
        double la = LA[pick(LA.size())], lo = LO[pick(LO.size())], h = AL[pick(AL.size())];
        P3 e = ecef(la, lo, h); V3 lla(la, lo, h); V2 ll(la, lo);
        V3 g = cf::lla2ecef(lla);
        MC_CHECK("C14", dist(e, g) < 1e-7, "(%.10g, %.10g, %g) is (%.9g, %.9g, %.9g) earth-centred, exact (%.9Lg, %.9Lg, %.9Lg)", la, lo, h, g[0], g[1], g[2], e.x, e.y, e.z);
        V3 b = cf::ecef2lla(g); V2 b2 = cf::ecef2ll(g);
        L mlat = (A + h) * D2R, mlon = mlat * cosl(la * D2R);
        auto close = [&](double x, double y) { return fabsl((x - la) * mlat) < 1e-5 && fabsl(wrap(y - lo) * mlon) < 1e-5; };
        MC_CHECK("C14", close(b[0], b[1]) && std::fabs(b[2] - h) < 1e-4, "(%.10g, %.10g, %g) comes back as (%.12g, %.12g, %.9g)", la, lo, h, b[0], b[1], b[2]);
        MC_CHECK("C14", close(b2[0], b2[1]), "(%.10g, %.10g, %g) comes back as (%.12g, %.12g) in two dimensions", la, lo, h, b2[0], b2[1]);
        MC_CHECK("C14", b[1] >= -180 && b[1] <= 180 && b[0] >= -90 && b[0] <= 90, "(%.10g, %.10g) comes back out of range", la, lo);
        // axes
        P3 n, ea, d; axes(la, lo, n, ea, d);
        M3 R = cf::nedrot(lla); auto R2 = cf::nerot(ll);
        M3 X; X << (double)n.x, (double)n.y, (double)n.z, (double)ea.x, (double)ea.y, (double)ea.z, (double)d.x, (double)d.y, (double)d.z;
        MC_CHECK("C14", (R - X).norm() < 1e-14, "axes at (%.10g, %.10g) are not north, east, down", la, lo);
        MC_CHECK("C14", (R * R.transpose() - M3::Identity()).norm() < 1e-14 && std::fabs(R.determinant() - 1) < 1e-14, "axes at (%.10g, %.10g) are not orthonormal", la, lo);
        MC_CHECK("C14", (R2 - R.topRows<2>()).norm() < 1e-15, "two-dimensional axes at (%.10g, %.10g)", la, lo);
        MC_CHECK("C14", cf::lla2ned(lla, lla).norm() < 1e-8 && cf::ll2ne(ll, ll).norm() < 1e-8, "origin (%.10g, %.10g) does not map to zero", la, lo);
        V3 o = cf::ned2lla(V3(0, 0, 0), lla); V2 o2 = cf::ne2ll(V2(0, 0), ll);
        MC_CHECK("C14", close(o[0], o[1]) && std::fabs(o[2] - h) < 1e-4 && close(o2[0], o2[1]), "zero at (%.10g, %.10g) does not map to the origin", la, lo);
        if (h == 0) MC_CHECK("C14", (cf::ll2ecef(ll) - g).norm() < 1e-8, "two-dimensional earth-centred coordinates at (%.10g, %.10g)", la, lo);
        mc::transition(8); mc::state(mc::Hasher().add(la).add(lo).add(h).h); mc::describe("(%g, %g, %g)", la, lo, h);
        mc::outcome(fabsl(w2(e)) > .3L ? "near the equator" : "near the poles");
    });
    // offsets from an origin
    static const std::vector<double> OF = {0, 1, -1, 250, -250, 3000, -3000, 20000};
    static const std::vector<double> DN = {0, -40, 500, 7000};
    static auto LB = [] { std::vector<double> v; for (double l = -80; l <= 80; l += 20) v.push_back(l); v.push_back(56.85); v.push_back(-56.85); v.push_back(58.3887657); v.push_back(85); return v; }();
    static auto LC = [] { std::vector<double> v; for (double l = -165; l <= 175; l += 40) v.push_back(l); v.push_back(0); v.push_back(90); v.push_back(-90); v.push_back(15.6965082); return v; }();
    mc::family("offset", (uint64_t)LB.size() * LC.size() * 3 * OF.size() * OF.size() * DN.size(), [] {
        double la = LB[pick(LB.size())], lo = LC[pick(LC.size())]; static const double H[] = {0, 120, -30}; double h = pick(H); double n = OF[pick(OF.size())], e = OF[pick(OF.size())], d = DN[pick(DN.size())];
        V3 o(la, lo, h), ned(n, e, d); P3 c = ecef(la, lo, h), an, ae, ad; axes(la, lo, an, ae, ad);
        P3 p = {c.x + an.x * n + ae.x * e + ad.x * d, c.y + an.y * n + ae.y * e + ad.y * d, c.z + an.z * n + ae.z * e + ad.z * d};
        V3 g = cf::ned2ecef(ned, o);
        MC_CHECK("C14", dist(p, g) < 1e-7, "(%g, %g, %g) from (%g, %g, %g) is off by %Lg m earth-centred", n, e, d, la, lo, h, dist(p, g));
        MC_CHECK("C14", (cf::ecef2ned(g, o) - ned).norm() < 1e-7, "(%g, %g, %g) from (%g, %g, %g) does not come back from earth-centred", n, e, d, la, lo, h);
        L xlat, xlon, xh; geodetic(p, xlat, xlon, xh);
        V3 lla = cf::ned2lla(ned, o);
        L mlat = A * D2R, mlon = mlat * cosl(xlat * D2R);
        MC_CHECK("C14", fabsl((lla[0] - xlat) * mlat) < 1e-5 && fabsl(wrap(lla[1] - xlon) * mlon) < 1e-5 && fabsl(lla[2] - xh) < 1e-4, "(%g, %g, %g) from (%g, %g, %g) is (%.12g, %.12g, %.9g), exact (%.12Lg, %.12Lg, %.9Lg)", n, e, d, la, lo, h, lla[0], lla[1], lla[2], xlat, xlon, xh);
        MC_CHECK("C14", (cf::lla2ned(lla, o) - ned).norm() < 2e-4, "(%g, %g, %g) from (%g, %g, %g) comes back as (%.9g, %.9g, %.9g)", n, e, d, la, lo, h, cf::lla2ned(lla, o)[0], cf::lla2ned(lla, o)[1], cf::lla2ned(lla, o)[2]);
        if (h == 0 && d == 0) {   // two dimensions: on the surface
            V2 ol(la, lo), ne(n, e);
            V2 ll = cf::ne2ll(ne, ol);     // the foot point of the tangent-plane point
            MC_CHECK("C14", fabsl((ll[0] - xlat) * mlat) < 1e-5 && fabsl(wrap(ll[1] - xlon) * mlon) < 1e-5, "(%g, %g) from (%g, %g) is (%.12g, %.12g), exact (%.12Lg, %.12Lg)", n, e, la, lo, ll[0], ll[1], xlat, xlon);
            V3 ec = cf::ne2ecef(ne, ol); P3 foot = ecef(xlat, xlon, 0);
            MC_CHECK("C14", dist(foot, ec) < 1e-5, "(%g, %g) from (%g, %g) is not on the surface below the tangent plane (%Lg m)", n, e, la, lo, dist(foot, ec));
            P3 df = {foot.x - c.x, foot.y - c.y, foot.z - c.z}; V2 ne2((double)dot(df, an), (double)dot(df, ae));
            V2 xll((double)xlat, (double)xlon);
            MC_CHECK("C14", (cf::ll2ne(xll, ol) - ne2).norm() < 1e-6, "(%.10g, %.10g) is (%.9g, %.9g) from (%g, %g), exact (%.9g, %.9g)", xll[0], xll[1], cf::ll2ne(xll, ol)[0], cf::ll2ne(xll, ol)[1], la, lo, ne2[0], ne2[1]);
            double r = std::hypot(n, e); double tol = 1e-5 + r * r * r / (double)(A * A);
            MC_CHECK("C14", (cf::ll2ne(ll, ol) - ne).norm() < tol, "(%g, %g) from (%g, %g) and back is (%.9g, %.9g)", n, e, la, lo, cf::ll2ne(ll, ol)[0], cf::ll2ne(ll, ol)[1]);
            MC_CHECK("C14", (cf::ll2ne(ll, ol) - cf::lla2ned(V3(ll[0], ll[1], 0), V3(la, lo, 0)).head<2>()).norm() < 1e-7, "two- and three-dimensional local coordinates differ");
            // in place, in vectors and matrix columns; the other components stay
            V4 s; s << ne, 7, -8; cf::ne2ll_i(s, ol); MC_CHECK("C14", (s.head<2>() - ll).norm() < 1e-11 && s[2] == 7 && s[3] == -8, "in-place conversion of a state differs");
            cf::ll2ne_i(s, ol); MC_CHECK("C14", (s.head<2>() - cf::ll2ne(ll, ol)).norm() < 1e-6 && s[2] == 7 && s[3] == -8, "in-place conversion of a state to local coordinates differs");
            Eigen::Matrix<double, 4, 3> m; m.setConstant(5); m.col(1).head<2>() = ne; cf::ne2ll_i(m.col(1).head<2>(), ol);
            bool rest = true; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) if (j != 1 || i > 1) rest &= m(i, j) == 5;
            MC_CHECK("C14", rest && (m.col(1).head<2>() - ll).norm() < 1e-11, "in-place conversion of a column differs");
            cf::ll2ne_i(m.col(1).head<2>(), ol); MC_CHECK("C14", (m.col(1).head<2>() - cf::ll2ne(ll, ol)).norm() < 1e-6, "in-place conversion of a column to local coordinates differs");
            mc::transition(8);
        }
        mc::transition(4); mc::state(mc::Hasher().add(la).add(lo).add(h).add(n).add(e).add(d).h); mc::describe("(%g, %g, %g) from (%g, %g, %g)", n, e, d, la, lo, h); mc::outcome("offset");
    });
}

// ---- C15
static M2 cov2(double a, double ratio, double ang) { double c = std::cos(ang), s = std::sin(ang); M2 R; R << c, -s, s, c; M2 D = M2::Zero(); D(0, 0) = a; D(1, 1) = a * ratio; M2 P = R * D * R.transpose(); P(0, 1) = P(1, 0) = (P(0, 1) + P(1, 0)) / 2; return P; }
static void fam_gauss_box() {
    bool th = mc::thorough();
    unsigned na = th ? 48 : 24;
    static const double SC[] = {1, 1e-10, 1e-3, 25, 1e6}; static const double RT[] = {1, 1.0000001, 1.5, 4, 100, 1e4, 1e6}; static const double NS[] = {2, 1, 3, .5};
    static const V2 X[] = {V2(0, 0), V2(3, -7), V2(58.4, 15.7), V2(-1e4, 2e3)};
    mc::family("ellipse", 5ull * 7 * na * 4 * 4, [=] {
        double sc = pick(SC), rt = pick(RT), ang = pick(na) * M_PI / na; double ns = pick(NS); V2 x = pick(X);
        M2 P = cov2(sc, rt, ang); double big = ns * std::sqrt(sc * rt), eps = 1e-9 * big + 1e-14 * x.cwiseAbs().maxCoeff();
        double hx = ns * std::sqrt(P(0, 0)), hy = ns * std::sqrt(P(1, 1));
        auto aa = [&](const char* w, const lmb::AABBox& b, const V2& x) {
            MC_CHECK("C15", std::fabs(b.min[0] - (x[0] - hx)) < eps && std::fabs(b.max[0] - (x[0] + hx)) < eps && std::fabs(b.min[1] - (x[1] - hy)) < eps && std::fabs(b.max[1] - (x[1] + hy)) < eps,
                "%s of P=[%.9g %.9g %.9g] at %g sigma is [%.12g %.12g]x[%.12g %.12g] around (%g, %g), half-widths should be %.12g, %.12g", w, P(0, 0), P(0, 1), P(1, 1), ns, b.min[0], b.max[0], b.min[1], b.max[1], x[0], x[1], hx, hy); };
        auto ob = [&](const char* w, const lmb::BBox& b, const V2& x) {
            auto& c = b.corners; V2 m = (c.col(0) + c.col(1) + c.col(2) + c.col(3)) / 4, u = (c.col(0) - c.col(1)) / 2, v = (c.col(0) - c.col(3)) / 2;
            MC_CHECK("C15", (m - x).norm() < eps && (c.col(0) + c.col(2) - 2 * x).norm() < eps && (c.col(1) + c.col(3) - 2 * x).norm() < eps, "%s of P=[%.9g %.9g %.9g] is not centred on (%g, %g)", w, P(0, 0), P(0, 1), P(1, 1), x[0], x[1]);
            M2 Q = u * u.transpose() + v * v.transpose();
            MC_CHECK("C15", std::fabs(u.dot(v)) < 1e-9 * big * std::max(u.norm(), v.norm()) + eps * big && (Q - ns * ns * P).norm() < 2 * eps * big, "%s of P=[%.9g %.9g %.9g] at %g sigma has half-sides (%.9g %.9g), (%.9g %.9g): not the principal axes", w, P(0, 0), P(0, 1), P(1, 1), ns, u[0], u[1], v[0], v[1]); };
        aa("axis-aligned box", lmb::AABBox(x, P, ns), x); aa("axis-aligned box around zero", lmb::AABBox(P, ns), V2(0, 0));
        { lmb::AABBox b; b.from_gaussian(x, P, ns); aa("from_gaussian", b, x); lmb::AABBox c(b), d; d = b; aa("copy", c, x); aa("assigned copy", d, x); }
        ob("oriented box", lmb::BBox(x, P, ns), x); ob("oriented box around zero", lmb::BBox(M2(P), ns), V2(0, 0));
        V4 x4; x4 << x, 1, 2; M4 P4 = M4::Identity(); P4.topLeftCorner<2, 2>() = P; P4(0, 3) = P4(3, 0) = .1;
        lmb::Gaussian_<4> g(x4, P4); aa("a Gaussian's axis-aligned box", g.aabbox(ns), x); ob("a Gaussian's oriented box", g.bbox(ns), x);
        if (ns == 2) { aa("a Gaussian's default box", g.aabbox(), x); ob("a Gaussian's default oriented box", g.bbox(), x); aa("default box", lmb::AABBox(x, P), x); ob("default oriented box", lmb::BBox(x, P), x); }
        lmb::GaussianReport_<2> r(x, P, 1.); aa("a report's local box", r.aabbox(ns), x);
        mc::transition(8); mc::state(mc::Hasher().add(P(0, 0)).add(P(0, 1)).add(ns).add(x[0]).h); mc::describe("P=[%g %g %g] %g sigma at (%g, %g)", P(0, 0), P(0, 1), P(1, 1), ns, x[0], x[1]); mc::outcome(rt == 1 ? "isotropic" : "anisotropic");
    });
    // stored boxes of mixtures and reports, in latitude and longitude
    static const V2 O[] = {V2(58.3887657, 15.6965082), V2(-33.9, 151.2), V2(0.01, -100), V2(64, -30), V2(-58, -70)};
    static const double OFF[][2] = {{0, 0}, {30, -10}, {-200, 150}};
    unsigned nang = th ? 6 : 3;
    mc::family("stored", 5ull * 3 * (mc::ipow(3 * nang * 2, 2)) * 3 * 3 * 2, [=] {
        V2 o = pick(O); unsigned n = 1 + pick(3); struct K { V2 x; M2 P; double w; }; std::vector<K> k;
        unsigned d[2] = {pick(3 * nang * 2), pick(3 * nang * 2)}; unsigned third = pick(3); static const double NS[] = {2, 1, 3}; double ns = pick(NS); unsigned light = pick(2);
        static const double W[6][3] = {{1, 0, 0}, {.7, .3, 0}, {.5, .3, .2}, {1e-3, 0, 0}, {.996, .004, 0}, {1e-5, .98999, .01}};
        for (unsigned i = 0; i < n; ++i) { unsigned q = i < 2 ? d[i] : third * nang; auto& of = OFF[q % 3]; q /= 3; double ang = (q % nang) * M_PI / nang; q /= nang; k.push_back({V2(of[0] + i, of[1] - 2. * i), cov2(i == 1 ? 1 : 20, q % 2 ? 30 : 1, ang), W[n - 1 + 3 * light][i]}); }
        if (n == 1 && (d[1] || third || light)) { return; }
        if (n == 2 && third) { return; }
        lmb::Params p; p.nstd = ns; lmb::GM<4> g(&p);
        for (auto& c : k) { V4 x; x << cf::ne2ll(c.x, o), .5, -1; M4 P = M4::Identity(); P.topLeftCorner<2, 2>() = c.P; g.c.emplace_back(x, P, c.w); }
        g.transform_to_local(); g.transform_to_global();
        // expected: the union of the boxes of the components, about the mean
        L mlat, mlon; { L s = sinl(o[0] * D2R), q = 1 - E2 * s * s; mlat = A * (1 - E2) / powl(q, 1.5L) * D2R; mlon = A / sqrtl(q) * cosl(o[0] * D2R) * D2R; }
        double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; double far = 0;
        for (auto& c : k) for (int a = 0; a < 2; ++a) { double h = ns * std::sqrt(c.P(a, a)); lo[a] = std::min(lo[a], c.x[a] - h); hi[a] = std::max(hi[a], c.x[a] + h); far = std::max({far, std::fabs(lo[a]), std::fabs(hi[a])}); }
        double tol = .002 + 3 * far * far / 6.3e6;
        auto b = g.llaabbox(); double got[4] = {(double)((b.min[0] - o[0]) * mlat), (double)((b.min[1] - o[1]) * mlon), (double)((b.max[0] - o[0]) * mlat), (double)((b.max[1] - o[1]) * mlon)};
        double t2 = tol + far * far * std::tan(std::fabs(o[0]) * M_PI / 180) / 6.3e6 * 3;
        MC_CHECK("C15", std::fabs(got[0] - lo[0]) < t2 && std::fabs(got[1] - lo[1]) < t2 && std::fabs(got[2] - hi[0]) < t2 && std::fabs(got[3] - hi[1]) < t2, "stored box of %u components at (%g, %g): [%.6g %.6g]x[%.6g %.6g] m, should be [%.6g %.6g]x[%.6g %.6g]", n, o[0], o[1], got[0], got[2], got[1], got[3], lo[0], hi[0], lo[1], hi[1]);
        MC_CHECK("C15", b.min[0] == g.aabbox.min[0] && b.max[1] == g.aabbox.max[1], "llaabbox is not the stored box");
        // the oriented box of the mixture: from its overall position and covariance
        V2 m = V2::Zero(); double ws = 0; for (auto& c : k) { m += c.w * c.x; ws += c.w; } M2 Q = M2::Zero(); for (auto& c : k) Q += c.w * (c.P + (c.x - m) * (c.x - m).transpose());
        Eigen::Matrix<double, 2, 4> q; for (int i = 0; i < 4; ++i) q.col(i) << (double)((g.bbox.corners(0, i) - o[0]) * mlat), (double)((g.bbox.corners(1, i) - o[1]) * mlon);
        V2 mm = q.rowwise().mean(), u = (q.col(0) - q.col(1)) / 2, v = (q.col(0) - q.col(3)) / 2;
        double big = ns * std::sqrt(Q.norm()); 
        MC_CHECK("C15", (mm - m).norm() < t2 && (u * u.transpose() + v * v.transpose() - ns * ns * Q).norm() < 6 * t2 * big, "stored oriented box of %u components at (%g, %g) has centre (%g, %g) and half-sides (%g %g), (%g %g)", n, o[0], o[1], mm[0], mm[1], u[0], u[1], v[0], v[1]);
        if (n == 1) {   // a report at the same place
            V2 x = cf::ne2ll(k[0].x, o); lmb::GaussianReport_<2> r(x, k[0].P, 1.); auto rb = r.llaabbox();
            double h0 = 2 * std::sqrt(k[0].P(0, 0)), h1 = 2 * std::sqrt(k[0].P(1, 1));
            double gr[4] = {(double)((rb.min[0] - x[0]) * mlat), (double)((rb.min[1] - x[1]) * mlon), (double)((rb.max[0] - x[0]) * mlat), (double)((rb.max[1] - x[1]) * mlon)};
            MC_CHECK("C15", std::fabs(gr[0] + h0) < t2 && std::fabs(gr[1] + h1) < t2 && std::fabs(gr[2] - h0) < t2 && std::fabs(gr[3] - h1) < t2, "a report's box is [%.6g %.6g]x[%.6g %.6g] m around it, should be +-%.6g, +-%.6g", gr[0], gr[2], gr[1], gr[3], h0, h1);
        }
        mc::transition(3); mc::state(mc::Hasher().add(got[0]).add(got[1]).add(got[2]).h); mc::describe("%u components at (%g, %g)", n, o[0], o[1]); mc::outcome(std::to_string(n) + " components");
    });
}

// ---- C16
typedef Eigen::Matrix<double, 2, 4> Q4;
// area of the intersection of two convex polygons
static std::vector<V2> poly(const Q4& q) { std::vector<V2> v; double a = 0; for (int i = 0; i < 4; ++i) { V2 p = q.col(i), r = q.col((i + 1) % 4); a += p[0] * r[1] - p[1] * r[0]; v.push_back(p); } if (a < 0) std::reverse(v.begin(), v.end()); return v; }
static double area(const std::vector<V2>& v) { double a = 0; for (size_t i = 0; i < v.size(); ++i) { auto& p = v[i]; auto& r = v[(i + 1) % v.size()]; a += p[0] * r[1] - p[1] * r[0]; } return a / 2; }
static std::vector<V2> clip(std::vector<V2> s, const std::vector<V2>& c) {
    for (size_t i = 0; i < c.size() && !s.empty(); ++i) {
        V2 a = c[i], e = c[(i + 1) % c.size()] - a; std::vector<V2> o;
        auto side = [&](const V2& p) { return e[0] * (p[1] - a[1]) - e[1] * (p[0] - a[0]); };
        for (size_t k = 0; k < s.size(); ++k) { V2 p = s[k], q = s[(k + 1) % s.size()]; double x = side(p), y = side(q); if (x >= 0) o.push_back(p); if ((x > 0 && y < 0) || (x < 0 && y > 0)) o.push_back(p + (q - p) * (x / (x - y))); }
        s.swap(o);
    }
    return s;
}
// distance between two convex polygons (0 when they meet)
static double segd(const V2& p, const V2& a, const V2& b) { V2 e = b - a; double t = std::max(0., std::min(1., (p - a).dot(e) / e.squaredNorm())); return (a + t * e - p).norm(); }
static double gap(const std::vector<V2>& a, const std::vector<V2>& b) { double d = 1e300; for (size_t i = 0; i < a.size(); ++i) for (auto& p : b) d = std::min(d, segd(p, a[i], a[(i + 1) % a.size()])); for (size_t i = 0; i < b.size(); ++i) for (auto& p : a) d = std::min(d, segd(p, b[i], b[(i + 1) % b.size()])); return d; }
static Q4 number(const Q4& q, unsigned k) { Q4 r; for (int i = 0; i < 4; ++i) r.col(i) = q.col(k < 4 ? (i + k) % 4 : (8 - i + k) % 4); return r; }
static Q4 rect(double cx, double cy, double w, double h, double ang) { double c = std::cos(ang), s = std::sin(ang); Q4 q; double X[] = {w, -w, -w, w}, Y[] = {h, h, -h, -h}; for (int i = 0; i < 4; ++i) q.col(i) << cx + c * X[i] - s * Y[i], cy + s * X[i] + c * Y[i]; return q; }
static std::string qs(const Q4& q) { char b[300]; snprintf(b, sizeof b, "{(%.12g,%.12g) (%.12g,%.12g) (%.12g,%.12g) (%.12g,%.12g)}", q(0, 0), q(1, 0), q(0, 1), q(1, 1), q(0, 2), q(1, 2), q(0, 3), q(1, 3)); return b; }
static void pair(const Q4& a, const Q4& b) {
    Q4 a0 = a, b0 = b; for (int k = 0; k < 4; ++k) { a0.col(k) -= a.col(0); b0.col(k) -= a.col(0); }   // exact: the boxes are small and far from zero
    auto pa = poly(a0), pb = poly(b0); auto in = clip(pa, pb); double ar = in.size() > 2 ? area(in) : 0; double sc = std::min(area(pa), area(pb)), len = std::sqrt(std::max(area(pa), area(pb)));
    int e = ar > 1e-7 * sc ? 1 : gap(pa, pb) > 1e-7 * len ? 0 : -1;
    lmb::BBox x(a), y(b); bool f = x.intersects(y), g = y.intersects(x);
    mc::transition(2);
    if (e < 0) { mc::outcome("touching"); mc::skip(); return; }
    MC_CHECK("C16", f == (e == 1), "%s %s %s: intersects() says %d", qs(a).c_str(), e ? "overlaps" : "is apart from", qs(b).c_str(), f);
    MC_CHECK("C16", g == (e == 1), "%s %s %s: asked the other way, intersects() says %d", qs(a).c_str(), e ? "overlaps" : "is apart from", qs(b).c_str(), g);
    mc::outcome(e ? "overlapping" : "apart");
}
static void fam_quads() {
    bool th = mc::thorough();
    // rectangles of any size, rotation and numbering against a reference one, in all positions on a grid
    static const double SZ[][2] = {{1, 1}, {3, .5}, {.4, 2.5}, {4, 4}, {.1, .1}}; unsigned nr = th ? 12 : 8;
    static const double SC[] = {1, 1e-5, 1e4};
    int G = th ? 13 : 9;
    mc::family("rects", 5ull * nr * 5 * nr * G * G * 3, [=] {
        auto a = pick(SZ), b = pick(SZ); double ra = pick(nr) * M_PI / nr, rb = pick(nr) * M_PI / nr; int gx = pick(G), gy = pick(G); double sc = pick(SC);
        double cx = (gx - G / 2) * 4.0 / (G / 2) + .013, cy = (gy - G / 2) * 4.0 / (G / 2) - .007;
        Q4 p = rect(.3 * sc, -.2 * sc, a[0] * sc, a[1] * sc, ra), q = rect(cx * sc, cy * sc, b[0] * sc, b[1] * sc, rb);
        if (sc == 1e-5) { p.row(0).array() += 58.4; q.row(0).array() += 58.4; p.row(1).array() += 15.7; q.row(1).array() += 15.7; }   // degrees
        pair(number(p, (gx + gy) % 8), number(q, (gx * 3 + gy) % 8));
        mc::state(mc::Hasher().add(a[0]).add(b[0]).add(ra).add(rb).add(cx).add(cy).add(sc).h); mc::describe("%s and %s", qs(p).c_str(), qs(q).c_str());
    });
    // all numberings of pairs of convex quadrilaterals with corners on a small grid
    static const std::vector<Q4> CQ = [] {
        std::vector<Q4> v; V2 P[9]; for (int i = 0; i < 9; ++i) P[i] = V2(i % 3, i / 3);
        for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) for (int c = 0; c < 9; ++c) for (int d = 0; d < 9; ++d) {
            if (a > b || a > c || a > d) continue;   // one numbering of each
            Q4 q; q << P[a], P[b], P[c], P[d]; bool ok = true;
            for (int i = 0; i < 4; ++i) { V2 e = q.col((i + 1) % 4) - q.col(i), f = q.col((i + 2) % 4) - q.col((i + 1) % 4); if (e[0] * f[1] - e[1] * f[0] <= 0) ok = false; }
            if (ok && area(poly(q)) > 0) v.push_back(q);
        }
        return v; }();
    int S = th ? 7 : 5;
    mc::family("quads", (uint64_t)CQ.size() * CQ.size() * S * S * 8, [=] {
        Q4 p = CQ[pick(CQ.size())], q = CQ[pick(CQ.size())]; double dx = ((int)pick(S) - S / 2) * .75, dy = ((int)pick(S) - S / 2) * .75; unsigned n = pick(8);
        q.row(0).array() += dx; q.row(1).array() += dy; unsigned m = (unsigned)(dx * 4 + dy * 8 + 64) % 8;
        pair(number(p, m), number(q, n));
        mc::state(mc::Hasher().add(p(0, 1)).add(p(1, 2)).add(q(0, 0)).add(q(1, 1)).add(q(0, 2)).h); mc::describe("%s and %s", qs(p).c_str(), qs(q).c_str());
    });
    // points
    mc::family("points", (uint64_t)CQ.size() * 8 * 4, [=] {
        Q4 base = CQ[pick(CQ.size())]; unsigned n = pick(8); static const double AN[] = {0, .3, 1.1, 2.5}; double an = pick(AN); M2 R; R << std::cos(an), -std::sin(an), std::sin(an), std::cos(an);
        Q4 q = number(R * base, n); lmb::BBox b(q); auto v = poly(q); auto bb = b.aabbox();
        for (int i = -4; i <= 12; ++i) for (int j = -4; j <= 12; ++j) {
            V2 p = R * V2(i * .25, j * .25); double s = 1e300; for (int k = 0; k < 4; ++k) { V2 e = v[(k + 1) % 4] - v[k], d = p - v[k]; s = std::min(s, (e[0] * d[1] - e[1] * d[0]) / e.norm()); }
            mc::transition();
            if (std::fabs(s) < 1e-9) continue;
            MC_CHECK("C16", b.within(p) == (s > 0), "(%g, %g) is %s %s: within() says %d", p[0], p[1], s > 0 ? "inside" : "outside", qs(q).c_str(), b.within(p));
            V4 p4; p4 << p, 3, 4; MC_CHECK("C16", b.within(p4) == (s > 0), "a state at (%g, %g) is %s %s", p[0], p[1], s > 0 ? "inside" : "outside", qs(q).c_str());
        }
        MC_CHECK("C16", bb.min[0] == q.row(0).minCoeff() && bb.max[0] == q.row(0).maxCoeff() && bb.min[1] == q.row(1).minCoeff() && bb.max[1] == q.row(1).maxCoeff(), "hull of %s is [%g %g]x[%g %g]", qs(q).c_str(), bb.min[0], bb.max[0], bb.min[1], bb.max[1]);
        lmb::AABBox fp; Eigen::Matrix<double, 2, Eigen::Dynamic> pts = q; fp.from_points(pts); MC_CHECK("C16", fp.min == bb.min && fp.max == bb.max, "from_points of %s is not its hull", qs(q).c_str());
        mc::state(mc::hash_bytes(q.data(), sizeof(double) * 8)); mc::describe("%s", qs(q).c_str()); mc::outcome("points");
    });
    // axis-aligned boxes: exact, touching included; with a quadrilateral, its hull decides
    static const double GV[] = {-1, 0, .5, 1, 2, 3.25};
    mc::family("aligned", 6ull * 6 * 6 * 6 * 6 * 6, [] {
        double a[6]; for (auto& v : a) v = pick(GV);
        lmb::AABBox x(a[0], a[1], a[2], a[3]);
        MC_CHECK("C16", x.min[0] == std::min(a[0], a[2]) && x.max[0] == std::max(a[0], a[2]) && x.min[1] == std::min(a[1], a[3]) && x.max[1] == std::max(a[1], a[3]), "box of corners (%g,%g), (%g,%g)", a[0], a[1], a[2], a[3]);
        for (double b2 : GV) for (double b3 : GV) {
            lmb::AABBox y(a[4], a[5], b2, b3); bool e = true; for (int k = 0; k < 2; ++k) e &= !(std::max(x.min[k], y.min[k]) > std::min(x.max[k], y.max[k]));
            MC_CHECK("C16", x.intersects(y) == e && y.intersects(x) == e, "[%g %g]x[%g %g] and [%g %g]x[%g %g]: intersects() says %d and %d", x.min[0], x.max[0], x.min[1], x.max[1], y.min[0], y.max[0], y.min[1], y.max[1], x.intersects(y), y.intersects(x));
            lmb::BBox q(y); MC_CHECK("C16", q.intersects(x) == e && q.aabbox().min == y.min && q.aabbox().max == y.max, "the quadrilateral of an axis-aligned box differs from it");
            if (y.max[0] > y.min[0] && y.max[1] > y.min[1] && x.max[0] > x.min[0] && x.max[1] > x.min[1]) { bool in = true, ap = false; for (int k = 0; k < 2; ++k) { in &= std::max(x.min[k], y.min[k]) < std::min(x.max[k], y.max[k]); ap |= std::max(x.min[k], y.min[k]) > std::min(x.max[k], y.max[k]); } if (in || ap) MC_CHECK("C16", lmb::BBox(x).intersects(q) == in, "quadrilaterals of [%g %g]x[%g %g] and [%g %g]x[%g %g]: intersects() says %d", x.min[0], x.max[0], x.min[1], x.max[1], y.min[0], y.max[0], y.min[1], y.max[1], !in); }
            mc::transition(3);
        }
        V2 p(a[4], a[5]); bool in = p[0] >= x.min[0] && p[0] <= x.max[0] && p[1] >= x.min[1] && p[1] <= x.max[1];
        MC_CHECK("C16", x.within(p) == in, "(%g, %g) in [%g %g]x[%g %g]: within() says %d", p[0], p[1], x.min[0], x.max[0], x.min[1], x.max[1], x.within(p));
        lmb::AABBox all; MC_CHECK("C16", all.within(p) && all.intersects(x) && x.intersects(all), "the default box does not contain everything");
        mc::state(mc::hash_bytes(a, sizeof a)); mc::outcome("aligned"); mc::describe("[%g %g]x[%g %g] and others", x.min[0], x.max[0], x.min[1], x.max[1]);
    });
}
// boxes in another frame: every corner converted, in its place
static void fam_frames() {
    bool th = mc::thorough();
    static const V2 O[] = {V2(58.3887657, 15.6965082), V2(-33.9, 151.2), V2(0.01, -100), V2(64, -30), V2(-58, -70), V2(10, 5)};
    static const double C[] = {0, 35, -1200, 9000}, H[] = {.5, 40, 1500}, AN[] = {0, .4, 1.1, 2.5};
    unsigned na = th ? 4 : 3;
    mc::family("frames", 6ull * 4 * 4 * 3 * 3 * na * 4, [na] {
        V2 o = pick(O); V2 c(pick(C), pick(C)); double a = pick(H), b = pick(H), t = AN[pick(na)]; unsigned rot = pick(4);
        V2 u(a * std::cos(t), a * std::sin(t)), v(-b * std::sin(t), b * std::cos(t)); V2 k[4] = {c + u + v, c + u - v, c - u - v, c - u + v};
        lmb::BBox q; for (int i = 0; i < 4; ++i) q.corners.col(i) = k[(i + rot) % 4];
        lmb::BBox l = q.llbbox(o); mc::transition(4);
        for (int i = 0; i < 4; ++i) { V2 e = ref::ne2ll(k[(i + rot) % 4], o); double d = (V2(l.corners.col(i)) - e).norm(); MC_CHECK("C16", d < 1e-9, "corner %d (%g, %g) from (%g, %g) is (%.12g, %.12g) in latitude and longitude, exact (%.12g, %.12g)", i, k[(i + rot) % 4][0], k[(i + rot) % 4][1], o[0], o[1], l.corners(0, i), l.corners(1, i), e[0], e[1]); }
        lmb::BBox n = l.nebbox(o);
        for (int i = 0; i < 4; ++i) { V2 e = ref::ll2ne(V2(l.corners.col(i)), o); MC_CHECK("C16", (V2(n.corners.col(i)) - e).norm() < 1e-5, "corner %d (%.12g, %.12g) from (%g, %g) is (%.9g, %.9g) locally, exact (%.9g, %.9g)", i, l.corners(0, i), l.corners(1, i), o[0], o[1], n.corners(0, i), n.corners(1, i), e[0], e[1]); }
        for (int i = 0; i < 4; ++i) MC_CHECK("C16", (V2(q.corners.col(i)) - k[(i + rot) % 4]).norm() == 0, "conversion changes the box");
        // axis-aligned boxes, up to the tangent plane
        double tol = 1e-3 * (a + b) + 2e-7 * (c.squaredNorm() + a * a + b * b) * 3;
        lmb::AABBox x(c[0] - a, c[1] - b, c[0] + a, c[1] + b), y = x.llaabbox(o), z = y.neaabbox(o); V2 s = ref::scale(o);
        const double g[4] = {y.min[0] - o[0], y.min[1] - o[1], y.max[0] - o[0], y.max[1] - o[1]}, w[4] = {c[0] - a, c[1] - b, c[0] + a, c[1] + b};
        for (int i = 0; i < 4; ++i) MC_CHECK("C16", std::fabs(g[i] * s[i % 2] - w[i]) < tol, "side %d of [%g %g]x[%g %g] from (%g, %g) lies %g m away in latitude and longitude", i, x.min[0], x.max[0], x.min[1], x.max[1], o[0], o[1], g[i] * s[i % 2]);
        const double r[4] = {z.min[0], z.min[1], z.max[0], z.max[1]};
        for (int i = 0; i < 4; ++i) MC_CHECK("C16", std::fabs(r[i] - w[i]) < tol, "side %d of [%g %g]x[%g %g] from (%g, %g) comes back as %g", i, x.min[0], x.max[0], x.min[1], x.max[1], o[0], o[1], r[i]);
        mc::state(mc::hash_bytes(l.corners.data(), 64)); mc::describe("half sides %g, %g at (%g, %g) turned %g", a, b, c[0], c[1], t); mc::outcome("frames");
    });
}
static void reg() {
    if (mc::want("C14")) fam_cf();
    if (mc::want("C15")) fam_gauss_box();
    if (mc::want("C16")) { fam_quads(); fam_frames(); }
}
int main(int c, char** v) { return mc::main_(c, v, reg); }
