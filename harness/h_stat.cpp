// C27: sampling as a function of the stream of standard normal draws. The draws are an input here: the harness
// answers std::normal_distribution, so the map from draws to samples is read off exactly.
#include "mc.hpp"
#include "ref.hpp"
#include <random>
#include <thread>
namespace mcn {
    // answers: zero everywhere, one at a single position, or a scripted value per position
    struct Script { int mode = 0; uint64_t at = 0, n = 0; double amp = 1; std::function<double(uint64_t)> f; std::set<uint64_t> seen; uint64_t repeats = 0; };
    static Script& s() { static Script x; return x; }
    template<class G> double next(G& g) {
        auto& c = s(); uint64_t k = c.n++;
        // the engine must move on from draw to draw: 64 bits of it must not come twice
        uint64_t h = ((uint64_t)g() << 32) ^ (uint64_t)g(); if (!c.seen.insert(h).second) ++c.repeats;
        if (c.mode == 0) return 0;
        if (c.mode == 1) return k == c.at ? c.amp : 0;
        return c.f(k);
    }
}
namespace std {
    template<class T = double> struct mcn_normal_distribution {
        typedef T result_type;
        T m, sd;
        explicit mcn_normal_distribution(T m_ = 0, T s_ = 1) : m(m_), sd(s_) {}
        struct param_type { T m, s; param_type(T a = 0, T b = 1) : m(a), s(b) {} };
        explicit mcn_normal_distribution(const param_type& p) : m(p.m), sd(p.s) {}
        void reset() {}
        T mean() const { return m; }
        T stddev() const { return sd; }
        template<class G> T operator()(G& g) { return m + sd * mcn::next(g); }
        template<class G> T operator()(G& g, const param_type& p) { return p.m + p.s * mcn::next(g); }
    };
}
#define normal_distribution mcn_normal_distribution
#include "statistics.hpp"
#undef normal_distribution
#include "gaussian.hpp"
#include "gm.hpp"
using mc::pick;
typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;

// what a sampling program yields for given draws, flattened, and where each column belongs
typedef std::function<VX()> Prog;
static double big(const MX& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
struct Map { VX m; MX B; uint64_t draws; bool ok; };
static VX at(const Prog& p, int mode, uint64_t k, double amp = 1) { auto& s = mcn::s(); s.mode = mode; s.at = k; s.amp = amp; s.n = 0; s.seen.clear(); VX r = p(); mc::transition(); if (s.repeats) { s.repeats = 0; MC_CHECK("C27", false, "the random engine answers two draws with the same number"); } return r; }
static bool fin(const VX& v) { for (int i = 0; i < v.size(); ++i) if (!std::isfinite(v[i])) return false; return true; }

static Map read(const Prog& p, const std::string& log) {
    Map r; r.ok = true; r.m = at(p, 0, 0); r.draws = mcn::s().n;
    MC_CHECK("C27", fin(r.m), "%s: a sample holds a value that is not finite", log.c_str());
    if (!fin(r.m)) { r.ok = false; return r; }
    r.B = MX::Zero(r.m.size(), r.draws);
    for (uint64_t k = 0; k < r.draws; ++k) { VX v = at(p, 1, k); if (!fin(v)) { r.ok = false; MC_CHECK("C27", false, "%s: a sample is not finite when draw %d is one", log.c_str(), (int)k); return r; } r.B.col(k) = v - r.m; }
    // the map is affine: twice a draw, its negative, and mixed draws give what the columns say
    double sc = 1 + big(r.m) + big(r.B);
    if (r.m.size() == 0) return r;
    for (int t = 0; t < 4; ++t) {
        auto f = [t](uint64_t k) { return t == 0 ? -2.5 : t == 1 ? std::sin(1.7 * k + 1) * 3 : t == 2 ? (k % 3) * 1.25 - 1 : k % 2 ? 6.5 : -.01; };
        mcn::s().f = f; VX v = at(p, 2, 0), z(r.draws); for (uint64_t k = 0; k < r.draws; ++k) z[k] = f(k);
        bool same = mcn::s().n == r.draws && fin(v) && (v - r.m - r.B * z).cwiseAbs().maxCoeff() <= 1e-8 * sc * (1 + z.cwiseAbs().sum());
        MC_CHECK("C27", same, "%s: samples are not an affine function of the normal draws", log.c_str()); if (!same) r.ok = false;
    }
    return r;
}
static std::string str(const MX& m) { std::ostringstream o; o << m.format(Eigen::IOFormat(6, 0, " ", "; ", "", "", "[", "]")); return o.str(); }
// expected: blocks in order, block b of size d with mean and covariance
struct Block { VX m; MX P; };
static void compare(const Prog& p, const std::vector<Block>& bl, const std::string& log) {
    Map r = read(p, log); if (!r.ok) return;
    int n = 0; for (auto& b : bl) n += b.m.size();
    MC_CHECK("C27", r.m.size() == n, "%s: %d values sampled, %d should be", log.c_str(), (int)r.m.size(), n);
    if (r.m.size() != n) return;
    MX C = r.B * r.B.transpose();
    int i = 0;
    for (size_t a = 0; a < bl.size(); ++a) {
        int d = bl[a].m.size(); double tr = bl[a].P.trace(), e = 1e-8 * tr + 1e-14 * bl[a].m.squaredNorm() + 1e-300;
        MC_CHECK("C27", (r.m.segment(i, d) - bl[a].m).cwiseAbs().maxCoeff() <= 1e-12 * (1 + bl[a].m.cwiseAbs().maxCoeff()), "%s: sample %zu is centred on %s, the mean is %s", log.c_str(), a, str(r.m.segment(i, d).transpose()).c_str(), str(bl[a].m.transpose()).c_str());
        MC_CHECK("C27", (C.block(i, i, d, d) - bl[a].P).cwiseAbs().maxCoeff() <= e, "%s: sample %zu has covariance %s, the density has %s", log.c_str(), a, str(C.block(i, i, d, d)).c_str(), str(bl[a].P).c_str());
        int j = i + d;
        for (size_t b = a + 1; b < bl.size(); ++b) {
            int q = bl[b].m.size(); double f = 1e-8 * std::sqrt(tr * bl[b].P.trace()) + 1e-14 * bl[a].m.norm() * bl[b].m.norm() + 1e-300;
            MC_CHECK("C27", C.block(i, j, d, q).cwiseAbs().maxCoeff() <= f, "%s: samples %zu and %zu are correlated, %s", log.c_str(), a, b, str(C.block(i, j, d, q)).c_str());
            j += q;
        }
        i += d;
    }
    mc::state(mc::Hasher().add(mc::hash_bytes(r.m.data(), r.m.size() * 8)).add(mc::hash_bytes(r.B.data(), r.B.size() * 8)).h);
}

// covariances: rotated and scaled in two dimensions, coupled in more
static const double EV[] = {0, 1e-9, .04, 1, 9, 1e4};
static const double AN[] = {0, .3, M_PI / 4, 1.2, M_PI / 2, 2.4, -.6};
static MX cov2(unsigned a, unsigned b, unsigned r) { MX Q(2, 2); double c = std::cos(AN[r]), s = std::sin(AN[r]); Q << c, -s, s, c; VX d(2); d << EV[a], EV[b]; MX P = Q * d.asDiagonal() * Q.transpose(); return .5 * (P + P.transpose()); }
static MX covn(int S, unsigned k) {   // from a triangular factor with entries of a small alphabet; k mod 4 == 3: singular
    static const double A[] = {0, .5, -1, 2, .1, -3, 10};
    MX L = MX::Zero(S, S); unsigned h = k * 2654435761u + 12345;
    for (int i = 0; i < S; ++i) for (int j = 0; j <= i; ++j) { h = h * 1664525u + 1013904223u; double v = A[(h >> 20) % 7]; L(i, j) = i == j ? std::fabs(v) + .2 : v; }
    if (k % 4 == 3) L.col(k / 4 % S).setZero();
    if (k % 8 == 6) L.row(0) *= 1e3;
    return L * L.transpose();
}
static VX mean(int S, unsigned k) { VX m = VX::Zero(S); static const double M[] = {0, 1, 1e5, -3}; for (int i = 0; i < S; ++i) m[i] = k == 0 ? 0 : k == 1 ? i + .5 - 2 * (i % 2) : (k == 2 ? 58.4 - 40 * (i % 2) : M[(i + k) % 4]); return m; }

template<int S> static lmb::Gaussian_<S> gauss(const VX& m, const MX& P, double w = 1) { return lmb::Gaussian_<S>(m, P, w); }
// sampling through each entrance, into matrices and arrays; filled with a marker first
template<class R, class F> static VX run(int rows, int n, F f) {
    R r(rows, n); r.fill(-777e77); f(r);
    VX v(rows * n); for (int j = 0; j < n; ++j) for (int i = 0; i < rows; ++i) v[j * rows + i] = r(i, j); return v;
}
template<int S> static VX draw(const lmb::Gaussian_<S>& g, unsigned how, int n) {
    typedef Eigen::Matrix<double, S, Eigen::Dynamic> MS; typedef Eigen::Array<double, S, Eigen::Dynamic> AS; typedef Eigen::Array<double, 2, Eigen::Dynamic> A2; typedef Eigen::Matrix<double, 2, Eigen::Dynamic> M2D;
    switch (how) {
    case 0: return run<MS>(S, n, [&](auto& r) { g.sample(r); });
    case 1: return run<AS>(S, n, [&](auto& r) { g.sample(r); });
    case 2: return run<A2>(2, n, [&](auto& r) { g.sample_pos(r); });
    case 3: return run<M2D>(2, n, [&](auto& r) { g.sample_pos(r); });
    default: return run<AS>(S, n, [&](auto& r) { lmb::nrand(r, g.x, g.P); });
    }
}
static const char* HOW[] = {"sample", "sample to an array", "sample_pos to an array", "sample_pos", "nrand"};
static void expect(std::vector<Block>& b, const VX& m, const MX& P, unsigned how, int n) { bool pos = how == 2 || how == 3; for (int k = 0; k < n; ++k) b.push_back(pos ? Block{m.head(2), P.topLeftCorner(2, 2)} : Block{m, P}); }

template<int S> static void one(unsigned NP) {
    static const int NC[] = {0, 1, 2, 5, 9};
    mc::family("sample." + std::to_string(S), (S == 2 ? 6 * 6 * 7 : NP) * 4 * 5 * 5, [NP] {
        MX P; if (S == 2) { unsigned a = pick(6), b = pick(6); P = cov2(a, b, pick(7)); } else P = covn(S, pick(NP));
        VX m = mean(S, pick(4)); unsigned how = pick(5); int n = pick(NC);
        auto g = gauss<S>(m, P); std::vector<Block> b; expect(b, m, P, how, n);
        char l[400]; snprintf(l, 400, "%s of %d columns from mean %s covariance %s", HOW[how], n, str(m.transpose()).c_str(), str(P).c_str());
        compare([&] { return draw<S>(g, how, n); }, b, l); mc::describe("%s", l); mc::outcome("sampled");
        MC_CHECK("C27", g.x == m && g.P == P && g.w == 1, "%s: sampling changes the density", l);
    });
}
// histories of sampling: nothing carries over from one call to the next
template<int S> static void seq(int L) {
    mc::family("history." + std::to_string(S), mc::ipow(20, L), [L] {
        std::vector<lmb::Gaussian_<S>> g; std::vector<unsigned> how; std::vector<int> n; std::vector<Block> b; std::string log; static const unsigned H[] = {0, 2};
        // densities that agree in trace, diagonal or determinant, or differ only in the mean
        for (int k = 0; k < L; ++k) {
            unsigned d = pick(5); n.push_back(1 + pick(2)); how.push_back(pick(H)); MX P = MX::Identity(S, S); double r = S > 2 ? .3 : 0;
            switch (d) { case 0: P(0, 0) = 9; break; case 1: P(1, 1) = 9; break; case 2: P(0, 0) = P(1, 1) = 5; P(0, 1) = P(1, 0) = 4; break; case 3: P(0, 0) = P(1, 1) = 5; P(0, 1) = P(1, 0) = -4; break; default: P(0, 0) = 9; r = -.4; break; }
            if (S > 2) P(0, S - 1) = P(S - 1, 0) = r;
            VX m = mean(S, d == 4 ? 3 : 1); g.push_back(gauss<S>(m, P)); expect(b, m, P, how[k], n[k]); char t[60]; snprintf(t, 60, "%s of %d from %u; ", HOW[how[k]], n[k], d); log += t;
        }
        compare([&] { VX all; for (int k = 0; k < L; ++k) { VX v = draw<S>(g[k], how[k], n[k]), w(all.size() + v.size()); w << all, v; all = w; } return all; }, b, log);
        mc::describe("%s", log.c_str()); mc::outcome("sampled in turn");
    });
}
// mixtures: every column belongs to a component, as many as its weight says
template<int S> static void mixture(int C) {
    static const double W[] = {1, .5, .125, 3, 1e-6};
    static const int NC[] = {0, 1, 2, 3, 7, 12};
    mc::family("mixture." + std::to_string(S) + "." + std::to_string(C), mc::ipow(5, C) * 3 * 6 * 2, [C] {
        std::vector<double> w; double s = 0; for (int k = 0; k < C; ++k) { w.push_back(pick(W)); s += w.back(); }
        unsigned cs = pick(3); int n = pick(NC); unsigned pos = pick(2);
        lmb::Params par; lmb::GM<S> gm(&par); std::string log = pos ? "sample_pos, weights" : "sample, weights"; char t[40];
        std::vector<VX> m; std::vector<MX> P;
        for (int k = 0; k < C; ++k) { w[k] /= s; m.push_back(mean(S, 1) + VX::Constant(S, 100 * (k + 1))); P.push_back(S == 2 ? cov2(3 + k % 2, 2 + (k + cs) % 4, (k + cs) % 7) : covn(S, 4 * (k + 5 * cs) + k % 3)); gm.c.emplace_back(m[k], P[k], w[k]); snprintf(t, 40, " %.9g", w[k]); log += t; }
        snprintf(t, 40, ", %d columns", n); log += t;
        int R = pos ? 2 : S;
        Prog pr = [&] { return pos ? run<Eigen::Array<double, 2, Eigen::Dynamic>>(2, n, [&](auto& r) { gm.sample_pos(r); }) : run<Eigen::Matrix<double, S, Eigen::Dynamic>>(S, n, [&](auto& r) { gm.sample(r); }); };
        VX z = at(pr, 0, 0); std::vector<Block> b; std::vector<int> cnt(C, 0);
        for (int j = 0; j < n; ++j) {
            int of = -1; for (int k = 0; k < C; ++k) if ((z.segment(j * R, R) - m[k].head(R)).cwiseAbs().maxCoeff() < 1e-6) of = k;
            MC_CHECK("C27", of >= 0, "%s: column %d belongs to no component, %s", log.c_str(), j, str(z.segment(j * R, R).transpose()).c_str());
            if (of < 0) return;
            ++cnt[of]; b.push_back({m[of].head(R), P[of].topLeftCorner(R, R)});
        }
        for (int k = 0; k < C; ++k) MC_CHECK("C27", std::fabs(cnt[k] - w[k] * n) < 1 + 1e-9, "%s: component %d of weight %.9g has %d columns", log.c_str(), k, w[k], cnt[k]);
        compare(pr, b, log); mc::describe("%s", log.c_str()); mc::outcome("mixture sampled");
    });
}
// the share of samples inside a box
template<int S> static void overlap() {
    mc::family("overlap." + std::to_string(S), 6 * 6 * 6 * 5 * 2, [] {
        static const double X[][2] = {{-1, 1}, {0, 3}, {-30, 30}, {5, 6}, {-.2, 40}, {2, 2.5}};
        unsigned a = pick(6), b = pick(6), c = pick(6), st = pick(5), kind = pick(2);
        MX P = S == 2 ? cov2(2 + c % 3, 3, c + 1) : covn(S, 4 * c + 1); VX m = mean(S, 1); auto g = gauss<S>(m, P);
        lmb::AABBox ab(X[a][0], X[b][0], X[a][1], X[b][1]); lmb::BBox bb; bb.corners << X[a][1], X[a][1], X[a][0], X[a][0], X[b][1], X[b][0], X[b][0], X[b][1];
        mcn::s().f = [st](uint64_t k) { double u = std::fmod((k + 1) * (st % 2 ? .6180339887498949 : .7548776662466927) + .01 * st, 1), v = std::fmod((k + 1) * .5698402909980532 + .3, 1); return std::sqrt(-2 * std::log(u + 1e-9)) * std::cos(2 * M_PI * v); };
        auto& s = mcn::s(); s.mode = 2; s.n = 0; s.seen.clear(); double o = kind ? g.overlap(bb) : g.overlap(ab); uint64_t used = s.n; mc::transition();
        if (used == 0 || used % S) { mc::outcome("overlap without samples"); return; }
        int N = used / S; Eigen::Matrix<double, S, Eigen::Dynamic> r(S, N); s.n = 0; s.seen.clear(); g.sample(r); int in = 0, edge = 0;
        for (int j = 0; j < N; ++j) { double d = std::min(std::min(r(0, j) - X[a][0], X[a][1] - r(0, j)), std::min(r(1, j) - X[b][0], X[b][1] - r(1, j))); if (std::fabs(d) < 1e-9) ++edge; else if (d > 0) ++in; }
        MC_CHECK("C27", o * N >= in - 1e-6 && o * N <= in + edge + 1e-6, "overlap of mean %s covariance %s with north [%g %g] east [%g %g] is %g, %d of %d samples are inside", str(m.transpose()).c_str(), str(P).c_str(), X[a][0], X[a][1], X[b][0], X[b][1], o, in, N);
        MC_CHECK("C27", o >= 0 && o <= 1, "overlap is %g", o); mc::state(mc::Hasher().add(mc::hash_bytes(&o, 8)).h); mc::outcome(o > 0 ? o < 1 ? "partly inside" : "inside" : "outside");
        lmb::Params par; lmb::GM<S> gm(&par); gm.c.emplace_back(m, P, .75); gm.c.emplace_back(VX(m + VX::Constant(S, 1e6)), P, .25); s.n = 0; s.seen.clear();
        double q = kind ? gm.overlap(bb) : gm.overlap(ab); MC_CHECK("C27", q >= -1e-12 && q <= .75 + 1e-9, "overlap of a mixture whose second component of weight .25 is far away is %g", q);
        if (o == 0 || o == 1) if (edge == 0 && (in == 0 || (a == 2 && b == 2 && S == 2))) MC_CHECK("C27", std::fabs(q - .75 * o) < .2, "overlap of the mixture is %g, of its near component of weight .75 it is %g", q, o);
        mc::describe("overlap %g", o);
    });
}
// threads draw from streams of their own
static void threads() {
    mc::family("threads", 8 * 2, [] {
        unsigned n = 2 + pick(8); bool uni = pick(2); std::vector<std::vector<uint64_t>> got(n); std::vector<std::vector<double>> u(n);
        auto& s = mcn::s(); s.mode = 0;
        for (unsigned k = 0; k < n; ++k) { s.seen.clear(); std::thread t([&, k] { for (int i = 0; i < 6; ++i) if (uni) u[k].push_back(lmb::urand()); else lmb::nrand(); }); t.join(); got[k].assign(s.seen.begin(), s.seen.end()); mc::transition(6); }
        s.seen.clear(); s.repeats = 0; std::set<uint64_t> all; std::set<double> ud; size_t tot = 0;
        for (unsigned k = 0; k < n; ++k) { all.insert(got[k].begin(), got[k].end()); for (double x : u[k]) { MC_CHECK("C27", x >= 0 && x < 1, "a uniform draw is %.17g", x); ud.insert(x); } tot += 6; }
        MC_CHECK("C27", (uni ? ud.size() : all.size()) == tot, "%u threads make %zu draws, only %zu differ", n, tot, uni ? ud.size() : all.size());
        mc::state(mc::Hasher().add(n * 2 + uni).h); mc::describe("%u threads", n); mc::outcome("threads");
    });
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        bool th = mc::thorough();
        one<2>(0); one<4>(th ? 400 : 96); one<6>(th ? 200 : 32);
        seq<2>(th ? 3 : 2); seq<4>(th ? 3 : 2);
        mixture<2>(1); mixture<2>(2); mixture<2>(3); mixture<4>(2); mixture<4>(3); if (th) mixture<2>(4);
        overlap<2>(); overlap<4>(); threads();
    });
}
