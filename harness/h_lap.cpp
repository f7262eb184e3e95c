// C01, C02: assignment solver and k-best ranking, exhaustively over small matrices,
// against brute force; larger structured matrices against an independent Hungarian.
#include "mc.hpp"
#include <Eigen/Core>
#include <algorithm>
#include <iostream>
#include "murty.hpp"
#include "constants.hpp"
using mc::pick;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RM;
typedef Eigen::MatrixXd CM;
static const double INF = std::numeric_limits<double>::infinity();

struct Sol { double c; std::vector<int> a; };

template<typename M> static void brute(const M& C, int i, std::vector<int>& a, std::vector<bool>& used, double c, std::vector<Sol>& out) {
    int R = C.rows(), K = C.cols();
    if (i == R) { out.push_back({c, a}); return; }
    for (int j = 0; j < K; ++j) if (!used[j] && C(i, j) < INF) {
        used[j] = true; a[i] = j; brute(C, i + 1, a, used, c + C(i, j), out); used[j] = false;
    }
}
template<typename M> static std::vector<Sol> allsols(const M& C) {
    std::vector<Sol> out; std::vector<int> a(C.rows()); std::vector<bool> u(C.cols());
    brute(C, 0, a, u, 0, out);
    std::sort(out.begin(), out.end(), [](const Sol& x, const Sol& y) { return x.c < y.c; });
    return out;
}
static std::string mat(const RM& C) { std::ostringstream o; o << C.format(Eigen::IOFormat(6, Eigen::DontAlignCols, ",", ";", "", "", "[", "]")); return o.str(); }

// Independent minimum-cost assignment (textbook e-maxx Hungarian, rows <= cols, BIG for infinity).
static bool hungarian(const RM& C, double& best) {
    int n = C.rows(), m = C.cols(); const double BIG = 1e13;
    std::vector<double> u(n + 1), v(m + 1); std::vector<int> p(m + 1), way(m + 1);
    auto A = [&](int i, int j) { double c = C(i, j); return c < INF ? c : BIG; };
    for (int i = 1; i <= n; ++i) {
        p[0] = i; int j0 = 0; std::vector<double> minv(m + 1, INF); std::vector<char> used(m + 1, false);
        do {
            used[j0] = true; int i0 = p[j0], j1 = 0; double delta = INF;
            for (int j = 1; j <= m; ++j) if (!used[j]) {
                double cur = A(i0 - 1, j - 1) - u[i0] - v[j];
                if (cur < minv[j]) minv[j] = cur, way[j] = j0;
                if (minv[j] < delta) delta = minv[j], j1 = j;
            }
            for (int j = 0; j <= m; ++j) if (used[j]) u[p[j]] += delta, v[j] -= delta; else minv[j] -= delta;
            j0 = j1;
        } while (p[j0] != 0);
        do { int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0);
    }
    best = 0;
    for (int j = 1; j <= m; ++j) if (p[j]) { if (!(C(p[j] - 1, j - 1) < INF)) return false; best += C(p[j] - 1, j - 1); }
    return true;
}

template<typename M> static bool valid(const M& C, const lap::Assignment& x, double& c) {
    std::vector<char> u(C.cols()); c = 0;
    if (x.rows() != C.rows()) return false;
    for (int i = 0; i < C.rows(); ++i) {
        if (x[i] < 0 || x[i] >= C.cols() || u[x[i]]) return false;
        u[x[i]] = 1; c += C(i, x[i]);
    }
    return true;
}
static double unit_ = 0;     // magnitude of the entries: what rounding can be measured in
static double tol(double c) { return 1e-11 + 1e-12 * std::fabs(c) + 1e-13 * unit_; }
template<typename M> static void measure(const M& C) { unit_ = 0; for (int i = 0; i < C.size(); ++i) if (std::isfinite(C.data()[i])) unit_ = std::max(unit_, std::fabs(C.data()[i])); if (unit_ < 1e4) unit_ = 0; }

template<typename M> static void solve(const char* order, const M& C, bool feasible, double best) {
    lap::Assignment x(C.rows()); lap::Dual u(C.rows()), v(C.cols());
    mc::transition();
    bool ok = lap::lap(C, x, u, v);
    double c;
    MC_CHECK("C01", ok == feasible, "%s %s: solver says %s, brute force says %s", order, mat(C).c_str(), ok ? "feasible" : "infeasible", feasible ? "feasible" : "infeasible");
    if (!feasible || !ok) return;
    bool va = valid(C, x, c);
    MC_CHECK("C01", va, "%s %s: result is not a one-to-one assignment", order, mat(C).c_str());
    if (va) MC_CHECK("C01", std::fabs(c - best) <= tol(best), "%s %s: cost %.12g, minimum %.12g", order, mat(C).c_str(), c, best);
    auto y = lap::lap(C); mc::transition();
    va = valid(C, y, c);
    MC_CHECK("C01", va && std::fabs(c - best) <= tol(best), "%s %s: one-argument form returns cost %.12g (valid %d), minimum %.12g", order, mat(C).c_str(), c, va, best);
    if (va) MC_CHECK("C01", std::fabs(lap::cost(C, y) - c) <= tol(best), "%s %s: cost() of the assignment is wrong", order, mat(C).c_str());
}

static void check01(const RM& C, bool feasible, double best) {
    measure(C);
    solve("row-major", C, feasible, best);
    CM K = C; solve("column-major", K, feasible, best);
}

static void check02(const RM& C, const std::vector<Sol>& sols, size_t maxdraw = 1u << 20) {
    measure(C);
    lap::Murty m(C);
    lap::Assignment x; double c, prev = -INF;
    std::set<std::vector<int>> seen;
    size_t n = 0;
    for (; n < maxdraw; ++n) {
        mc::transition();
        if (!m.draw(x, c)) break;
        double cc; bool va = valid(C, x, cc);
        MC_CHECK("C02", va && cc < INF, "%s: draw %zu is not a finite one-to-one assignment", mat(C).c_str(), n);
        if (!va) return;
        std::vector<int> a(x.data(), x.data() + x.size());
        MC_CHECK("C02", seen.insert(a).second, "%s: draw %zu repeats an assignment", mat(C).c_str(), n);
        MC_CHECK("C02", std::fabs(c - cc) <= tol(cc), "%s: draw %zu reports cost %.12g, its assignment costs %.12g", mat(C).c_str(), n, c, cc);
        if (n < sols.size()) MC_CHECK("C02", std::fabs(c - sols[n].c) <= tol(c), "%s: draw %zu costs %.12g, the rank-%zu cost is %.12g", mat(C).c_str(), n, c, n, sols[n].c);
        MC_CHECK("C02", c >= prev - tol(c), "%s: draw %zu costs %.12g after %.12g", mat(C).c_str(), n, c, prev);
        prev = c;
        if (n > sols.size() + 2) break;
        if (mc::st().failed) return;
    }
    if (maxdraw >= sols.size() + 1)
        MC_CHECK("C02", n == sols.size(), "%s: %zu assignments drawn, %zu exist", mat(C).c_str(), n, sols.size());
    if (n < maxdraw) for (int k = 0; k < 3; ++k) { mc::transition(); MC_CHECK("C02", !m.draw(x, c), "%s: a draw succeeds after exhaustion", mat(C).c_str()); }
    if (maxdraw > 3) {     // the tuple form agrees
        lap::Murty t(C); auto r = t.draw_tuple();
        MC_CHECK("C02", std::get<0>(r) == !sols.empty(), "%s: draw_tuple disagrees on exhaustion", mat(C).c_str());
        if (std::get<0>(r) && !sols.empty()) MC_CHECK("C02", std::fabs(std::get<1>(r) - sols[0].c) <= tol(sols[0].c), "%s: draw_tuple cost", mat(C).c_str());
    }
}

static void checkall(const RM& C, size_t maxdraw = 1u << 20) {
    auto sols = allsols(C);
    mc::Hasher h; h.add((int)C.rows()).add((int)C.cols()); for (int i = 0; i < C.size(); ++i) h.add(C.data()[i]); mc::state(h.h);
    mc::describe("C=%s: %zu finite assignments", mat(C).c_str(), sols.size());
    if (!sols.empty()) mc::describe(", costs %.6g..%.6g", sols.front().c, sols.back().c);
    mc::outcome(sols.empty() ? "infeasible" : sols.size() == 1 ? "one assignment" : sols[0].c == sols[1].c ? "tie for the best" : "unique best");
    if (mc::want("C01")) check01(C, !sols.empty(), sols.empty() ? 0 : sols[0].c);
    if (mc::want("C02")) check02(C, sols, maxdraw);
}

template<size_t N> static void grid(const char* name, int R, int K, const double (&A)[N]) {
    std::vector<double> al(A, A + N);
    char nm[64]; snprintf(nm, sizeof nm, "%s_%dx%d", name, R, K);
    mc::family(nm, mc::ipow(N, R * K), [R, K, al] {
        RM C(R, K);
        for (int i = 0; i < R * K; ++i) C.data()[i] = al[pick(al.size())];
        checkall(C);
    });
}

// Deterministic cost pattern for larger sizes: a lattice of affine patterns (all enumerated).
static void reg() {
    bool th = mc::thorough(), one = mc::want("C01"), two = mc::want("C02");
    static const double A4[] = {0, 1, 2, INF}, A3[] = {0, 1, INF}, A2[] = {1, INF}, AN[] = {-3, 0, 2.5, INF}, A01[] = {0, 1}, A6[] = {-1, 0, 1, 2, 5, INF}, AX[] = {0, 1e-5, 30000, INF}, A012[] = {0, 1, 2}, AE[] = {0, 2e-5, 1}, AW[] = {1, 1 + 1e-9, 40}, AV[] = {0, 4.5e-16, 40, INF};
    for (int K = 1; K <= 4; ++K) grid("g6", 1, K, A6);
    for (int K = 2; K <= 3; ++K) grid("g6", 2, K, A6);
    grid("g4", 2, 4, A4); grid("gn", 2, 4, AN); grid("gx", 2, 3, AX); grid("gx", 2, 2, AX);
    grid("g4", 3, 3, A4); grid("gn", 2, 3, AN); grid("ge", 3, 3, AE);
    // large magnitudes, alone and beside small ones
    static const double AL[] = {1, 1e6 + .5, 3e9, INF}, AL3[] = {2, 1e8, INF}, AM[] = {-1e9, 4, 1e9}, AH[] = {0, 1e300, -1e290, INF};
    grid("gl", 2, 3, AL); grid("gl", 1, 4, AL); grid("gl3", 3, 3, AL3); grid("gm", 2, 3, AM); grid("gm", 3, 3, AM); grid("gh", 2, 2, AH); grid("gh", 1, 3, AH);
    if (th) { grid("gl", 2, 4, AL); grid("gl3", 3, 4, AL3); grid("gh", 2, 3, AH); }
    grid("gw", 3, 3, AW);                       // near ties that three rows contend for
    if (th) { grid("gv", 3, 3, AV); grid("gw", 3, 4, AW);  grid("gn", 3, 3, AN); grid("gx", 3, 3, AX); grid("g3", 3, 4, A3); grid("g012", 3, 4, A012); grid("g3", 2, 6, A3); grid("g4", 2, 5, A4); }
    grid("g2", 3, 4, A2); grid("g2", 4, 4, A2); grid("g01", 4, 4, A01); grid("g01", 3, 5, A01); grid("g2", 3, 5, A2);
    if (th) { grid("g2", 4, 5, A2); grid("g01", 4, 5, A01); }

    // Tracker-shaped matrices: M tracks, N reports: likelihood columns, a miss diagonal and a
    // non-existence diagonal; everything else is the large finite constant the tracker uses.
    for (int M = 1; M <= 3; ++M) for (int N = 0; N <= 3; ++N) {
        if (!th && M * N > 6) continue;
        if (M == 3 && N == 3) continue;
        static const double L[] = {-4, 0.5, 7, 30000, INF}, D[] = {0.1, 2, INF};
        int nl = M * N > 4 ? 3 : 5;
        char nm[64]; snprintf(nm, sizeof nm, "tracker_%dx%d", M, N);
        uint64_t cnt = mc::ipow(nl, M * N) * mc::ipow(3, 2 * (M > 2 ? 2 : M));
        mc::family(nm, cnt, [M, N, nl] {
            RM C(M, N + 2 * M); C.setConstant(lmb::inf);
            double dm = 0, df = 0;
            for (int i = 0; i < M; ++i) {
                for (int j = 0; j < N; ++j) { int k = pick(nl); C(i, j) = nl == 3 ? L[k + (k == 2)] : L[k]; }
                if (i < 2) { dm = D[pick(3)]; df = D[pick(3)]; }
                C(i, N + i) = dm + (i == 2 ? 0.3 : 0); C(i, N + M + i) = df + (i == 2 ? -0.2 : 0);
            }
            checkall(C, M == 3 ? 60 : 1u << 20);
        });
    }
    if (two) mc::family("draws_k", 4 * 4 * 3 * 3, [] {      // longer rankings on patterned matrices
        int a = 1 + pick(4), b = 1 + pick(4), R = 3 + pick(3), mod = 5 + 2 * pick(3);
        RM C(R, R + (R < 5 ? 2 : 1));
        for (int i = 0; i < C.rows(); ++i) for (int j = 0; j < C.cols(); ++j) { int t = (a * i * i + b * j * (i + 1) + i) % (mod + 1); C(i, j) = t == mod ? INF : t - (b == 2 ? 2 : 0); }
        checkall(C);
    });
    if (one) {
        static const int S[] = {5, 8, 16, 24, 31, 32, 33, 40, 64};
        int ns = th ? 9 : 8;
        mc::family("large", (uint64_t)ns * 3 * 3 * 4 * 4, [ns] {
            int R = S[pick(ns)], extra = pick(3), style = pick(3), a = 1 + pick(4), b = pick(4);
            int K = R + (extra == 0 ? 0 : extra == 1 ? 1 : R / 2);
            RM C(R, K);
            for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) {
                double v = ((a * i * i + (2 * b + 1) * j * j + 3 * i * j + 7 * i) % 23) - (b == 3 ? 11 : 0);
                if (style == 1 && ((i + 2 * j + a) % 5 == 0)) v = INF;
                if (style == 2 && j != i && j != (i + a) % K) v = INF;          // two options per row
                if (style == 2 && a == 4 && b >= 2 && i < 3 && j >= 2) v = INF; // three rows share two columns
                C(i, j) = v;
            }
            double best = 0; bool f = hungarian(C, best);
            mc::Hasher h; for (int i = 0; i < C.size(); ++i) h.add(C.data()[i]); mc::state(h.h);
            mc::describe("%dx%d style %d: %s %.6g", R, K, style, f ? "feasible" : "infeasible", best);
            mc::outcome(f ? "large feasible" : "large infeasible");
            check01(C, f, best);
        });
    }
    // many more columns than rows, with what is finite at either end or in the middle
    if (one) mc::family("wide", 6 * 4 * 4 * 3 * 3, [] {
        static const int W[][2] = {{2, 40}, {3, 70}, {7, 61}, {12, 90}, {33, 70}, {40, 60}};
        unsigned w = pick(6), place = pick(4), style = pick(4), a = 1 + pick(3), b = pick(3); int R = W[w][0], K = W[w][1];
        RM C(R, K); int lo = place == 0 ? 0 : place == 1 ? K - R - 1 : place == 2 ? (K - R) / 2 : 0, hi = place == 3 ? K : lo + R + 1;
        for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) {
            double v = ((a * i * j + 5 * j * j + 2 * i * i * i + b * j) % 29) * (b == 2 ? 2.5e7 : 1);
            if (j < lo || j >= hi) v = INF;
            else if (style == 1 && (j - lo) != (R - i) && (j - lo) != (R - i - 1)) v = INF;   // a reversed band: assignments are chains
            else if (style == 2 && ((i + j) % 3 == 0)) v = INF;
            else if (style == 3 && i % 3 == 0 && j != hi - 1 && (b == 1 || j != lo + i)) v = INF;          // every third row shares one column
            C(i, j) = v;
        }
        double best = 0; bool f = hungarian(C, best);
        mc::describe("%dx%d place %u style %u: %s %.6g", R, K, place, style, f ? "feasible" : "infeasible", best);
        mc::outcome(f ? "wide feasible" : "wide infeasible"); mc::Hasher h; for (int i = 0; i < C.size(); ++i) h.add(C.data()[i]); mc::state(h.h);
        check01(C, f, best);
    });
    if (one) mc::family("mid", (uint64_t)4 * 3 * 5 * 5 * 5 * 3 * 6, [] {     // unstructured-looking polynomial patterns
        int R = 4 + pick(4), K = R + pick(3), a = pick(5), b = pick(5), c = pick(5), p = std::vector<int>{11, 13, 7}[pick(3)], unit = pick(6);
        static const double U[] = {1, 1e-4, 1e-7, 1000, 3e8, 1e-9};
        RM C(R, K);
        for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j)
            C(i, j) = U[unit] * ((i * i * i * (a + 1) + j * j * (b + 2 * i) + c * i * j + 3 * j + i) % p) + (unit == 2 ? 2 * (i == j) : 0);
        double best = 0; bool f = hungarian(C, best);
        mc::describe("%s: %.9g", mat(C).c_str(), best);
        mc::outcome("mid"); mc::Hasher h; for (int i = 0; i < C.size(); ++i) h.add(C.data()[i]); mc::state(h.h);
        check01(C, f, best);
    });
    if (one) {
        // distance-like matrices with c-capping as used by the metrics
        mc::family("distance", 3 * 3 * 6 * 4, [] {
            int p = 1 + pick(3), q = 1 + pick(3), n = 2 + pick(6), cap = 1 + 2 * pick(4);
            RM C(n, n);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) C(i, j) = std::min<double>(cap, std::hypot((p * i * i) % 7 - (q * j) % 5, (i * q) % 3 - (j * j * p) % 4));
            double best = 0; bool f = hungarian(C, best);
            mc::describe("%dx%d capped distances", n, n);
            mc::outcome("distance"); mc::Hasher h; for (int i = 0; i < C.size(); ++i) h.add(C.data()[i]); mc::state(h.h);
            check01(C, f, best);
        });
    }
}
int main(int argc, char** argv) { return mc::main_(argc, argv, reg); }
