prop = "C17"
needs = "Two tracks and two true states of which one pair lies beyond the cut-off, so that the assignment of least total distance differs from the one of least cut-off distance."
breaks = "GOSPA pairs tracks and true states by their distances and applies the cut-off to the pairs afterwards, so the pairing is not the cheapest one."
edits = [("include/lmb.hpp", """                C.block(0, 0, M, N).array() =
                    C.block(0, 0, M, N).cwiseMin(c).array().pow(p);

                auto res = lap::lap(C);
                score =""", """                C.block(0, 0, M, N).array() =
                    C.block(0, 0, M, N).array().pow(p);

                auto res = lap::lap(C);
                C.block(0, 0, M, N) = C.block(0, 0, M, N).cwiseMin(cp).eval();
                score =""")]
demo = PRE + r'''
int main() {
    Tracker t; add(t, 0, 0); add(t, 12, 0);
    auto s = [](double n) { Eigen::Vector4d v; v << at(n, 0), 0, 0; return v; };
    // 0 and 12 against 12.5 and 24: 12.5 + 12 apart in order, 24 + .5 crossed, which is 10 + .5 once cut off
    for (double p : {1., 2.}) {
        double g = t.gospa({s(12.5), s(24)}, O, 10, p), w = std::pow(std::pow(10, p) + std::pow(.5, p), 1 / p);
        CHECK(near(g, w, 1e-4), "p %g: %.6f, should be %.6f", p, g, w);
    }
    return bad;
}
'''
