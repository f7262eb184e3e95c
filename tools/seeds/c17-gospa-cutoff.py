prop = "C17"
needs = "A track farther than the cut-off from every true state, with an exponent other than one, or several such."
breaks = "Pairs beyond the cut-off are penalised as a missed and a false track (c^p/2 each) only in sum with exponent one."
edits = [("include/lmb.hpp", "                C.setConstant(cp / 2);", "                C.setConstant(std::pow(c / 2, p));")]
demo = PRE + r'''
int main() {
    Tracker t; add(t, 0, 0); add(t, 50, 0);
    Eigen::Vector4d s; s << at(0, 0), 0, 0;
    for (double p : {1., 2., 3.}) { double g = t.gospa({s}, 10, p), w = std::pow(std::pow(10, p) / 2, 1 / p); CHECK(near(g, w, 1e-6), "p %g: %.6f, should be %.6f", p, g, w); }
    return bad;
}
'''
