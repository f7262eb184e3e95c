prop = "C29"
needs = "Reports of different clutter intensity in one cluster."
breaks = "All reports of a cluster are weighed with the clutter intensity of the one seen first, so the outcome depends on the order of the reports."
edits = [("include/target.hpp", "            res(0, j) = -std::log(r * pdfs[j].correct(*reports[j], sensor));", "            res(0, j) = -std::log(r * pdfs[j].correct(*reports[j], sensor)\n                                  * (reports[j]->kappa / reports[0]->kappa));")]
demo = PRE + r'''
int main() {
    auto run = [](bool swap) { Tracker t; t.params.w_lim = 0; auto* a = add(t, 0, 0); Scan s{z(.5, 0, 1, .1), z(-.5, 0, 1, 2)}; if (swap) std::swap(s[0], s[1]); t.correct(sensor(.8, 0), s, 1); return a->r; };
    CHECK(near(run(false), run(true), 1e-6), "%.6f and %.6f", run(false), run(true));
    return bad;
}
'''
