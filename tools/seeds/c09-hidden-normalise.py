prop = "C09"
needs = "A long elapsed time (more than a hundred scaled units) in one prediction."
breaks = "The process noise of one prediction is limited to that of a hundred time units, so one long step is more certain than many short ones."
edits = [("include/models.hpp", "            double dT3 = dT * dT * dT / 3;\n            Q <<", "            double dT3 = dT * dT * std::min(dT, 100.0) / 3;\n            Q <<"),
         ("include/models.hpp", "#include <Eigen/Core>\n#include \"params.hpp\"", "#include <Eigen/Core>\n#include <algorithm>\n#include \"params.hpp\"")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.cov_lim = 1e12; auto* a = add(t, 0, 0, .5);
    Cv m(1, 1e-4); t.predict(m, 150, 0);
    double want = 1 + 150. * 150 + 1e-4 * 150. * 150 * 150 / 3;
    CHECK(near(a->pdf.c[0].P(0, 0), want, 1e-6), "%.6f, should be %.6f", a->pdf.c[0].P(0, 0), want);
    return bad;
}
'''
