prop = "C10"
needs = "A track whose covariance has a trace above the limit and a Frobenius norm below it."
breaks = "The limit is compared with the trace of the position covariance."
edits = [("include/target.hpp", "        if (pdf.poscov().norm() > params->cov_lim) {", "        if (pdf.poscov().trace() > params->cov_lim) {")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.cov_lim = 100; add(t, 0, 0, .9, 60);      // norm 85, trace 120
    Nm m(1, Eigen::Matrix4d::Zero()); t.predict(m, 1, 0);
    CHECK(t.targettree.targets.size() == 1, "%zu tracks", t.targettree.targets.size());
    return bad;
}
'''
