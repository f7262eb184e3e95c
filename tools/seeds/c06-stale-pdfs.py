prop = "C06"
needs = "A track that takes part in two scans with the same number of reports in its cluster."
breaks = "The per-report candidate densities of a track are kept from the previous scan when their number is the same, so the update starts from an old density."
edits = [("include/target.hpp", "        pdfs.clear();\n        pdfs.resize(M + 1, pdf);", "        // Avoid reallocation\n        if (pdfs.size() != M + 1 || last_action == ACTION_PREDICT) {\n            pdfs.assign(M + 1, pdf);\n        }")]
demo = PRE + r'''
int main() {
    Tracker t; auto* a = add(t, 0, 0, .5);
    Tracker u; auto* b = add(u, 0, 0, .5);
    Sensor s = sensor(.9, 0);
    Scan s1{z(.3, 0)}, s2{z(.6, .2)}, s3{z(.5, .1)};
    t.correct(s, s1, 1); t.correct(s, s2, 1); t.correct(s, s3, 1);
    Nm still(1, Eigen::Matrix4d::Zero());
    Scan r1{z(.3, 0)}, r2{z(.6, .2)}, r3{z(.5, .1)};
    u.correct(s, r1, 1); u.predict(still, 1, 1); u.correct(s, r2, 1); u.predict(still, 1, 1); u.correct(s, r3, 1);
    CHECK(near(a->r, b->r, 1e-6), "%.9f and %.9f", a->r, b->r);
    CHECK((a->pdf.mean() - b->pdf.mean()).norm() < 1e-6); CHECK((a->pdf.cov() - b->pdf.cov()).norm() < 1e-5);
    return bad;
}
'''
