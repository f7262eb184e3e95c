prop = "C12"
needs = "Reports carrying a clutter intensity of their own that differs from the sensor's."
breaks = "The sensor's clutter intensity is used in place of the report's."
edits = [("include/gaussian.hpp", "z.likelihood(dz, Dinv) / z.kappa;", "z.likelihood(dz, Dinv) / s.kappa(z);")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.w_lim = 0; auto* a = add(t, 0, 0, .5);
    Scan s{z(0, 0, 1, .01)}; t.correct(sensor(.5, 0), s, 1);
    double l = .5 * .5 / (2 * M_PI * 2) / .01; double want = (l + .25) / (l + .25 + .5);
    CHECK(near(a->r, want, 1e-4), "%.6f, should be %.6f", a->r, want);
    return bad;
}
'''
