prop = "C24"
needs = "A component predicted inside the field of view that a report pulls out of it, or the other way around."
breaks = "The detection probability is that of the updated component and not of the predicted one."
edits = [("include/gaussian.hpp", "        w *= s.pD(*this, origin) * z.likelihood(dz, Dinv) / z.kappa;\n        x += K * dz;\n", "        const Self prior(*this);\n        x += K * dz;\n        w *= s.pD(*this, origin) * z.likelihood(dz, Dinv) / z.kappa;\n"),
         ("include/gaussian.hpp", "        P -= K * s.H * P;", "        P = prior.P - K * s.H * prior.P;")]
demo = PRE + r'''
int main() {
    // a precise track well inside, a more precise report well outside the field of view
    Tracker t; t.params.w_lim = 0; t.params.cw_lim = 0; auto* a = add(t, -8, 0, .5, 1); Sensor s = sensor(.9, 0);
    s.fov.corners << at(0, 100), at(0, -100), at(-100, -100), at(-100, 100);
    a->transform_to_local(O); Report r(at(6, 0), cov(.01), 1e-43); r.transform_to_local(O);
    D d(a->pdf); double l = d.correct(r, s);
    double want = .9 * std::exp(-.5 * 14 * 14 / 1.01) / (2 * M_PI * 1.01) / 1e-43;
    CHECK(near(l, want, 1e-2), "%g, should be %g", l, want);
    return bad;
}
'''
