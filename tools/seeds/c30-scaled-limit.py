prop = "C30"
needs = "A component of small weight, or a track of small existence probability, with points in its tail."
breaks = "The limit below which a component adds nothing is applied to the scaled density, so light components disappear from the map where heavier ones would not."
edits = [("include/gaussian.hpp", "        if (psum > 1e-7) {", "        if (psum * scale > 1e-7) {")]
demo = PRE + r'''
int main() {
    Eigen::Array<double, 2, Eigen::Dynamic> p(2, 2); p << 5, 5.1, 0, 0;
    Gaussian_<4> g(Eigen::Vector4d::Zero(), Eigen::Matrix4d::Identity());
    for (double s : {1., .01, 1e-4}) { Eigen::Array<double, 1, Eigen::Dynamic> r(1, 2); r.setZero(); g.sampled_pos_pdf(p, r, s); CHECK(near(r.sum() / s, 1, 1e-9), "scale %g: %g", s, r.sum()); }
    return bad;
}
'''
