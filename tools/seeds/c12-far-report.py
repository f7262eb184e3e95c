prop = "C12"
needs = "A report more than ten standard deviations away from a track's components, all of them."
breaks = "The likelihood of far reports does not fall below e^-50 of its peak, so very distant components are all weighed alike."
edits = [("include/report.hpp", "std::exp(-(dz.transpose() * Dinv * dz)(0) * 0.5)", "std::exp(-std::min(50.0, (dz.transpose() * Dinv * dz)(0) * 0.5))")]
demo = PRE + r'''
int main() {
    Eigen::Matrix2d I = Eigen::Matrix2d::Identity(); GaussianReport_<2> r(O, I); Eigen::Vector2d d(12, 0);
    double want = -72 - std::log(2 * M_PI), got = std::log(r.likelihood(d, I)); CHECK(near(got, want, 1e-9), "%g, should be %g", got, want);
    return bad;
}
'''
