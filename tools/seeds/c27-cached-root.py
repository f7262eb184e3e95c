prop = "C27"
needs = "Two samplings in a row, in one thread, from covariances with the same diagonal and different correlation."
breaks = "The eigen decomposition is kept for the next call and taken again when the variances are the same, so samples get the correlation of the density sampled before."
edits = [("include/statistics.hpp", "        Eigen::SelfAdjointEigenSolver<COV> eigenSolver(covariance);", """        // Sampling the same density again is common: keep its decomposition
        static thread_local Eigen::SelfAdjointEigenSolver<COV> eigenSolver;
        static thread_local Eigen::Matrix<double, COV::RowsAtCompileTime, 1> variances;
        static thread_local bool known = false;
        if (!known || variances != covariance.diagonal()) {
            eigenSolver.compute(covariance);
            variances = covariance.diagonal();
            known = true;
        }""")]
demo = PRE + r'''
static double corr(double c) {
    Eigen::Matrix2d P; P << 5, c, c, 5; Gaussian_<2> g(Eigen::Vector2d(0, 0), P);
    Eigen::Matrix<double, 2, Eigen::Dynamic> s(2, 4000); g.sample(s);
    return s.row(0).dot(s.row(1)) / 4000;
}
int main() {
    double a = corr(4), b = corr(-4), c = corr(0);
    CHECK(std::fabs(a - 4) < 1.2, "%g", a); CHECK(std::fabs(b + 4) < 1.2, "%g", b); CHECK(std::fabs(c) < 1.2, "%g", c);
    return bad;
}
'''
