prop = "C27"
needs = "The joint distribution of neighbouring columns of a sample; each column on its own looks right."
breaks = "Every second column mirrors the one before instead of drawing anew, so the columns are not independent."
edits = [("include/statistics.hpp", "            res.col(i) = mean + transform", """            if (i % 2) {
                // Mirrored pairs keep the sample mean close to the mean
                for (Eigen::DenseIndex k = 0; k < res.rows(); ++k) { res(k, i) = 2 * mean[k] - res(k, i - 1); }
                continue;
            }
            res.col(i) = mean + transform""")]
demo = PRE + r'''
int main() {
    Eigen::Matrix2d P; P << 5, 2, 2, 5; Gaussian_<2> g(Eigen::Vector2d(1, 2), P);
    Eigen::Matrix<double, 2, Eigen::Dynamic> s(2, 4000); g.sample(s);
    double c = 0; for (int k = 0; k < 4000; k += 2) c += (s(0, k) - 1) * (s(0, k + 1) - 1) / 2000;
    CHECK(std::fabs(c) < 1.5, "%g", c);
    return bad;
}
'''
