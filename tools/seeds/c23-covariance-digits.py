prop = "C23"
needs = "Means or covariances that need more than six digits."
breaks = "Matrices are printed with the precision of the stream, so positions in degrees are off by metres."
edits = [("include/constants.hpp", "eigenformat(Eigen::FullPrecision,", "eigenformat(Eigen::StreamPrecision,")]
demo = PRE + r'''
int main() {
    Eigen::Vector4d x; x << 58.123456789, 15.987654321, 0, 0; Gaussian_<4> g(x, Eigen::Matrix4d::Identity());
    std::string s = print(g); double a = 0; size_t k = s.find("\"x\":["); CHECK(k != std::string::npos); sscanf(s.c_str() + k + 5, "%*[[]%lf", &a); if (!a) sscanf(s.c_str() + k + 5, "%lf", &a);
    CHECK(std::abs(a - x[0]) < 1e-9, "%.12f in %s", a, s.c_str());
    return bad;
}
'''
