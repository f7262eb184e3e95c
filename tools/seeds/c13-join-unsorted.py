prop = "C13"
needs = "Mixtures whose components are not in order of weight before the join, as after a correction that favours a light component."
breaks = "The inputs of a join are taken as already sorted, so components come out of order, and heavy ones can be dropped behind a light one."
edits = [("include/gm.hpp", "            std::sort(std::rbegin(pdfs[j].c), std::rend(pdfs[j].c));\n            //", "            //")]
demo = PRE + r'''
int main() {
    Params p; p.cw_lim = .1;
    auto g = [&](std::vector<double> w) { D d(&p); for (double v : w) { Eigen::Vector4d m; m << d.c.size(), 0, 0, 0; d.c.emplace_back(m, Eigen::Matrix4d::Identity(), v); } return d; };
    std::vector<D> v{g({.5, .5}), g({.05, .95})}; Eigen::Matrix<double, 1, 2> w; w << .5, .5;
    D out(&p); D::join(out, w, v);
    double heavy = 0; for (auto& c : out.c) heavy = std::max(heavy, c.w);
    CHECK(out.c.size() == 3, "%zu components", out.c.size()); CHECK(near(heavy, .475 / .975, 1e-9), "%.6f", heavy);
    for (unsigned i = 1; i < out.c.size(); ++i) CHECK(out.c[i].w <= out.c[i - 1].w);
    return bad;
}
'''
