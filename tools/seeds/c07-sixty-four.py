prop = "C07"
needs = "A track whose hypotheses hold more than 64 components of more than cw_lim each."
breaks = "A joined mixture keeps at most 64 components and not as many as the density may have."
edits = [("include/gm.hpp", "        for (unsigned n = 0; (n < MAX_COMPONENTS) && !q.empty(); ++n) {", "        const unsigned cap = std::min(MAX_COMPONENTS, 64);\n        for (unsigned n = 0; (n < cap) && !q.empty(); ++n) {")]
demo = PRE + r'''
int main() {
    Params p; p.cw_lim = 0;
    std::vector<D> v; Eigen::Matrix<double, 1, Eigen::Dynamic> w(1, 4); w.setConstant(.25);
    for (int k = 0; k < 4; ++k) { D d(&p); for (int i = 0; i < 30; ++i) { Eigen::Vector4d m; m << k, i, 0, 0; d.c.emplace_back(m, Eigen::Matrix4d::Identity(), 1. / 30); } v.push_back(d); }
    D out(&p); D::join(out, w, v);
    CHECK(out.c.size() == 120, "%zu components", out.c.size());
    return bad;
}
'''
