prop = "C07"
needs = "A track whose mixture has several components of similar weight, so that the accumulated weight exceeds the largest one by far, and components near cw_lim."
breaks = "Components are cut by their share of the heaviest one and not of the accumulated weight, so components that should be dropped stay."
edits = [("include/gm.hpp", "            if (nw / wsum < pdf.params->cw_lim) {", "            if (nw / (pdf.c.empty() ? nw : pdf.c[0].w) < pdf.params->cw_lim) {")]
demo = PRE + r'''
int main() {
    Params p; p.cw_lim = .1;
    auto g = [&](double x, double w) { Eigen::Vector4d m; m << x, 0, 0, 0; D d(&p); d.c.emplace_back(m, Eigen::Matrix4d::Identity(), w); return d; };
    std::vector<D> v; for (double w : {.3, .3, .3, .08, .02}) { (void)w; v.push_back(g(v.size(), 1)); }
    Eigen::Matrix<double, 1, 5> w; w << .3, .3, .3, .08, .02;
    D out(&p); D::join(out, w, v);
    CHECK(out.c.size() == 3, "%zu components", out.c.size());       // .08/.98 < .1
    return bad;
}
'''
