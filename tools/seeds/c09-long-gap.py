prop = "C09"
needs = "A prediction over more than a minute."
breaks = "Predictions over long gaps move and widen tracks as if a minute had passed."
edits = [("include/models.hpp", "            double dT = (time - last_time) / t->params->tscale;\n\n            Eigen::Matrix4d F;", "            double dT = std::min((time - last_time) / t->params->tscale, 60.0);\n\n            Eigen::Matrix4d F;")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.cov_lim = 1e18; add(t, 0, 0, .5, 1, 1, 0); Cv m(1, 0); t.predict(m, 100, 0);
    auto g = t.get_targets(); CHECK(g.size() == 1 && std::abs(cf::ll2ne(g[0].x.head<2>(), O)[0] - 100) < .1, "%g", g.empty() ? -1. : cf::ll2ne(g[0].x.head<2>(), O)[0]);
    return bad;
}
'''
