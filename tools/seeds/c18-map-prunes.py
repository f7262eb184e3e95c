prop = "C18"
needs = "A map of a region with a track that has a component lighter than the limit, as after a change of the settings or a prediction of a mixture that has just been corrected."
breaks = "Mapping the tracks drops the light components of those it samples, so means and covariances change and later scans see other tracks."
edits = [("include/lmb.hpp", "            for (auto t : targets) {\n", "            for (auto& t : targets) {\n                if (t->pdf.c.size() > 1) { t->pdf.prune(); }  // No need to sample the lightest ones\n")]
demo = PRE + r'''
int main() {
    Tracker t; auto x = add(t, 0, 0, .9);
    auto g = x->pdf.c[0]; t.targettree.remove(x);
    x->pdf.c[0].w = .995; g.w = .005; g.x.head<2>() = at(9, 0); x->pdf.c.push_back(g);
    x->pdf.transform_to_local(); x->pdf.transform_to_global(); t.targettree.replace(x);
    t.params.cw_lim = .01;
    auto before = t.get_targets();
    AABBox a(at(-20, -20).x(), at(-20, -20).y(), at(20, 20).x(), at(20, 20).y());
    t.pos_phd(a, Eigen::Array2i(4, 4));
    auto after = t.get_targets();
    CHECK(after.size() == 1 && after[0].cov() == before[0].cov(), "%.9f %.9f", after[0].cov()(0, 0), before[0].cov()(0, 0));
    return bad;
}
'''
