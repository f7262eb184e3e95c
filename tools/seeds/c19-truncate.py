prop = "C19"
needs = "Mass just outside the lower border of the region, within one cell."
breaks = "Cell numbers are truncated towards zero, so what lies up to a cell below the region is counted in its first cells."
edits = [("include/lmb.hpp", "((samples.col(s).array() - corner) / gridsize).floor().cast<int>();", "((samples.col(s).array() - corner) / gridsize).template cast<int>();")]
demo = PRE + r'''
int main() {
    Tracker t; add(t, -30, 0, .5, 400);
    cf::LL a = at(-20, -500), b = at(980, 500);     // the track is mostly south of the region
    auto m = t.pos_phd(AABBox(a.x(), a.y(), b.x(), b.y()), Eigen::Array2i(10, 10));
    CHECK(m.sum() < .25, "%.4f in the region", m.sum());
    return bad;
}
'''
