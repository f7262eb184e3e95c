prop = "C19"
needs = "A grid with different numbers of cells north and east."
breaks = "The width of a cell east is computed from the number of cells north."
edits = [("include/lmb.hpp", "            (neaabbox.max[1] - neaabbox.min[1]) / size.y();", "            (neaabbox.max[1] - neaabbox.min[1]) / size.x();")]
demo = PRE + r'''
int main() {
    Tracker t; add(t, 0, 35, .5, 1e-4); cf::LL a = at(-40, -40), b = at(40, 40);
    auto m = t.pos_phd(AABBox(a.x(), a.y(), b.x(), b.y()), Eigen::Array2i(4, 8));
    CHECK(near(m.col(7).sum(), .5, 1e-6), "%g", m.col(7).sum());
    return bad;
}
'''
