prop = "C15"
needs = "A track of several components whose heaviest one is not covered by the boxes of the others."
breaks = "The union of the component boxes starts at the first component's mean and skips its box."
edits = [("include/gm.hpp", "        for (unsigned i = 0; i < c.size(); ++i) {\n            AABBox cbox", "        for (unsigned i = (c.size() > 1); i < c.size(); ++i) {\n            AABBox cbox")]
demo = PRE + r'''
int main() {
    Params p; Eigen::Vector4d x; x << at(0, 0), 0, 0;
    D d(&p, x, Eigen::Matrix4d::Identity() * 100); d.c.push_back(d.c[0]); d.c[0].w = d.c[1].w = .5; d.c[1].x.head<2>() = at(30, 0); d.c[1].P *= .01;
    d.transform_to_local(); d.transform_to_global();
    AABBox want = AABBox(cov(100), p.nstd).llaabbox(at(0, 0));
    CHECK(d.llaabbox().min[0] < want.min[0] + 1e-6, "%.9f %.9f", d.llaabbox().min[0], want.min[0]);
    return bad;
}
'''
