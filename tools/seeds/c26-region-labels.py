prop = "C26"
needs = "A region-restricted listing of tracks with labels other than zero."
breaks = "The region-restricted listing leaves the cluster label of its entries at zero."
edits = [("include/lmb.hpp", """            for (auto& t : targettree.query(aabbox)) {
                res.emplace_back(t->pdf.mean(),
                                 t->pdf.cov(),
                                 t->r,
                                 t->id,
                                 t->cid);""", """            for (auto& t : targettree.query(aabbox)) {
                res.emplace_back(t->pdf.mean(),
                                 t->pdf.cov(),
                                 t->r,
                                 t->id);""")]
demo = PRE + r'''
int main() {
    Tracker t; Scan s{z(0, 0), z(300, 0), z(600, 0)}; t.correct(sensor(.9, 2), s, 1);
    for (auto& a : t.get_targets(AABBox(0, 0, 90, 90))) for (auto& b : t.get_targets()) if (a.id == b.id) CHECK(a.cid == b.cid, "%u and %u", a.cid, b.cid);
    return bad;
}
'''
