prop = "C18"
needs = "A region query between two scans with a track that has fallen below the limit by a change of the settings."
breaks = "Counting the tracks in a region also drops those that are no longer viable."
edits = [("include/lmb.hpp", """            for (auto& t : targettree.query(aabbox)) {
                if (t->r >= r_lim) { ++res; }
            }""", """            for (auto& t : targettree.query(aabbox)) {
                if (t->r >= r_lim) {
                    ++res;
                } else if (!t->viable()) {
                    // On its way out anyway
                    targettree.remove(t);
                    targettree.erase(t);
                }
            }""")]
demo = PRE + r'''
int main() {
    Tracker t; add(t, 0, 0, .9); add(t, 100, 0, .06); add(t, 200, 0, .04);
    auto before = t.get_targets(); double n = t.enof_targets();
    t.nof_targets(AABBox(0, 0, 90, 90), .5);
    CHECK(t.get_targets().size() == before.size()); CHECK(near(t.enof_targets(), n, 1e-12));
    return bad;
}
'''
