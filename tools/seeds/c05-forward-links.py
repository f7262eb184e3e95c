prop = "C05"
needs = "A chain of three reports in which the first and the last overlap only through a report between them that comes later in the scan."
breaks = "Reports that share a track are linked only towards later reports, so a chain is cut into several clusters for some orders of the scan."
edits = [("include/lmb.hpp", "                cc.connect(&(*r), matching_reports[*t]);", "                // The earlier reports have linked to this one already\n                auto& linked = matching_reports[*t];\n                cc.connect(&(*r), Reports(std::find(linked.begin(), linked.end(), &(*r)), linked.end()));")]
demo = PRE + r'''
int main() {
    std::vector<double> pos{0, 3.6, 7.2};      // tracks between neighbours
    std::vector<int> p{0, 1, 2};
    do {
        Tracker t; add(t, 0, 1.8); add(t, 0, 5.4);
        Scan s; for (int i : p) s.push_back(z(0, pos[i], .25));
        t.correct(sensor(), s, 1);
        CHECK(t.nof_clusters == 1, "%u clusters for order %d %d %d", t.nof_clusters, p[0], p[1], p[2]);
        CHECK(s[0].cid == s[1].cid && s[1].cid == s[2].cid);
    } while (std::next_permutation(p.begin(), p.end()));
    return bad;
}
'''
