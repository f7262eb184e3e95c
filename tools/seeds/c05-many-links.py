prop = "C05"
needs = "A report shared by two tracks of which the first has four other reports, and which comes before the reports of the second in memory."
breaks = "A report that is already linked to four others takes no further links, so a group connected by it alone falls apart and tracks are put in two clusters."
edits = [("include/connectedcomponents.hpp", "        connections[k].insert(cs.begin(), cs.end());", "        // A handful of links keeps a component together\n        if (connections[k].size() < 4) {\n            connections[k].insert(cs.begin(), cs.end());\n        }")]
demo = PRE + r'''
int main() {
    for (int rev = 0; rev < 2; ++rev) {
        Tracker t; t.params.nhyp_max = 2;
        Tracker::Target* a = add(t, 0, 0, .6, 30); Tracker::Target* b = add(t, 20, 0, .6, 30); (void)a; (void)b;
        std::vector<double> p; for (int k = 0; k < 5; ++k) p.push_back(-8 + .3 * k);
        p.push_back(10); p.push_back(20); if (rev) std::reverse(p.begin(), p.end());
        Scan s; for (double x : p) s.push_back(z(x, 0, .5, .1));
        auto sn = sensor(); t.correct(sn, s, 1);
        for (auto& r : s) CHECK(r.cid == s[0].cid, "labels %u and %u", r.cid, s[0].cid);
        CHECK(t.nof_clusters == 1, "%u clusters", t.nof_clusters);
    }
    return bad;
}
'''
