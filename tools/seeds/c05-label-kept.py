prop = "C05"
needs = "A scan in which the same report objects are used again, or a report that touches no track while another cluster comes before it."
breaks = "Reports that touch no track keep the label they had instead of that of their own cluster."
edits = [("include/lmb.hpp", "                                       matching_targets[r].end());\n                r->cid = cid;", "                                       matching_targets[r].end());\n                if (!cluster_targets.empty() || cluster_reports.size() > 1) { r->cid = cid; }")]
demo = PRE + r'''
int main() {
    Tracker t; Scan s{z(0, 0), z(300, 0), z(600, 0)}; t.correct(sensor(), s, 1);
    CHECK(s[0].cid != s[1].cid && s[1].cid != s[2].cid && s[0].cid != s[2].cid, "labels %u %u %u", s[0].cid, s[1].cid, s[2].cid);
    return bad;
}
'''
