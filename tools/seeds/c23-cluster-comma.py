prop = "C23"
needs = "A cluster with at least two tracks."
breaks = "The tracks of a printed cluster are not separated when there are reports as well."
edits = [("include/cluster.hpp", "        first = true;\n        for (auto& t : targets) {\n            if (!first)", "        first = !reports.empty();\n        for (auto& t : targets) {\n            if (!first && targets.size() > reports.size())")]
demo = PRE + r'''
int main() {
    typedef Cluster_<Report, Tracker::Target> C; Tracker t; auto* a = add(t, 0, 0); auto* b = add(t, 0, 1); Scan s{z(0, 0), z(0, 1)};
    for (int r = 0; r < 3; ++r) for (int k = 0; k < 3; ++k) {
        std::vector<Report*> rs; std::vector<Tracker::Target*> ts; if (r > 0) rs.push_back(&s[0]); if (r > 1) rs.push_back(&s[1]); if (k > 0) ts.push_back(a); if (k > 1) ts.push_back(b);
        std::string o = print(C(0, rs, ts, &t.params)); size_t at_ = o.find("\"T\":["); int commas = 0, depth = 0;
        for (size_t i = at_ + 5; i < o.size() && depth >= 0; ++i) { if (o[i] == '[' || o[i] == '{') ++depth; if (o[i] == ']' || o[i] == '}') --depth; if (o[i] == ',' && depth == 0) ++commas; }
        CHECK(commas == std::max(0, k - 1), "%d reports, %d tracks, %d commas", r, k, commas);
    }
    return bad;
}
'''
