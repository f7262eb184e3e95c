prop = "C29"
needs = "A report that overlaps several tracks, of which a later one links it to others, and that is not first in its scan."
breaks = "Only the first report and the first track of each report link others, so the clusters depend on the order of the reports."
edits = [("include/lmb.hpp", "                cc.connect(&(*r), matching_reports[*t]);", "                if (r == std::begin(scan) || t == std::begin(matching_targets[&(*r)])) {\n                    cc.connect(&(*r), matching_reports[*t]);\n                }")]
demo = PRE + r'''
int main() {
    std::vector<int> perm{0, 1, 2}; std::vector<size_t> sizes;
    do { Tracker t; add(t, 0, -4); add(t, 0, 4); Scan all{z(0, -8, 1.5), z(0, 0, 4), z(0, 8, 1.5)}, s; for (int k : perm) s.push_back(all[k]); Sensor q = sensor(.9, 0); t.correct(q, s, 1); sizes.push_back(t.nof_clusters); } while (std::next_permutation(perm.begin(), perm.end()));
    for (auto n : sizes) CHECK(n == 1, "%zu clusters", n);
    return bad;
}
'''
