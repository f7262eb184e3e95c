prop = "C08"
needs = "A report whose share of the expected births is exactly r_lim (one report, lambdaB equal to r_lim)."
breaks = "A report exactly at the limit founds no track."
edits = [("include/lmb.hpp", "                    if (nr >= params.r_lim) {", "                    if (nr > params.r_lim) {")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.r_lim = .25; Scan s{z(0, 0)};
    t.correct(sensor(.9, .25), s, 1);
    CHECK(t.targettree.targets.size() == 1, "%zu tracks", t.targettree.targets.size());
    return bad;
}
'''
