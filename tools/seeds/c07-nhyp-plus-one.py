prop = "C07"
needs = "A cluster with more than nhyp_max hypotheses whose weights stay above w_lim."
breaks = "One hypothesis more than nhyp_max is used (and counted)."
edits = [("include/cluster.hpp", "n >= params->nhyp_max", "n > params->nhyp_max")]
demo = PRE + r'''
int main() {
    for (int lim = 1; lim < 6; ++lim) {
        Tracker t; t.params.w_lim = 0; t.params.nhyp_max = lim; add(t, 0, 0); add(t, 0, 1);
        Scan s{z(0, 0), z(0, 1)}; t.correct(sensor(), s, 1);
        CHECK(t.cluster_nhyps[0] == lim, "%d used", t.cluster_nhyps[0]);
    }
    return bad;
}
'''
