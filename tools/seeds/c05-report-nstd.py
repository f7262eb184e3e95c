prop = "C05"
needs = "A tracker with nstd other than two and reports between the two sizes of box from a track."
breaks = "Reports are matched by a box of the tracker's nstd instead of their own two standard deviations."
edits = [("include/lmb.hpp", "targettree.query(r->llaabbox());", "targettree.query(AABBox(r->P, params.nstd).llaabbox(r->pos()));")]
demo = PRE + r'''
int main() {
    auto run = [](double nstd, double d) { Tracker t; t.params.nstd = nstd; add(t, 0, 0, .5, 1); Scan s{z(d, 0, 4)}; Sensor q = sensor(.9, 0); t.correct(q, s, 1); return t.cluster_ntargets.empty() ? -1 : t.cluster_ntargets[s[0].cid]; };
    CHECK(run(1, 4.5) == 1, "%d", run(1, 4.5));      // the track reaches to 1, the report from .5 on
    CHECK(run(3, 7.5) != 1, "%d", run(3, 7.5));      // to 3, from 3.5 on
    return bad;
}
'''
