prop = "C20"
needs = "Two clusters with a birth each, processed by two threads at the same time."
breaks = "New tracks are put into the shared list and index without holding the lock."
edits = [("include/lmb.hpp", """                        CRITICAL(ttree)
                        {
                            auto t = targettree.new_target(
                                std::min(nr, params.rB_max),
                                sensor.pdf_init1(&params, **r, time), time);
                            t->cid = (*r)->cid;
                        }""", """                        auto t = targettree.new_target(
                            std::min(nr, params.rB_max),
                            sensor.pdf_init1(&params, **r, time), time);
                        t->cid = (*r)->cid;""")]
cflags = "-fsanitize=address"
env = "ASAN_OPTIONS=detect_leaks=0"
demo = PRE + r'''
#include <omp.h>
int main() {
    omp_set_num_threads(8);
    for (int k = 0; k < 300 && !bad; ++k) {
        Tracker t; t.params.r_lim = 1e-3; Scan s; for (int i = 0; i < 200; ++i) s.push_back(z(100 * (i % 20), 100 * (i / 20)));
        t.correct(sensor(.9, 100), s, 1);
        std::vector<char> seen(200); for (auto* x : t.targettree.targets) { CHECK(x->id < 200 && !seen[x->id]); if (x->id < 200) seen[x->id] = 1; }
        CHECK(t.targettree.targets.size() == 200); CHECK(t.get_targets(AABBox(0, 0, 90, 90)).size() == 200);
    }
    return bad;
}
'''
