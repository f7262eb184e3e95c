prop = "C20"
needs = "Two clusters finishing at the same time on two threads, one of them removing its track."
breaks = "Tracks that are no longer viable are erased from the shared list outside the lock, while another cluster does the same or returns its tracks."
edits = [("include/cluster.hpp", """        CRITICAL(ttree)
        {
            for (unsigned i = 0; i < M; ++i) {
                if (targets[i]->viable()) {
                    targettree.replace(targets[i]);
                } else {
                    targettree.erase(targets[i]);
                }
            }
        }""", """        for (unsigned i = 0; i < M; ++i) {
            if (targets[i]->viable()) {
                CRITICAL(ttree)
                {
                    targettree.replace(targets[i]);
                }
            } else {
                targettree.erase(targets[i]);
            }
        }""")]
cflags = "-fsanitize=address"
env = "ASAN_OPTIONS=detect_leaks=0"
demo = PRE + r'''
#include <omp.h>
int main() {
    omp_set_num_threads(8);
    for (int k = 0; k < 400 && !bad; ++k) {
        Tracker t; for (int i = 0; i < 200; ++i) add(t, 100 * (i % 20), 100 * (i / 20), i % 2 ? .9 : .06);
        Scan s; Sensor q = sensor(.5, 0); t.correct(q, s, 1);
        CHECK(t.targettree.targets.size() == 100, "%zu left", t.targettree.targets.size());
        for (auto* x : t.targettree.targets) CHECK(x->id % 2 == 1);
        CHECK(t.get_targets(AABBox(0, 0, 90, 90)).size() == 100);
    }
    return bad;
}
'''
