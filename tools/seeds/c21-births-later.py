prop = "C21"
needs = "A query from another thread between the births of one scan."
breaks = "The tracker is released before the births of a scan, so queries see some of them without the others."
edits = [("include/lmb.hpp", """        std::lock_guard<std::recursive_mutex> lock(mutex);
        using Report = typename Sensor::Report;
        using Cluster = Cluster_<Report, Target>;""", """        std::unique_lock<std::recursive_mutex> lock(mutex);
        using Report = typename Sensor::Report;
        using Cluster = Cluster_<Report, Target>;"""),
         ("include/lmb.hpp", "        // Reports have now moved to their respective clusters' NE system\n        birth(", "        // The existing tracks are done, the tree is guarded on its own\n        lock.unlock();\n        birth(")]
demo = PRE + r'''
#include <thread>
#include <atomic>
struct Slow : Sensor {
    D pdf_init1(Params* p, const Report& r, double t) const { std::this_thread::sleep_for(std::chrono::milliseconds(2)); return Sensor::pdf_init1(p, r, t); }
};
int main() {
    std::atomic<long> partial{0};
    for (int k = 0; k < 60 && !partial; ++k) {
        Tracker t; Slow s; s.lambdaB = 8; s.pD_ = .9; Scan r; for (int j = 0; j < 8; ++j) r.push_back(z(0, 200 * j));
        std::atomic<bool> go{true};
        std::thread q([&] { while (go) { auto n = t.get_targets().size(); if (n != 0 && n != 8) ++partial; } });
        t.correct(s, r, 1); go = false; q.join();
        CHECK(t.get_targets().size() == 8);
    }
    CHECK(partial == 0, "seen in between");
    return bad;
}
'''
