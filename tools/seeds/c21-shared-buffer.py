prop = "C21"
needs = "Two threads that list the tracks of one tracker at the same time."
breaks = "The track list is assembled in a buffer of the tracker and handed out by reference, so a caller copies it while another call rebuilds it."
edits = [("include/lmb.hpp", "    TargetSummaries get_targets() {", "    const TargetSummaries& get_targets() {"),
         ("include/lmb.hpp", "    TargetSummaries get_targets(const AABBox& aabbox) {", "    const TargetSummaries& get_targets(const AABBox& aabbox) {"),
         ("include/lmb.hpp", """        TargetSummaries res;
        CRITICAL(ttree)
        {
            for (auto& t : targettree.targets) {
                res.emplace_back(""", """        TargetSummaries& res = summaries;
        res.clear();
        CRITICAL(ttree)
        {
            for (auto& t : targettree.targets) {
                res.emplace_back("""),
         ("include/lmb.hpp", """        TargetSummaries res;
        CRITICAL(ttree)
        {
            for (auto& t : targettree.query(aabbox)) {
                res.emplace_back(""", """        TargetSummaries& res = summaries;
        res.clear();
        CRITICAL(ttree)
        {
            for (auto& t : targettree.query(aabbox)) {
                res.emplace_back("""),
         ("include/lmb.hpp", "    TargetTree targettree;", "    TargetTree targettree;\n    TargetSummaries summaries;  // Reused between calls"),
         ("lmb/lmb.cpp", "(typename Tracker::TargetSummaries (Tracker::*)())&Tracker", "(const typename Tracker::TargetSummaries& (Tracker::*)())&Tracker"),
         ("lmb/lmb.cpp", "(typename Tracker::TargetSummaries (Tracker::*)(const AABBox&))&Tracker", "(const typename Tracker::TargetSummaries& (Tracker::*)(const AABBox&))&Tracker")]
demo = PRE + r'''
#include <thread>
#include <atomic>
int main() {
    Tracker t; for (int k = 0; k < 40; ++k) add(t, 100 * k, 0, .5);
    AABBox one(at(-20, -20).x(), at(-20, -20).y(), at(20, 20).x(), at(20, 20).y());
    std::atomic<long> wrong{0};
    std::thread a([&] { for (int k = 0; k < 4000; ++k) { auto s = t.get_targets(); if (s.size() != 40) ++wrong; } });
    std::thread b([&] { for (int k = 0; k < 4000; ++k) { auto s = t.get_targets(one); if (s.size() != 1 || s[0].r != .5) ++wrong; } });
    a.join(); b.join();
    CHECK(wrong == 0, "%ld lists of another call", (long)wrong);
    return bad;
}
'''
