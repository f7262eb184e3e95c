prop = "C03"
needs = "A tree of at least three levels (more than 30 entries) from which enough neighbouring entries are removed that an inner node falls below its minimum and its children are re-inserted."
breaks = "Children of a dissolved inner node are re-inserted one level too high, so their subtrees are searched as the wrong kind of node: entries are lost or the index crashes."
edits = [("include/RTree.h", "                   tempNode->m_level);\r\n", "                   tempNode->m_level > 1 ? tempNode->m_level - 1 : 0);\r\n")]
demo = r'''
#include <cstdio>
#include <vector>
#include <algorithm>
#include "RTree.h"
static long ids[600];
typedef RTree<long*, double, 2> T;
static bool cb(long* p, void* v) { ((std::vector<long>*)v)->push_back(p - ids); return true; }
int main() {
    int bad = 0;
    T t; std::vector<int> in;
    auto box = [](int k, double* a, double* b) { a[0] = k % 20; a[1] = k / 20; b[0] = a[0] + .5; b[1] = a[1] + .5; };
    double a[2], b[2];
    for (int k = 0; k < 600; ++k) { box(k, a, b); t.Insert(a, b, ids + k); in.push_back(k); }
    while (!in.empty()) {
        int k = in.front(); in.erase(in.begin()); box(k, a, b); t.Remove(a, b, ids + k);
        std::vector<long> got; double lo[2] = {-9, -9}, hi[2] = {99, 99};
        t.Search(lo, hi, cb, &got); std::sort(got.begin(), got.end());
        if (!std::equal(got.begin(), got.end(), in.begin(), in.end())) { ++bad; break; }
    }
    printf("%s\n", bad ? "entries lost" : "ok");
    return bad;
}
'''
