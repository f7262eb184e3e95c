prop = "C01"
needs = "A matrix in which two augmenting paths differ in length by less than a thousandth, so that the first one found is taken although the other is shorter."
breaks = "Distances within 1e-3 of the minimum are treated as ties when an augmenting path is extended, so the assignment is not of minimum cost for costs that differ by small amounts."
edits = [("include/rlapjv.h", "if (v2 == min)", "if (v2 <= min + 1e-3)")]
demo = r'''
#include <Eigen/Core>
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <vector>
#include "murty.hpp"
int main() {
    unsigned s = 7; int bad = 0;
    for (int t = 0; t < 3000; ++t) {
        int n = 3 + t % 3;
        lap::CostMatrix C(n, n);
        for (int i = 0; i < n * n; ++i) { s = s * 1664525u + 1013904223u; C.data()[i] = ((s >> 16) % 9) * 1e-4; }
        std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
        double best = 1e9;
        do { double c = 0; for (int i = 0; i < n; ++i) c += C(i, p[i]); best = std::min(best, c); } while (std::next_permutation(p.begin(), p.end()));
        auto x = lap::lap(C);
        if (std::abs(lap::cost(C, x) - best) > 1e-9) ++bad;
    }
    printf("%d suboptimal\n", bad);
    return bad != 0;
}
'''
