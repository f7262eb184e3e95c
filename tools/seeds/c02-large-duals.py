prop = "C02"
needs = "Alternatives that cost more than a hundred thousand above the duals of their row and column."
breaks = "Such entries are taken for infeasible when the remaining problems are formed, so their assignments are never drawn."
edits = [("include/murty.hpp", "                if (C(i, j) >= lap::inf) {", "                if (C(i, j) - u[i] - v[j] >= 1e5) {")]
demo = r'''
#include <Eigen/Core>
#include <cstdio>
#include <iostream>
#include "murty.hpp"
int main() {
    lap::CostMatrix C(2, 3);
    C << 0, 1, 3e6,
         2, 4e5, 5;
    lap::Murty m(C);
    lap::Assignment x; double c; int n = 0;
    while (n < 100 && m.draw(x, c)) ++n;
    printf("%d assignments drawn, 6 exist\n", n);
    return n != 6;
}
'''
