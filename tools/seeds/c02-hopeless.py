prop = "C02"
needs = "A matrix whose remaining alternatives cost at least 1000 more than the row's assigned entry (for instance the tracker's own large constant), drawn until exhaustion."
breaks = "Alternatives with a large reduced cost are never explored, so the ranking reports exhaustion before all finite assignments have been drawn."
edits = [("include/murty.hpp", "            if (dual < lap::inf) {\n", "            if (dual < 1e3) {\n")]
demo = r'''
#include <Eigen/Core>
#include <cstdio>
#include <iostream>
#include "murty.hpp"
int main() {
    lap::CostMatrix C(2, 3);
    C << 0, 1, 30000,
         2, 30000, 5;
    lap::Murty m(C);
    lap::Assignment x; double c; int n = 0;
    while (n < 100 && m.draw(x, c)) ++n;
    printf("%d assignments drawn, 6 exist\n", n);
    return n != 6;
}
'''
