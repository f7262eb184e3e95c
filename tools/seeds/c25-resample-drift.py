prop = "C25"
needs = "Resampling when a particle of more than one share lies across three steps of the sampler."
breaks = "Every step of the resampling draws its own offset, so a particle can get more than one copy above or below its share."
edits = [("include/pf.hpp", "            double u = u0 + i * w0;", "            double u = (i + (i ? urand() : u0 * N)) * w0;")]
demo = PRE + r'''
#include "pf.hpp"
typedef PF<4, 8> P;
int main() {
    Params p; int miss = 0;
    for (int k = 0; k < 200; ++k) {
        P f(&p, Eigen::Vector4d(58, 15, 0, 0), Eigen::Matrix4d::Identity());
        double w[8] = {.75 / 8, 1.5 / 8, .75 / 8, .125, .125, .125, .125, .125}; for (int i = 0; i < 8; ++i) { f.w[i] = w[i]; f.x.col(i) << i, 0, 0, 0; }
        f.normalize(); f.resample();
        int n[8] = {}; for (int i = 0; i < 8; ++i) ++n[int(f.x(0, i))];
        for (int i = 0; i < 8; ++i) if (std::abs(n[i] - 8 * w[i]) >= 1 + 1e-9) ++miss;
    }
    CHECK(!miss, "%d", miss);
    return bad;
}
'''
