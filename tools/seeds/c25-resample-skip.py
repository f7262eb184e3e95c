prop = "C25"
needs = "Resampling, or joining, particles whose weights are uneven but not degenerate (more than half of them effective)."
breaks = "Particles are only resampled when fewer than half are effective, so they can keep unequal weights where equal ones are promised."
edits = [("include/pf.hpp", "    void resample() {\n        if (!valid) { return; }", "    void resample() {\n        // Nothing to gain while most particles are effective\n        if (!valid || neff() > N / 2.0) { return; }")]
demo = PRE + r'''
#include "pf.hpp"
typedef PF<4, 5> P;
int main() {
    Params p; P f(&p, Eigen::Vector4d(58, 15, 0, 0), Eigen::Matrix4d::Identity());
    double w[5] = {.3, .1, .2, .15, .25}; for (int i = 0; i < 5; ++i) f.w[i] = w[i];
    f.resample();
    for (int i = 0; i < 5; ++i) CHECK(near(f.w[i], .2, 1e-12), "weight %g", f.w[i]);
    return bad;
}
'''
