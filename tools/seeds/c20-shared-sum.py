prop = "C20"
needs = "A density of several components evaluated by two threads at once."
breaks = "The detection probabilities of the components are added to one shared sum by all threads without a reduction."
edits = [("include/gm.hpp", "        eta = 0;\n        for (unsigned i = 0; i < c.size(); ++i) {\n            eta += c[i].w * s.pD(c[i], origin);", "        eta = 0;\n        PARFOR\n        for (unsigned i = 0; i < c.size(); ++i) {\n            eta += c[i].w * s.pD(c[i], origin);")]
demo = PRE + r'''
#include <omp.h>
struct Fast : Sensor { template<class P> double pD(const P&, const cf::LL&) const { return .5; } };
int main() {
    omp_set_num_threads(8); Params p; D d(&p); Fast s;
    for (int k = 0; k < 2000; ++k) d.c.emplace_back(Eigen::Vector4d::Zero(), Eigen::Matrix4d::Identity(), 1. / 2000);
    for (int k = 0; k < 3000 && !bad; ++k) { double m = d.missed(s); CHECK(near(m, .5, 1e-9), "%.6f", m); }
    return bad;
}
'''
