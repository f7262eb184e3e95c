prop = "C25"
needs = "A particle density that is joined twice with its weights changed in between."
breaks = "The order of the particles is only worked out when the first of them is not the heaviest, so a stale order is used when only the others changed places."
edits = [("include/pf.hpp", "        std::sort(std::begin(permutation), std::end(permutation),\n                  [&](std::size_t i, std::size_t j){ return w[i] > w[j]; });", "        if (w[permutation[0]] < w.maxCoeff()) {\n            std::sort(std::begin(permutation), std::end(permutation),\n                      [&](std::size_t i, std::size_t j){ return w[i] > w[j]; });\n        }")]
demo = PRE + r'''
#include "pf.hpp"
typedef PF<4, 4> P;
int main() {
    Params p; std::vector<P> v; for (int k = 0; k < 2; ++k) v.emplace_back(&p, Eigen::Vector4d(58, 15, 0, 0), Eigen::Matrix4d::Identity());
    double w[4] = {.5, .05, .05, .4}; for (auto& f : v) for (int i = 0; i < 4; ++i) { f.w[i] = w[i]; f.x.col(i) << i, 0, 0, 0; }
    P out(v[0]); Eigen::Array<double, 1, 2> q; q << .5, .5;
    P::join(out, q, v);
    for (int i = 0; i < 4; ++i) CHECK(out.x(0, i) == 0 || out.x(0, i) == 3, "%g kept", out.x(0, i));
    return bad;
}
'''
