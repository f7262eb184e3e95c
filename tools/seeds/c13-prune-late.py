prop = "C13"
needs = "The sum of two mixtures with more components than the limit, or lighter than cw_lim."
breaks = "A mixture that is pruned down to its limit is renormalised before it is cut, so the kept weights no longer sum to one."
edits = [("include/gm.hpp", "        if (c.size() > MAX_COMPONENTS) {\n            c.resize(MAX_COMPONENTS);\n        }\n        if (c.size() > 0) {\n            normalize();\n        }", "        if (c.size() > 0) {\n            normalize();\n        }\n        if (c.size() > MAX_COMPONENTS) {\n            c.erase(c.begin() + MAX_COMPONENTS, c.end());\n        }")]
demo = PRE + r'''
int main() {
    typedef GM<4, 2> S; Params p; p.cw_lim = 0;
    auto g = [&](double w) { S d(&p); d.c.emplace_back(Eigen::Vector4d::Zero(), Eigen::Matrix4d::Identity(), w); return d; };
    S s = g(.5) + g(.3); s += g(.2);
    double sum = 0; for (auto& c : s.c) sum += c.w;
    CHECK(near(sum, 1, 1e-9), "%.6f", sum);
    return bad;
}
'''
