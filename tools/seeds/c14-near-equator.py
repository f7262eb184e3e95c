prop = "C14"
needs = "A point less than a metre south of the equator."
breaks = "Points within a metre south of the equator are reflected to its north."
edits = [("include/cf.hpp", "    if (z < 0.) {\n        lat = -lat;\n    }\n    ll <<", "    if (z < -1.) {\n        lat = -lat;\n    }\n    ll <<")]
demo = PRE + r'''
int main() {
    for (double lat : {1e-6, -1e-6, -5e-6, -1e-4}) { Eigen::Vector2d p(lat, 20), q = cf::ecef2ll(cf::ll2ecef(p)); CHECK(std::abs(p[0] - q[0]) < 1e-9, "%g comes back as %g", p[0], q[0]); }
    return bad;
}
'''
