prop = "C14"
needs = "A point more than some ten kilometres from the origin of the local frame."
breaks = "Local coordinates are taken from differences of latitude and longitude; right at the origin, wrong with distance."
edits = [("include/cf.hpp", """NE ll2ne(const LL& ll, const LL_ORIGIN& origin) {
    auto ecef = ll2ecef(ll);
    return ecef2ne(ecef, origin);""", """NE ll2ne(const LL& ll, const LL_ORIGIN& origin) {
    auto ecef = ll2ecef(ll);
    NE ne = ecef2ne(ecef, origin);
    // Follow the surface rather than the tangent plane
    const double d = ne.squaredNorm() / (6.0 * 6378137.0 * 6378137.0);
    return ne * (1 + d);""")]
demo = PRE + r'''
int main() {
    for (double d : {100., 1000., 20000., 50000.}) {
        cf::LL p(O.x() + d / 111e3, O.y() + d / 60e3);
        Eigen::Vector3d a = cf::lla2ned(Eigen::Vector3d(p.x(), p.y(), 0), Eigen::Vector3d(O.x(), O.y(), 0)); Eigen::Vector2d b = cf::ll2ne(p, O);
        CHECK((a.head<2>() - b).norm() < 1e-3, "%g m away: %.6f", d, (a.head<2>() - b).norm());
    }
    return bad;
}
'''
