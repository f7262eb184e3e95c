prop = "C16"
needs = "A point level with one of the corners of a turned box."
breaks = "A corner at the height of the point is counted for both of its sides, so the point is inside or outside by parity."
edits = [("include/bbox.hpp", "            if (((ci.y() > x.y()) != (cj.y() > x.y())) &&", "            if ((ci.y() >= x.y()) != (cj.y() > x.y()) && (ci.y() != cj.y()) &&")]
demo = PRE + r'''
int main() {
    BBox b; b.corners << 0, 5, 0, -5,  5, 0, -5, 0;        // a diamond
    for (double x : {-4., -2., 0., 2., 4.}) CHECK(b.within(Eigen::Vector2d(x, 0)), "%g", x);
    for (double x : {-6., 6.}) CHECK(!b.within(Eigen::Vector2d(x, 0)));
    return bad;
}
'''
