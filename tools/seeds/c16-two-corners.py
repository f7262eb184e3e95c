prop = "C16"
needs = "A box that is turned so that its extreme corners are the second and fourth."
breaks = "The axis-aligned hull is taken from two opposite corners only."
edits = [("include/bbox.hpp", """        return AABBox(
            corners.row(0).minCoeff(),
            corners.row(1).minCoeff(),
            corners.row(0).maxCoeff(),
            corners.row(1).maxCoeff());""", """        // Opposite corners
        AABBox a(corners(0, 0), corners(1, 0), corners(0, 2), corners(1, 2));
        AABBox b(corners(0, 1), corners(1, 1), corners(0, 3), corners(1, 3));
        bool larger = (b.max[0] - b.min[0]) * (b.max[1] - b.min[1]) > (a.max[0] - a.min[0]) * (a.max[1] - a.min[1]);
        return larger ? b : a;""")]
demo = PRE + r'''
int main() {
    for (int k = 0; k < 24; ++k) {
        double f = k * M_PI / 12; BBox b; for (int i = 0; i < 4; ++i) { double g = f + (i % 2 ? .5 : -.5) + M_PI * (i / 2 * 1.) ; b.corners(0, i) = 5 * std::cos(g); b.corners(1, i) = 5 * std::sin(g); }
        AABBox a = b.aabbox();
        CHECK(near(a.min[0], b.corners.row(0).minCoeff(), 1e-12) && near(a.max[1], b.corners.row(1).maxCoeff(), 1e-12) && near(a.min[1], b.corners.row(1).minCoeff(), 1e-12) && near(a.max[0], b.corners.row(0).maxCoeff(), 1e-12), "turn %d", k);
    }
    return bad;
}
'''
