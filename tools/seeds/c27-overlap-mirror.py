prop = "C27"
needs = "The overlap of a density with an oriented box that is not symmetric around the mean."
breaks = "Overlap with an oriented box counts only half of the samples and takes the rest to mirror them."
edits = [("include/gaussian.hpp", """            if (bbbox.within(samples.col(n))) {""", """            // Samples come in any order: the first half decides, the second only refines the border
            if (bbbox.within(samples.col(n < N / 2 ? n : N - 1 - n))) {""")]
demo = PRE + r'''
int main() {
    Gaussian_<2> g(Eigen::Vector2d(0, 0), Eigen::Matrix2d::Identity()); int odd = 0;
    BBox b; b.corners << 1, 1, 0, 0, 0.7, 0, 0, 0.7;
    for (int k = 0; k < 60; ++k) if (std::lround(g.overlap(b) * 1000) % 2) ++odd;
    CHECK(odd > 5, "%d", odd);
    return bad;
}
'''
