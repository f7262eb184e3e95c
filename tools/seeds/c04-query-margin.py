prop = "C04"
needs = "A region query (or report) whose box only touches or slightly overlaps the stored box of a track from the side of its lower corner."
breaks = "The index takes rectangles that share only a border in one dimension for disjoint, so a region query misses a track whose box touches the region."
edits = [("include/RTree.h", "    if (a_rectA->m_min[index] > a_rectB->m_max[index] ||", "    if (a_rectA->m_min[index] >= a_rectB->m_max[index] ||")]
demo = PRE + r'''
int main() {
    Tracker t; add(t, 0, 0); auto* p = add(t, 100, 100);
    AABBox b = p->llaabbox();
    // regions that touch the box at each side
    AABBox south(b.min[0] - 1e-4, b.min[1], b.min[0], b.max[1]), north(b.max[0], b.min[1], b.max[0] + 1e-4, b.max[1]), west(b.min[0], b.min[1] - 1e-4, b.max[0], b.min[1]), east(b.min[0], b.max[1], b.max[0], b.max[1] + 1e-4);
    for (auto& r : {south, north, west, east}) { CHECK(r.intersects(b)); CHECK(t.get_targets(r).size() == 1); CHECK(near(t.enof_targets(r), .5)); }
    return bad;
}
'''
