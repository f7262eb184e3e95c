prop = "C24"
needs = "A turned field of view, and a track near a corner of its bounding rectangle."
breaks = "A sensor takes every track whose box meets the bounding rectangle of its field of view as affected."
edits = [("include/sensors.hpp", "                        return t->pdf.intersects(fov);", "                        return t->pdf.intersects(fov.aabbox());")]
demo = PRE + r'''
int main() {
    Tracker t; add(t, 90, 90, .5); Sensor s = sensor(.9, 0);
    s.fov.corners << at(0, 100), at(100, 0), at(0, -100), at(-100, 0);      // a diamond
    CHECK(s.get_targets(t.targettree).empty(), "a track outside is affected");
    return bad;
}
'''
