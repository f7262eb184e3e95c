prop = "C06"
needs = "A track whose existence probability is above 0.999 but below one, next to clutter that explains its reports."
breaks = "A track above 0.999 is treated as if its absence were impossible, so repeated misses cannot lower it the way the posterior demands."
edits = [("include/target.hpp", "        if (r < 1) {\n            return -std::log(1 - r);", "        if (r < 0.999) {\n            return -std::log(1 - r);")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.w_lim = 0; auto* a = add(t, 0, 0, .9995);
    Scan s; t.correct(sensor(.99), s, 1);
    double want = .9995 * .01 / (.9995 * .01 + .0005);
    CHECK(near(a->r, want, 1e-9), "r %.9f, should be %.9f", a->r, want);
    return bad;
}
'''
