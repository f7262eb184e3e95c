prop = "C09"
needs = "A time scale other than one together with a survival probability below one."
breaks = "Survival is raised to the unscaled elapsed time."
edits = [("include/models.hpp", "            t->r *= std::pow(pS, dT);", "            t->r *= std::pow(pS, time - last_time);")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.tscale = 60; auto* a = add(t, 0, 0, .5);
    Cv m(.9, .1); t.predict(m, 60, 0);
    CHECK(near(a->r, .45, 1e-9), "%.9f", a->r);
    return bad;
}
'''
