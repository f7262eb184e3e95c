prop = "C08"
needs = "A scan whose reports are all explained by tracks to better than one in a thousand, with the limit r_lim set low."
breaks = "Unexplained weights below 1e-3 are left out of the sum the births are shared by, so the shares come out too large or no birth takes place."
edits = [("include/lmb.hpp", "            [](double s, const Report& r) { return s + r.rB; });", "            [](double s, const Report& r) { return r.rB < 1e-3 ? s : s + r.rB; });")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.r_lim = 1e-4; t.params.w_lim = 0; t.params.nhyp_max = 1000;
    add(t, 0, 0, .999, .5); add(t, 200, 0, .999, .5);
    Scan s; s.push_back(z(.1, 0, .5, 3e-4)); s.push_back(z(200.1, 0, .5, 3e-4));
    auto sn = sensor(.9, .5); t.correct(sn, s, 1);
    double sum = s[0].rB + s[1].rB; unsigned fresh = t.get_targets().size() - 2;
    printf("unexplained %g %g, %u founded\n", (double)s[0].rB, (double)s[1].rB, fresh);
    CHECK(sum >= t.params.r_lim); CHECK(fresh == 2);
    return bad;
}
'''
