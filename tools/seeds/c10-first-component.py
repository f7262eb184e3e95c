prop = "C10"
needs = "A track with several components, each certain but far apart."
breaks = "The covariance limit is applied to the heaviest component and not to the whole density, so a track spread over two distant components survives."
edits = [("include/target.hpp", "        if (pdf.poscov().norm() > params->cov_lim) {", "        if (pdf.c[0].poscov().norm() > params->cov_lim) {")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.cov_lim = 30; t.params.w_lim = 0; auto* a = add(t, 0, 0, .9, 20);
    // two precise reports apart, either may be it: the mean of the two is far from both, in degrees too little to matter
    a->pdf.c.push_back(a->pdf.c[0]); a->pdf.c[0].w = a->pdf.c[1].w = .5; a->pdf.c[1].x[0] += 8;   // degrees: far apart in any unit
    CHECK(!a->viable(), "spread %.3f", a->pdf.poscov().norm());
    return bad;
}
'''
