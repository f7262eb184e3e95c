prop = "C26"
needs = "Two track lists with a prediction between them that moves the tracks but weakens none (or a scan elsewhere that founds as much as it takes)."
breaks = "The track list is kept from one call to the next and only made anew when the number of tracks or their expected number has changed."
edits = [("include/lmb.hpp", """        TargetSummaries res;
        CRITICAL(ttree)
        {
            for (auto& t : targettree.targets) {
                res.emplace_back(t->pdf.mean(),
                                 t->pdf.cov(),
                                 t->r,
                                 t->id,
                                 t->cid);
            }
        }
        return res;
    }
""", """        const double expected = enof_targets();
        CRITICAL(ttree)
        {
            if (listed_for != expected || listed.size() != targettree.targets.size()) {
                listed.clear();
                for (auto& t : targettree.targets) {
                    listed.emplace_back(t->pdf.mean(),
                                        t->pdf.cov(),
                                        t->r,
                                        t->id,
                                        t->cid);
                }
                listed_for = expected;
            }
        }
        return listed;
    }

    TargetSummaries listed;  // The latest list, asked for often between scans
    double listed_for = -1;
""")]
demo = PRE + r'''
int main() {
    Tracker t; Cv cv(1, 1); add(t, 0, 0, .9, 1, 2, 0);
    auto a = t.get_targets(); t.predict(cv, 1, 0); auto b = t.get_targets();
    CHECK(a.size() == 1 && b.size() == 1 && b[0].cov()(0, 0) > a[0].cov()(0, 0), "listed variance %g, then %g", a[0].cov()(0, 0), b[0].cov()(0, 0));
    CHECK(near(b[0].cov()(0, 0), t.targettree.targets[0]->pdf.cov()(0, 0), 1e-12));
    return bad;
}
'''
