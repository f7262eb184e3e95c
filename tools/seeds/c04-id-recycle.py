prop = "C04"
needs = "The youngest track is removed (existence or covariance limit) and a later scan founds a new one."
breaks = "The id of a removed track is given to the next new track when it was the highest one, so two different tracks share an id over time."
edits = [("include/targettree.hpp", "                      targets.end());\n        delete t;", "                      targets.end());\n        // Keep the ids dense\n        if (t->id + 1 == id_counter) { --id_counter; }\n        delete t;")]
demo = PRE + r'''
int main() {
    Tracker t; add(t, 0, 0, .9); add(t, 500, 0, .9);
    unsigned last = 1;
    for (int k = 0; k < 3; ++k) {
        Nm gone(1, Eigen::Vector4d(1e6, 1e6, 0, 0).asDiagonal()); t.predict(gone, 1, 0);   // all too uncertain
        CHECK(t.get_targets().empty());
        Scan s{z(0, 0)}; t.correct(sensor(), s, 1);
        for (auto& x : t.get_targets()) { CHECK(x.id > last, "id %u given again", x.id); last = std::max(last, x.id); }
    }
    return bad;
}
'''
