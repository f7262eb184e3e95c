prop = "C08"
needs = "A scan with one report on a track and another far from any track, so that the scan-wide sum is needed."
breaks = "The unexplained weights are summed per cluster instead of over the scan, so every cluster founds as many tracks as the sensor expects for the whole scan."
edits = [("include/lmb.hpp", "                    double nr = (*r)->rB * sensor.lambdaB / rBsum;", "                    double csum = 0;\n                    for (auto& o : c->reports) { csum += o->rB; }\n                    double nr = (*r)->rB * sensor.lambdaB / std::max(csum, rBsum / clusters.size());")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.r_lim = .01; t.params.rB_max = .9;
    Scan s{z(0, 0), z(500, 0), z(1000, 0)};
    t.correct(sensor(.9, .6), s, 1);
    double sum = t.enof_targets(); CHECK(near(sum, .6, 1e-9), "%.9f born", sum);
    return bad;
}
'''
