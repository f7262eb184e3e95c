// Families of h_hist.
static const M2 I2 = M2::Identity(), D2 = m2(2, 0, .5), C2 = m2(1.5, .6, .8), W2 = m2(9, 0, 1), E2w = m2(.5, 0, 2);
static const RD RA{0, 0, I2, 1}, RB{3, 1, D2, 1}, RC{400, -300, I2, 1}, RDD{1.5, .5, C2, 1}, RA2{.2, -.1, I2, 1};

static lmb::Params pset(unsigned k) {
    switch (k) {
    case 0: return lmb::Params();
    case 1: return par(1e-5, .01, 30, 1, 1e-4, 1e6);
    case 2: return par(.2, 1e-3, 2, 1, .1, 8);
    default: { lmb::Params p; p.tscale = 2; p.nstd = 3; p.rB_max = .3; p.r_lim = .2; return p; }
    }
}
static const unsigned NOPS = 14;
template<typename Y> static void op(Y& y, unsigned o) {
    SD d;
    switch (o) {
    case 0: y.scan({}, d); break;
    case 1: y.scan({RA}, d); break;
    case 2: y.scan({RA, RB}, d); break;
    case 3: y.scan({RC, RA}, d); break;
    case 4: y.predict(0, .99, .3, 1); break;
    case 5: y.scan({RDD, RA2}, d); break;
    case 6: d.fov = 1; y.scan({RC}, d); break;
    case 7: d.pD = 1; y.scan({RB, RC, RDD}, d); break;
    case 8: y.predict(1, .9, 0, 1, m4(m2(.5, .1, .3), m2(.2, 0, .1), .05)); break;
    case 9: y.predict(0, .6, 1, 2.5); break;
    case 10: d.pD = .5; d.lambdaB = 2; d.pv = m2(4, 0, 1); { RD r = RA; r.kappa = 1e-2; y.scan({r}, d); } break;
    case 11: d.pD = 1; d.lambdaB = .2; y.scan({}, d); break;
    case 12: d.fov = 1; y.scan({RA}, d); break;
    case 13: d.lambdaB = 3; { RD r = RB; r.kappa = 5; y.scan({r, RA, RA}, d); } break;
    }
}
static bool anyof(std::initializer_list<const char*> l) { for (auto p : l) if (mc::want(p)) return true; return false; }
static bool only(const char* p) { return mc::wanted().size() == 1 && mc::want(p); }

// ---- clusters of given tracks and reports
static TD tdef(unsigned k) {
    switch (k) {
    case 0: return {.5, {{1, 0, 0, .1, -.2, m4(I2, I2, .3)}}};
    case 1: return {.9, {{1, 2, 1, 0, 0, m4(C2, I2, .4)}}};
    case 2: return {1, {{1, 0, 3, 1, 0, m4(D2, W2, .2)}}};
    case 3: return {.3, {{.6, 0, 0, 0, 0, m4(I2, I2)}, {.4, 3, 0, .5, .5, m4(E2w, D2, .1)}}};
    case 4: return {.06, {{1, -2, 0, 0, 1, m4(W2, I2, .5)}}};
    default: return {.8, {{.55, 0, 0, .2, 0, m4(I2 * .1, I2)}, {.45, .5, -1, 0, 0, m4(W2 * 3, I2, 1)}}};
    }
}
static RD rdef(unsigned k, double kappa) {
    switch (k) {
    case 0: return {.3, .2, I2, kappa};
    case 1: return {1.5, 1, C2, kappa};
    case 2: return {2.5, -.5, D2, kappa * 2};
    case 3: return {90, 0, I2, kappa};
    default: return {.3, .2, E2w, kappa};
    }
}
// multisets of at most m of n kinds, by index
static std::vector<std::vector<int>> multisets(int n, int m) {
    std::vector<std::vector<int>> r = {{}}; std::vector<std::vector<int>> cur = {{}};
    for (int k = 0; k < m; ++k) { std::vector<std::vector<int>> nx; for (auto& c : cur) for (int i = c.empty() ? 0 : c.back(); i < n; ++i) { auto d = c; d.push_back(i); nx.push_back(d); } r.insert(r.end(), nx.begin(), nx.end()); cur = nx; }
    return r;
}

// outcome of a scan in local coordinates, for comparisons between runs
struct Out { std::vector<ref::Track> t; std::vector<double> rB; std::vector<unsigned> rc; unsigned nc; bool amb; size_t ntracks0; };

template<typename Y> static std::vector<ref::Comp> loc(const Y& y, const std::vector<ref::Comp>& c) {
    auto l = ref::local(c, y.base);
    for (auto& k : l) { V2 a = y.unrot(V2(k.x.template head<2>())), v = y.unrot(V2(k.x.template tail<2>())); k.x << a, v; M4 R = M4::Zero(); R.topLeftCorner<2, 2>() << y.turn_c, y.turn_s, -y.turn_s, y.turn_c; R.bottomRightCorner<2, 2>() = R.topLeftCorner<2, 2>(); k.P = (R * k.P * R.transpose()).eval(); }
    return l;
}
static bool same_local(const std::vector<ref::Comp>& a, const std::vector<ref::Comp>& b) {
    std::vector<char> used(b.size(), 0);
    for (auto& x : a) {
        bool f = false;
        for (size_t k = 0; k < b.size() && !f; ++k) if (!used[k] && std::fabs(x.w - b[k].w) < 2e-4 && (x.x - b[k].x).norm() < 2e-3 && (x.P - b[k].P).norm() < 1e-3 * (1 + x.P.norm())) { used[k] = 1; f = true; }
        if (!f && x.w > 1e-3) return false;
    }
    for (size_t k = 0; k < b.size(); ++k) if (!used[k] && b[k].w > 1e-3) return false;
    return true;
}

#if PART == 1
static void fam_hist() {
    bool th = mc::thorough();
    unsigned sets = 4;
    int L = th ? 4 : 3;
    mc::family("hist.all", sets * mc::ipow(NOPS, L), [L] {
        Sys<> y(pset(pick(4)));
        for (int k = 0; k < L; ++k) op(y, pick(NOPS));
        mc::describe("%s-> %zu tracks", y.log.c_str(), y.trk->targettree.targets.size());
    });
    static const unsigned SUB[] = {2, 4, 5, 7, 11};
    int L2 = th ? 6 : 4;
    mc::family("hist.deep", 2 * mc::ipow(5, L2), [L2] {
        Sys<> y(pset(pick(2) ? 2 : 0));
        for (int k = 0; k < L2; ++k) op(y, pick(SUB));
        mc::describe("%s-> %zu tracks", y.log.c_str(), y.trk->targettree.targets.size());
    });
    // many tracks: the index splits, underflows and re-inserts
    int L3 = th ? 5 : 4;
    if (anyof({"C04", "C05", "C08", "C10", "C11"}))
    mc::family("hist.many", mc::ipow(5, L3), [L3] {
        lmb::Params p; p.rB_max = .9; p.r_lim = .05;
        Sys<> y(p);
        auto grid = [&](int from, int to, double off) { std::vector<RD> v; for (int k = from; k < to; ++k) v.push_back({(k % 4) * 40. + off, (k / 4) * 35. - off, k % 2 ? I2 : D2, .02}); return v; };
        for (int k = 0; k < L3; ++k) {
            SD d; d.lambdaB = 30; d.pD = .95;
            switch (pick(5)) {
            case 0: y.scan(grid(0, 14, 0), d); break;
            case 1: y.scan(grid(5, 11, .5), d); break;
            case 2: y.scan(grid(0, 12, 17), d); break;
            case 3: y.scan({}, d); break;
            default: y.predict(0, .7, 2, 1); break;
            }
        }
        mc::describe("%s-> %zu tracks", y.log.size() > 300 ? y.log.substr(0, 300).c_str() : y.log.c_str(), y.trk->targettree.targets.size());
    });
}
#endif
#if PART == 2
static void fam_post() {
    bool th = mc::thorough();
    static auto TS = multisets(5, th ? 4 : 3), RS = multisets(5, 4);
    static const double PK[][2] = {{.9, 1}, {1, .05}, {.5, 20}, {1, 1}, {0, 1}};
    unsigned np = 5;
    mc::family("post", (uint64_t)TS.size() * RS.size() * np, [np] {
        auto pk = PK[pick(np)]; auto& ts = TS[pick(TS.size())]; auto& rs = RS[pick(RS.size())];
        Sys<> y(open_limits()); y.want_queries = false; y.fast = true;
        for (int k : ts) y.add(tdef(k));
        std::vector<RD> r; for (int k : rs) r.push_back(rdef(k, pk[1]));
        SD d; d.pD = pk[0]; y.scan(r, d);
        mc::describe("%s", y.log.c_str());
    });
    // several scans in a row, with and without a prediction between them
    static const std::vector<std::vector<int>> QT = {{0}, {1}, {3}, {0, 1}, {1, 3}, {2, 4}}, QR = {{}, {0}, {1}, {0, 2}, {4, 1}};
    int L = th ? 4 : 3;
    mc::family("post.seq", (uint64_t)QT.size() * 2 * mc::ipow(QR.size(), L) * mc::ipow(2, L - 1), [L] {
        auto& ts = QT[pick(QT.size())]; static const double PD[] = {.9, .4}; double pd = pick(PD);
        Sys<> y(open_limits()); y.want_queries = false; y.fast = true;
        for (int k : ts) y.add(tdef(k));
        for (int s = 0; s < L; ++s) {
            if (s && pick(2)) y.predict(0, .98, .2, .5);
            std::vector<RD> r; for (int k : QR[pick(QR.size())]) { r.push_back(rdef(k, .2)); r.back().n += .3 * s; r.back().e -= .2 * s; }
            SD d; d.pD = pd; y.scan(r, d);
        }
        mc::describe("%s", y.log.c_str());
    });
    // magnitudes: certain existence and detection, clutter from tiny to huge, sharp and blunt densities
    static const double KA[] = {1e-12, 1e-3, 1, 1e4, 1e6, 1e9, 1e12, 1e-290};
    mc::family("post.extreme", (uint64_t)8 * 3 * 4 * 4 * 4 * 3 * 3, [] {
        double ka = pick(KA); double pD = pick(3) * .5; unsigned nt = pick(4), nr = pick(4), sh = pick(4), rr = pick(3), two = pick(3);
        if (nr == 3 && nt == 3) { nr = 1; }
        Sys<> y(open_limits(1e-5)); y.want_queries = false; y.fast = true;
        static const double SH[] = {1, 1e-4, 1e4, 25};
        double r = rr == 0 ? 1 : rr == 1 ? .5 : 1 - 1e-12;
        for (unsigned k = 0; k < nt; ++k) { M4 P = m4(I2 * (k == 1 ? SH[sh] : 1), I2, 0); TD t{k == 2 ? .5 : r, {{1, k * 1.5, 0, 0, 0, P}}}; if (two == 1) { t.c[0].w = 1 - 1e-3; t.c.push_back({1e-3, 40, 10, 0, 0, m4(D2, I2)}); } else if (two == 2) { auto b = t.c[0]; b.w = 1 / 9.; t.c.clear(); for (int q = 0; q < 9; ++q) { b.n += .05; t.c.push_back(b); } } y.add(t); }  // nine ninths sum to more than one
        std::vector<RD> v;
        for (unsigned k = 0; k < nr; ++k) v.push_back({.5 + (k == 2 ? 30 : 2.0 * k), .3, I2 * (k == 0 ? SH[sh] : 1), ka});
        SD d; d.pD = pD; y.scan(v, d);
        y.predict(0, 1, .1, 1);
        y.scan(v, d);
        mc::describe("%s", y.log.c_str());
    });
}
#endif
#if PART == 3
// mixtures around the component limit of the tracker, and more hypotheses than any small scene has
static void fam_trunc_many() {
    static const unsigned NC[] = {30, 64, 65, 99, 100, 101, 130, 199, 200}; static const double CW[] = {0, 1e-3, .012}, NH[] = {1e9, 100, 17};
    mc::family("trunc.many", 9 * 3 * 3 * 4 * 2 * 2, [] {
        unsigned n = pick(NC); double cw = pick(CW), nh = pick(NH); unsigned nr = pick(4); bool falling = pick(2), second = pick(2);
        Sys<> y(par(0, 1e-4, nh, 1, cw, 1e12)); y.want_queries = false; y.fast = true;
        auto many = [&](double off) { TD t{.7, {}}; double s = 0; for (unsigned k = 0; k < n; ++k) s += falling ? n + 1. + 2 * k : 1 + .001 * k; for (unsigned k = 0; k < n; ++k) t.c.push_back({(falling ? n + 1. + 2 * k : 1 + .001 * k) / s, off + .01 * k, -.02 * k + off, .001 * k, 0, m4(I2 * (1 + .003 * k), I2)}); return t; };
        y.add(many(0)); if (second) { y.add(many(.5)); y.add(tdef(0)); }
        std::vector<RD> v; for (unsigned k = 0; k < nr; ++k) v.push_back({.3 + .4 * k, .2 - .3 * k, I2 * (1 + .1 * k), .2});
        SD d; d.pD = .8; y.scan(v, d);
        mc::describe("%u components nhyp_max %g cw_lim %g %u reports", n, nh, cw, nr);
    });
}
template<int MAXC> static void fam_trunc(const char* nm) {
    bool th = mc::thorough();
    static const double WL[] = {.5, .2, .05, 1e-3, 0}; static const double NH[] = {1, 2, 3, 5, 1e9}; static const double CW[] = {.4, .1, .01, 0};
    static const std::vector<std::vector<int>> TS = {{0}, {0, 1}, {1, 3}, {3}, {0, 1, 3}, {3, 3}}, RS = {{}, {0}, {1, 2}, {0, 4}, {0, 1, 2}};
    unsigned nc = th ? 4 : 3;
    mc::family(std::string("trunc.") + nm, (uint64_t)5 * 5 * nc * TS.size() * RS.size() * 2, [nc] {
        double wl = pick(WL), nh = pick(NH), cw = CW[pick(nc)]; auto& ts = TS[pick(TS.size())]; auto& rs = RS[pick(RS.size())]; bool twice = pick(2);
        Sys<MAXC> y(par(wl, 1e-4, nh, 1, cw, 1e12)); y.want_queries = false; y.fast = !twice;
        for (int k : ts) y.add(tdef(k));
        std::vector<RD> r; for (int k : rs) r.push_back(rdef(k, .3));
        SD d; d.pD = .8; y.scan(r, d);
        if (twice) { for (auto& x : r) { x.n += .7; x.e -= .4; } y.scan(r, d); }
        mc::describe("w_lim %g nhyp_max %g cw_lim %g: %s", wl, nh, cw, y.log.c_str());
    });
}
#endif
#if PART == 2
// a sensor with initialisations of its own
struct Own : Sys<>::Inside {
    mutable std::vector<std::array<double, 2>> first, second; double v1 = 2, v2 = 5;
    Own(const Sys<>::Sensor& s) : Sys<>::Inside(s) {}
    template<typename R> Sys<>::PDF pdf_init1(lmb::Params* p, const R& r, const double t = 0) const {
        first.push_back({t, 0}); V4 x; x << r.mean().template head<2>(), v1, -v1; M4 P = m4(r.cov(), this->pv);
        return Sys<>::PDF(p, x, P);
    }
    template<typename R> void pdf_init2(Sys<>::PDF& pdf, const R&, const double t, const double t0) const {
        second.push_back({t, t0}); for (auto& c : pdf.c) c.x[2] = v2;
    }
};
static void fam_birth() {
    bool th = mc::thorough();
    static auto RS = multisets(5, 3);
    static const std::vector<std::vector<int>> TS = {{}, {0}, {1}, {1, 3}, {2}, {4, 0}};
    static const double LB[] = {.1, 1, 3}, RL[] = {.05, .3, .6}, RM[] = {.5, 1};
    mc::family("birth", (uint64_t)RS.size() * (th ? 6 : 4) * 3 * 3 * 2 * 2, [th] {
        auto& rs = RS[pick(RS.size())]; auto& ts = TS[pick(th ? 6 : 4)]; double lb = pick(LB), rl = pick(RL), rm = pick(RM); bool far = pick(2);
        Sys<> y(par(.01, rl, 100, rm, .01, 150)); y.want_queries = false;
        for (int k : ts) y.add(tdef(k));
        std::vector<RD> r; for (int k : rs) { r.push_back(rdef(k, .02)); if (far) r.back().e += 50; }
        SD d; d.lambdaB = lb; d.pv = m2(3, 1, 2); y.scan(r, d);
        mc::describe("r_lim %g rB_max %g lambdaB %g: %s-> %zu tracks", rl, rm, lb, y.log.c_str(), y.trk->targettree.targets.size());
    });
    // reports that tracks explain almost entirely, next to others; and tracks that cannot have been missed
    static const double KS[] = {.02, 1e-3, 3e-5, 1e-7}, PB[] = {.999, .9, 1}, RB[] = {1, .999, .6}, LS[] = {.02, .3, 5}, LR[] = {.01, 1e-4};
    mc::family("birth.small", (uint64_t)4 * 3 * 3 * 3 * 2 * 5 * 3 * 2, [] {
        double ks = pick(KS), pD = pick(PB), r = pick(RB), lb = pick(LS), rl = pick(LR); unsigned on = pick(5), off = pick(3); bool again = pick(2);
        lmb::Params p = par(1e-9, rl, 1e3, .8, 1e-9, 150); if (on == 4) p.nstd = 12;   // linked, but nowhere near
        Sys<> y(p); y.want_queries = false;
        unsigned nt = on == 3 ? 2 : 1;
        for (unsigned k = 0; k < nt; ++k) y.add({k ? .999 : r, {{1, 4. * k, 0, 0, 0, m4(I2 * .5, I2)}}});
        std::vector<RD> v;
        if (on) for (unsigned k = 0; k < nt; ++k) v.push_back({4. * k + (on == 2 ? 1. : on == 4 ? 9. : .1), .1, I2 * .5, ks});
        static const double FAR[] = {6, 11, 60};
        for (unsigned k = 0; k < off; ++k) v.push_back({FAR[k], .5, I2 * .5, .2});
        SD d; d.pD = pD; d.lambdaB = lb; y.scan(v, d);
        if (again) { y.predict(0, .999, .01, 1); y.scan(v, d); }
        mc::describe("r_lim %g lambdaB %g: %s-> %zu tracks", rl, lb, y.log.c_str(), y.trk->targettree.targets.size());
    });
    mc::family("birth.sensor", 3 * 3 * 3 * 2 * 3, [] {
        unsigned n = 1 + pick(3), more = pick(3); static const double DT[] = {0, 1, 7.5}; double dt = pick(DT); bool close = pick(2); double at = pick(3) * 4.5;
        Sys<> y(par(1e-9, 1e-3, 1e3, .8, 1e-9, 1e6)); y.time = at;
        SD d; d.lambdaB = 1.5; Own s(y.sensor(d));
        auto scan = [&](unsigned k) {
            std::vector<Rep> z; for (unsigned j = 0; j < k; ++j) z.emplace_back(y.ll((close ? .2 : 40.) * j, 3), I2 * .5, .05);
            s.first.clear(); s.second.clear(); y.trk->correct<Own>(s, z, y.time); mc::transition();
        };
        scan(n);
        auto a = y.snap();
        MC_CHECK("C08", a.size() == n && s.first.size() == n && s.second.empty(), "%u reports alone found %zu tracks; the sensor initialised %zu, and %zu again", n, a.size(), s.first.size(), s.second.size());
        for (auto& f : s.first) MC_CHECK("C08", f[0] == at, "a track founded at %g is initialised for %g", at, f[0]);
        for (auto& t : a) for (auto& c : t.c) MC_CHECK("C08", c.x[2] == s.v1 && c.x[3] == -s.v1, "the sensor gives velocity %g %g, the track has %g %g", s.v1, -s.v1, c.x[2], c.x[3]);
        std::set<unsigned> old; for (auto& t : a) old.insert(t.id);
        auto origins = [&] { std::map<double, unsigned> c; for (auto& x : s.second) ++c[x[1]]; return c; };
        double t1 = y.time; y.time += dt; scan(n + more);
        size_t want = close ? (size_t)n * (n + more) : n;
        auto c1 = origins();
        MC_CHECK("C08", s.second.size() == want && c1[t1] == want, "%u tracks of time %g meet %u reports: the sensor is offered %zu pairs, %u with that time; %zu exist", n, t1, n + more, s.second.size(), c1[t1], want);
        for (auto& x : s.second) MC_CHECK("C08", x[0] == y.time, "a scan at %g offers the sensor time %g", y.time, x[0]);
        auto b = y.snap(); unsigned known = 0, fresh = 0;
        for (auto& t : b) if (old.count(t.id)) { ++known; bool has = false; for (auto& c : t.c) has |= c.x[2] == s.v2; MC_CHECK("C08", has, "the velocity %g the sensor gave for a report is nowhere in track %u", s.v2, t.id); } else ++fresh;
        MC_CHECK("C08", known == n, "%u of %u tracks remain", known, n);
        double t2 = y.time; y.time += 1; scan(n + more);
        auto c2 = origins();
        size_t again = close ? (size_t)fresh * (n + more) : fresh;
        MC_CHECK("C08", s.second.size() == again && (!again || c2[t2] == again), "%u of the tracks are new since the last scan, the sensor is offered %zu pairs (%u of that time), %zu exist", fresh, s.second.size(), c2[t2], again);
        mc::describe("sensor with its own initialisation: %u reports %s, then %u more after %g: %u tracks founded then", n, close ? "together" : "apart", more, dt, fresh);
    });
    // shares that are exactly representable: the limit itself is enough
    static const double LE[] = {.25, .5, 1, 2}, RE[] = {1. / 16, 1. / 8, .25, .5, 1}, ME[] = {1, .25, .0625};
    mc::family("birth.exact", 3 * 4 * 5 * 3 * 2, [] {
        unsigned n = 1u << pick(3); double lb = pick(LE), rl = pick(RE), rm = pick(ME); bool apart = pick(2);
        Sys<> y(par(.01, rl, 100, rm, .01, 150)); y.want_queries = false;
        std::vector<RD> r; for (unsigned k = 0; k < n; ++k) r.push_back({apart ? 100. * k : .1 * k, 0, I2, .02});
        SD d; d.lambdaB = lb; y.scan(r, d);
        auto post = y.snap(); bool yes = lb / n >= rl;
        MC_CHECK("C08", post.size() == (yes ? n : 0), "%u reports without any track, lambdaB %g, r_lim %g: a share of %g founds %zu tracks in all", n, lb, rl, lb / n, post.size());
        for (auto& t : post) MC_CHECK("C08", Sys<>::close(t.r, std::min(lb / n, rm), 1e-12, 0), "%s: existence %.12g of a share of %g (rB_max %g)", y.log.c_str(), t.r, lb / n, rm);
        mc::describe("r_lim %g rB_max %g: %s-> %zu tracks", rl, rm, y.log.c_str(), post.size());
    });
}
static void fam_predict() {
    bool th = mc::thorough();
    static const std::vector<std::vector<int>> TS = {{0}, {1}, {3}, {2, 4}, {0, 1, 3}, {}};
    static auto opp = [](Sys<>& y, unsigned o) {
        switch (o) {
        case 0: y.predict(0, 1, 1, 1); break;
        case 1: y.predict(0, .9, .5, .3); break;
        case 2: y.predict(0, .99, 0, 10); break;
        case 3: y.predict(0, .5, 2, 4); break;
        case 4: y.predict(0, 1, 1, 0); break;
        case 5: y.predict(1, .95, 0, 1, m4(I2, I2)); break;
        case 6: y.predict(1, 1, 0, 7, m4(C2, D2, .2)); break;
        case 7: y.predict(1, .3, 0, 1, M4::Zero()); break;
        case 8: y.predict(0, .97, .01, 120); break;
        default: y.scan({{.5, .5, I2, 1}}, SD()); break;
        }
    };
    int L = th ? 4 : 3;
    mc::family("predict", 6 * 4 * mc::ipow(10, L), [L] {
        auto& ts = TS[pick(6)];
        static const double TSC[] = {1, 2, .5, 10};
        lmb::Params p; p.tscale = pick(TSC); p.cov_lim = 60; p.r_lim = .1;
        Sys<> y(p); y.want_queries = false;
        for (int k : ts) y.add(tdef(k));
        for (int k = 0; k < L; ++k) opp(y, pick(10));
        mc::describe("tscale %g %s", p.tscale, y.log.c_str());
    });
    // long and very short steps
    static const double DL[] = {1e-3, .05, 30, 150, 700, 3600}, QL[] = {0, 1e-6, .02};
    mc::family("predict.long", 5 * 6 * 6 * 3 * 2 * 3, [] {
        auto& ts = TS[pick(5)]; double a = pick(DL), b = pick(DL), q = pick(QL), pS = pick(2) ? .9995 : 1; static const double TSC[] = {1, 60, .5}; double tsc = pick(TSC);
        lmb::Params p = open_limits(1e-9); p.tscale = tsc;
        Sys<> y(p); y.want_queries = false;
        for (int k : ts) y.add(tdef(k));
        y.predict(0, pS, q, a); y.predict(0, pS, q, b);
        mc::describe("tscale %g %s", tsc, y.log.c_str());
    });
    // where the model says a density will be, without moving it
    mc::family("lookahead", 6 * 8 * 4, [] {
        auto& ts = TS[pick(6)]; static const double DT[] = {0, .25, 1, 2.5, 10, 60, -1, 1e-3}; double dt = pick(DT); unsigned kind = pick(4);
        lmb::Params p = open_limits(1e-9); Sys<> y(p); y.want_queries = false;
        for (int k : ts) y.add(tdef(k));
        if (kind & 1) y.predict(0, .99, .2, 1.5);
        if (kind & 2) y.scan({{.5, .5, I2, 1}}, SD());
        auto b = y.snap(); lmb::CV<Sys<>::Target> cv(.7, 3);
        for (auto* t : y.trk->targettree.targets) {
            V4 m = t->pdf.mean(), q = cv.predict(t->pdf, dt), w = m; w[0] += m[2] * dt; w[1] += m[3] * dt;
            MC_CHECK("C09", (q - w).norm() <= 1e-11 * (1 + w.norm()), "%s: after %g the track is expected at (%.12g %.12g %.12g %.12g), it should be (%.12g %.12g %.12g %.12g)", y.log.c_str(), dt, q[0], q[1], q[2], q[3], w[0], w[1], w[2], w[3]);
            for (auto& c : t->pdf.c) { V4 u = cv.predict(c, dt), v = c.x; v[0] += v[2] * dt; v[1] += v[3] * dt; MC_CHECK("C09", (u - v).norm() <= 1e-11 * (1 + v.norm()), "%s: a component is expected elsewhere after %g", y.log.c_str(), dt); }
            mc::transition();
        }
        bool still = true; { auto e = y.snap(); still = e.size() == b.size(); for (size_t k = 0; still && k < e.size(); ++k) { still = e[k].r == b[k].r && e[k].c.size() == b[k].c.size(); for (size_t i = 0; still && i < e[k].c.size(); ++i) still = e[k].c[i].x == b[k].c[i].x && e[k].c[i].P == b[k].c[i].P; } }
        MC_CHECK("C09", still, "%s: looking ahead moves a track", y.log.c_str());
        mc::describe("look ahead %g of %s", dt, y.log.c_str());
    });
    // one step equals its parts
    static const double DT[] = {.25, 1, 3, 8};
    mc::family("split", 5 * 4 * 4 * 3 * 3, [] {
        auto& ts = TS[pick(5)]; double a = pick(DT), b = pick(DT); double pS = 1 - .1 * pick(3), q = pick(3) * .7;
        lmb::Params p = open_limits(1e-6); p.tscale = 2;
        Sys<> y(p), z(p); y.want_queries = z.want_queries = false;
        for (int k : ts) { y.add(tdef(k)); z.add(tdef(k)); }
        y.predict(0, pS, q, a); y.predict(0, pS, q, b); z.predict(0, pS, q, a + b);
        auto s = y.snap(), t = z.snap();
        MC_CHECK("C09", s.size() == t.size(), "%s: different tracks in one step", y.log.c_str());
        for (size_t k = 0; k < s.size() && k < t.size(); ++k) {
            MC_CHECK("C09", Sys<>::close(s[k].r, t[k].r, 1e-9, 0), "%s: in parts r=%.12g, in one step %.12g", y.log.c_str(), s[k].r, t[k].r);
            MC_CHECK("C09", same_local(loc(y, s[k].c), loc(z, t[k].c)), "%s: in parts %s, in one step %s", y.log.c_str(), Sys<>::comps(s[k].c).c_str(), Sys<>::comps(t[k].c).c_str());
        }
        mc::describe("%s vs one step", y.log.c_str());
    });
    // termination limits around the reachable values
    static const double RL[] = {1e-4, .04, .2, .45, .85, .999}, CL[] = {.5, 1.3, 2, 5, 40, 1e5};
    static const std::vector<std::vector<int>> TL = {{0}, {1}, {3}, {2, 4}, {0, 1, 3}, {5}, {5, 0}};
    mc::family("limits", 6 * 6 * 7 * 8, [] {
        double rl = pick(RL), cl = pick(CL); auto& ts = TL[pick(7)]; unsigned o = pick(8);
        lmb::Params p = par(.01, rl, 100, .8, .01, cl);
        Sys<> y(p);
        for (int k : ts) y.add(tdef(k));
        SD d;
        switch (o) {
        case 0: y.predict(0, .9, .5, 1); break;
        case 1: y.predict(1, .5, 0, 1, m4(I2, I2)); break;
        case 2: y.scan({}, d); break;
        case 3: y.scan({{.5, .5, I2, .05}}, d); break;
        case 4: y.scan({{.5, .5, I2, .05}, {2, 0, W2, 1}}, d); break;
        case 5: d.fov = 1; y.scan({}, d); break;
        case 6: d.fov = 1; y.scan({{2, 1, I2, .1}}, d); break;
        default: y.predict(0, 1, 0, 0); break;
        }
        y.predict(0, 1, 0, .5);
        mc::describe("r_lim %g cov_lim %g %s-> %zu", rl, cl, y.log.c_str(), y.trk->targettree.targets.size());
    });
    // values that are exactly representable: a track exactly at a limit stays
    static const double RX[] = {.0625, .125, .25, .5, 1}, PX[] = {5, 10};
    mc::family("limits.exact", 3 * 5 * 2 * 3 * 3 * 2, [] {
        double r0 = 1. / (1u << pick(3)), rl = pick(RX), nrm = pick(PX); unsigned cs = pick(3), o = pick(3); bool twin = pick(2);
        double cl = cs == 0 ? nrm : cs == 1 ? std::nextafter(nrm, 0) : 2 * nrm, pS = o == 0 ? 1 : o == 1 ? .5 : .25;
        Sys<> y(par(.01, rl, 100, 1, .01, cl));
        TD t{r0, {{1, 1, 2, 0, 0, m4(m2(nrm * .6, 0, nrm * .8), I2)}}}; y.add(t);
        if (twin) { TD u = t; u.c[0].n = 70; u.r = 1; u.c[0].P = m4(I2, I2); y.add(u); }
        y.predict(1, pS, 0, 1);
        size_t want = (r0 * pS >= rl && nrm <= cl) + (twin && pS >= rl && std::sqrt(2.) <= cl);
        auto post = y.snap();
        MC_CHECK("C10", post.size() == want && y.trk->get_targets().size() == want, "%s: existence %g, limit %g, covariance norm %g, limit %.17g: %zu tracks stay, %zu should", y.log.c_str(), r0 * pS, rl, nrm, cl, post.size(), want);
        mc::describe("r_lim %g cov_lim %.17g %s-> %zu", rl, cl, y.log.c_str(), post.size());
    });
}
#endif
#if PART == 1
static void fam_chain() {
    bool th = mc::thorough();
    static const double TP[] = {0, 4, 8, 12, 300, 16}, RP[] = {2, 6, 10, 0.1, 100, 301, 14, 8.2};
    unsigned nt = th ? 6 : 5, nr = th ? 8 : 7;
    mc::family("chain", (uint64_t)(1u << nt) * (1u << nr) * 2 * 4, [nt, nr] {
        unsigned a = pick(1u << nt), b = pick(1u << nr); bool away = pick(2);
        // order of the scan: along the chain, against it, the ends before the middle, every other link first
        unsigned ord = pick(4);
        // along north, along east, or diagonal, depending on the subset: covers both axes of the boxes
        int dir = (a ^ b) % 3;
        lmb::Params p; p.nhyp_max = 3; p.w_lim = .3; p.cw_lim = .3;
        Sys<> y(p); y.want_queries = false;
        auto at = [&](double d) { return dir == 0 ? V2(d, .2) : dir == 1 ? V2(.2, d) : V2(d, d); };
        unsigned n = 0;
        for (unsigned k = 0; k < nr; ++k) n += b >> k & 1;
        if (n > 5) { mc::skip(); return; }
        for (unsigned k = 0; k < nt; ++k) if (a >> k & 1) { V2 q = at(TP[k]); y.add({.6, {{1, q[0], q[1], 0, 0, m4(I2 * .3, I2)}}}); }
        std::vector<RD> r;
        std::vector<double> rp; for (unsigned k = 0; k < nr; ++k) if (b >> k & 1) rp.push_back(RP[k]);
        std::sort(rp.begin(), rp.end());
        std::vector<double> q;
        if (ord == 1) rp = {rp.rbegin(), rp.rend()};
        if (ord == 2) { for (size_t i = 0, j = rp.size(); i < j;) { q.push_back(rp[i++]); if (i < j) q.push_back(rp[--j]); } rp = q; }
        if (ord == 3) { for (size_t i = 0; i < rp.size(); i += 2) q.push_back(rp[i]); for (size_t i = 1; i < rp.size(); i += 2) q.push_back(rp[i]); rp = q; }
        for (double v : rp) { V2 q = at(v); r.push_back({q[0], q[1], I2 * .7, .1}); }
        SD d; d.fov = away; d.pD = .9; y.scan(r, d);
        mc::describe("%s-> %u clusters", y.log.c_str(), y.trk->nof_clusters);
    });
    // many reports on one track, some of them shared with the next
    mc::family("bunch", 3 * 3 * 3 * 3 * 3 * 5 * 2, [] {
        static const unsigned NC[] = {0, 1, 5}; static const double Z[] = {-8, 10, 20, 30, 48};      // of a track only, shared, ...
        unsigned n[5]; for (auto& k : n) k = pick(NC); unsigned ord = pick(5); bool rev = pick(2);
        lmb::Params p; p.nhyp_max = 2; p.w_lim = .3; p.cw_lim = .3;
        Sys<> y(p); y.want_queries = false; y.fast = true;
        for (int k = 0; k < 3; ++k) y.add({.6, {{1, (rev ? 2 - k : k) * 20., .1 * k, 0, 0, m4(I2 * 30, I2)}}});
        std::vector<RD> v; std::vector<unsigned> left(n, n + 5);
        static const unsigned O[][5] = {{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {1, 3, 0, 2, 4}, {0, 2, 4, 1, 3}, {0, 1, 2, 3, 4}};
        if (ord < 4) for (unsigned z : O[ord]) for (unsigned k = 0; k < n[z]; ++k) v.push_back({Z[z] - .6 + .3 * k, .2 * k, I2 * .5, .1});
        else for (unsigned k = 0; k < 5; ++k) for (unsigned z = 0; z < 5; ++z) if (k < n[z]) v.push_back({Z[z] - .6 + .3 * k, .2 * k, I2 * .5, .1});
        SD d; y.scan(v, d);
        mc::describe("reports per zone %u %u %u %u %u: %u clusters", n[0], n[1], n[2], n[3], n[4], y.trk->nof_clusters);
    });
    // just short of and just past touching: the sizes of both boxes to a percent
    mc::family("edge", 4 * 3 * 3 * 8 * 10 * 2, [] {
        static const double NS[] = {1.9, 2, 1, 3.2}, F[] = {.9, .95, .98, .99, .996, 1.004, 1.01, 1.02, 1.05, 1.1};
        double ns = pick(NS); unsigned tk = pick(3), rk = pick(3), dir = pick(8); double fac = pick(F); bool two = pick(2);
        M2 tc[] = {I2 * .3, m2(2, 1.2, 1), m2(.2, 0, 6)}, rc[] = {I2 * .7, m2(1, -.8, 2), m2(5, 0, .1)};
        lmb::Params p; p.nstd = ns; p.nhyp_max = 3; p.r_lim = .01;
        Sys<> y(p); y.want_queries = false;
        double dn = (dir < 4) ? (ns * std::sqrt(tc[tk](0, 0)) + 2 * std::sqrt(rc[rk](0, 0))) * fac : .1, de = (dir % 4 < 2) ? (ns * std::sqrt(tc[tk](1, 1)) + 2 * std::sqrt(rc[rk](1, 1))) * fac : .1;
        if (dir < 4 && dir % 4 < 2) (dir == 0 ? dn : de) *= .5;        // corners: only one side decides
        if (dir & 1) dn = -dn; if (dir == 2 || dir == 5) de = -de;
        if (two) y.add({.5, {{.7, 0, 0, 0, 0, m4(tc[tk], I2)}, {.3, -1, -1, 0, 0, m4(I2 * .01, I2)}}}); else y.add({.5, {{1, 0, 0, 0, 0, m4(tc[tk], I2)}}});
        SD d; d.pD = .9; y.scan({{dn, de, rc[rk], .1}}, d);
        mc::describe("nstd %g factor %g direction %u %s-> %u clusters", ns, fac, dir, y.log.c_str(), y.trk->nof_clusters);
    });
}
#endif
#if PART == 4
// ---- sensor
static void fam_sensor() {
    bool th = mc::thorough();
    using Y = Sys<>;
    // fields of view around, beside and away from a mixture's components; rotated; whole hemisphere (the default)
    static const double PD[] = {1, .9, .3, 0};
    static const V2 LOC[] = {V2(58.3887657, 15.6965082), V2(-33.9, 151.2), V2(5, 100), V2(64.1, 21.9)};
    // detection probability of densities and mixtures
    mc::family("pD", (uint64_t)4 * 4 * 8 * 3 * 5 * 5, [] {
        double pd = pick(PD); V2 base = pick(LOC); unsigned shape = pick(8), spread = pick(3), c1 = pick(5), c2 = pick(5);
        Y y(open_limits(), base);
        static const V2 POS[] = {V2(0, 0), V2(60, 30), V2(-700, 0), V2(0, 900), V2(5000, -4000)};
        static const double SPR[] = {.01, 1, 20};
        M2 P = C2 * SPR[spread];
        Y::Sensor s; s.pD_ = pd;
        // 0: default, 1-4: quadrilaterals in local metres, 5: the default with its corners in reverse, 6: a large region in degrees, 7: elsewhere
        auto quad = [&](double n0, double e0, double hn, double he, double turn) { for (int k = 0; k < 4; ++k) { double a = (k == 0 || k == 1) ? hn : -hn, b = (k == 0 || k == 3) ? he : -he; s.fov.corners.col(k) = y.ll(n0 + a * cos(turn) - b * sin(turn), e0 + a * sin(turn) + b * cos(turn)); } };
        double size = spread == 2 ? 3 : 1;
        switch (shape) {
        case 1: quad(0, 0, 130 * size, 110 * size, 0); break;
        case 2: quad(0, 0, 130 * size, 110 * size, .6); break;
        case 3: quad(0, 0, 300 * size, 500 * size, -.3); break;
        case 4: quad(-700, 0, 150 * size, 90 * size, M_PI / 4); break;
        case 5: s.fov.corners = s.fov.corners.rowwise().reverse().eval(); break;
        case 6: s.fov.corners << base[0] + 20, base[0] + 20, base[0] - 30, base[0] - 30, base[1] + 25, base[1] - 15, base[1] - 15, base[1] + 25; if (base[0] < 0) s.fov.corners.row(0).array() += 5; break;
        case 7: s.fov.corners << base[0] + 20, base[0] + 20, base[0] + 10, base[0] + 10, base[1] + 15, base[1] - 15, base[1] - 15, base[1] + 15; break;
        }
        Y::PDF pdf(&y.trk->params);
        V4 x; x << y.ll(POS[c1][0], POS[c1][1]), 1, -1; pdf.c.emplace_back(x, m4(P, I2 * 1e4, .1), .7);
        x << y.ll(POS[c2][0], POS[c2][1]), -3, 2; pdf.c.emplace_back(x, m4(P, I2, .05), .3);
        ref::Sensor rs; rs.fov = s.fov.corners; rs.pD = pd; rs.lambdaB = 1;
        double want = 0; bool amb = false; double each[2];
        for (int k = 0; k < 2; ++k) { int f = ref::in_fov({pdf.c[k].w, pdf.c[k].x, pdf.c[k].P}, rs); if (f < 0) amb = true; each[k] = f * pd; want += pdf.c[k].w * f * pd; }
        if (amb) { mc::skip(); return; }
        // in three frames: around the mixture, around a component, around a third point
        for (int fr = 0; fr < 3; ++fr) {
            auto q = pdf; cf::LL o = fr == 0 ? V2(ref::mean({{.7, pdf.c[0].x, pdf.c[0].P}, {.3, pdf.c[1].x, pdf.c[1].P}}).head<2>()) : fr == 1 ? V2(pdf.c[0].x.head<2>()) : y.ll(35, -20);
            q.transform_to_local(o);
            double g = s.pD(q, o), g0 = s.pD(q.c[0], o), g1 = s.pD(q.c[1], o);
            mc::transition(3);
            MC_CHECK("C24", std::fabs(g - want) < 1e-9, "field of view %u, nominal %g, components at %g,%g and %g,%g: detection probability %g, expected %g (frame %d)", shape, pd, POS[c1][0], POS[c1][1], POS[c2][0], POS[c2][1], g, want, fr);
            MC_CHECK("C24", std::fabs(g0 - each[0]) < 1e-9 && std::fabs(g1 - each[1]) < 1e-9, "field of view %u, nominal %g: detection probability of the components %g and %g, expected %g and %g (frame %d)", shape, pd, g0, g1, each[0], each[1], fr);
        }
        mc::state(mc::Hasher().add(shape).add(pd).add(c1).add(c2).add(spread).add(base[0]).h);
        mc::outcome(want == 0 ? "not detectable" : want == pd ? "fully inside" : "partly inside");
        mc::describe("fov %u at %.1f,%.1f nominal %g: %g", shape, base[0], base[1], pd, want);
    });
    // which tracks a sensor considers, and what an empty scan does to them
    static const V2 TPOS[] = {V2(0, 0), V2(250, 0), V2(0, -400), V2(800, 800), V2(-300, 300)};
    mc::family("fov", (uint64_t)32 * 7 * 2 * 4 * 2, [] {
        unsigned set = pick(32), shape = pick(7); bool wide = pick(2); V2 base = pick(LOC); bool rep = pick(2);
        lmb::Params p = open_limits(1e-4); p.rB_max = .5;
        Y y(p, base); y.want_queries = false;
        for (unsigned k = 0; k < 5; ++k) if (set >> k & 1) y.add({.3 + .1 * k, {{1, TPOS[k][0], TPOS[k][1], 0, 0, m4(C2 * (wide ? 9 : 1), I2)}}});
        Y::Sensor s; s.pD_ = .8;
        auto quad = [&](double n0, double e0, double hn, double he, double turn) { for (int k = 0; k < 4; ++k) { double a = (k == 0 || k == 1) ? hn : -hn, b = (k == 0 || k == 3) ? he : -he; s.fov.corners.col(k) = y.ll(n0 + a * cos(turn) - b * sin(turn), e0 + a * sin(turn) + b * cos(turn)); } };
        switch (shape) {
        case 0: break;                                          // default
        case 1: quad(0, 0, 130, 110, 0); break;
        case 2: quad(0, 0, 130, 110, .6); break;
        case 3: quad(0, -200, 60, 700, .1); break;
        case 4: quad(400, 400, 90, 900, M_PI / 4); break;       // a narrow diagonal strip
        case 5: quad(0, 0, 3000, 3000, .3); break;
        case 6: quad(4000, 0, 1000, 2000, 1); break;            // away
        }
        // the considered tracks, directly
        auto pre = y.snap(); bool amb = false; std::set<unsigned> want;
        for (auto& t : pre) { auto m = ref::mean(t.c); int f = ref::in_fov(m.head<2>(), p.nstd * 1.5 * std::sqrt(t.c[0].P.topLeftCorner<2, 2>().norm()), s.fov.corners); if (f < 0) amb = true; if (f == 1) want.insert(t.id); }
        if (!amb) {
            std::set<unsigned> got; auto ts = s.get_targets(y.trk->targettree); for (auto t : ts) got.insert(t->id);
            MC_CHECK("C24", got == want && got.size() == ts.size(), "%s: the sensor considers %zu tracks, %zu are in its field of view (shape %u)", y.log.c_str(), ts.size(), want.size(), shape);
            mc::transition();
        }
        std::vector<RD> r; if (rep) r.push_back({1, .5, I2, .5});
        y.scan_with(r, s, "fov" + S(shape));
        if (!y.last_ambiguous) {
            auto post = y.snap();
            for (auto& x : y.exp.t) if (!x.amb && x.alive) { auto& t = pre[x.pre]; for (auto& g : post) if (g.id == t.id) MC_CHECK("C24", Y::close(g.r, x.untouched ? t.r : x.r, 1e-7, 1e-9), "%s: track %u goes from %.9g to %.9g, expected %.9g (shape %u)", y.log.c_str(), t.id, t.r, g.r, x.untouched ? t.r : x.r, shape); }
        }
        mc::describe("%s", y.log.c_str());
    });
    // a report carries the sensor's clutter intensity
    mc::family("kappa", 4, [] { double k[] = {.1, 1, 7, 1e5}; Y::Sensor s; s.kappa_ = k[pick(4)]; Rep r(s, V2(1, 2), I2); MC_CHECK("C24", r.kappa == s.kappa_, "a report of a sensor with clutter %g has %g", s.kappa_, r.kappa); mc::transition(); mc::describe("kappa"); });
    (void)th;
}
// ---- order and frame independence
static void fam_order() {
    bool th = mc::thorough();
    using Y = Sys<>;
    static auto TS = multisets(5, 3), RS = multisets(5, 3);
    static const V2 LOC[] = {V2(58.3887657, 15.6965082), V2(-33.9, 151.2), V2(1e-3, 2e-3), V2(64.1, -21.9), V2(37.8, -122.4)};
    struct Var { std::vector<int> tp, rp; int loc, turn; };
    auto runv = [](const std::vector<int>& ts, const std::vector<int>& rs, const Var& v, const lmb::Params& p, Out& o, bool second) {
        Y y(p, LOC[v.loc], v.turn); y.want_queries = false; y.fast = true;
        std::vector<int> tid(ts.size());
        // storage order as well as creation order: throw-away allocations shift the addresses
        for (int k : v.tp) { y.add(tdef(ts[k])); tid[k] = y.trk->targettree.targets.back()->id; }
        SD d; d.pD = .9; d.lambdaB = 1.5;
        std::vector<RD> r(rs.size()); for (size_t k = 0; k < rs.size(); ++k) { r[k] = rdef(rs[v.rp[k]], .2); if (rs[v.rp[k]] == 4) r[k].n += .4; }
        y.scan(r, d);
        o.amb = y.last_ambiguous; o.nc = y.trk->nof_clusters;
        o.rB.assign(rs.size(), 0); o.rc.assign(rs.size(), 0);
        for (size_t k = 0; k < rs.size(); ++k) { o.rB[v.rp[k]] = y.last[k].rB; o.rc[v.rp[k]] = y.last[k].cid; }
        for (auto& x : y.exp.t) if (x.amb || x.undecided_alive) o.amb = true;
        if (y.exp.births_amb) o.amb = true;
        if (second) { y.predict(0, .95, .3, 1.5); y.scan({{.9, .4, I2, .3}}, d); for (auto& x : y.exp.t) if (x.amb || x.undecided_alive) o.amb = true; if (y.exp.births_amb || y.last_ambiguous) o.amb = true; }
        auto s = y.snap(); o.t.clear(); std::vector<ref::Track> births;
        for (auto& t : s) { t.c = loc(y, t.c); bool old = false; for (size_t k = 0; k < tid.size(); ++k) if (tid[k] == (int)t.id) { t.id = k; old = true; break; } if (old) o.t.push_back(t); else births.push_back(t); }
        std::sort(o.t.begin(), o.t.end(), [](const ref::Track& a, const ref::Track& b) { return a.id < b.id; });
        std::sort(births.begin(), births.end(), [](const ref::Track& a, const ref::Track& b) { V4 x = ref::mean(a.c), y = ref::mean(b.c); if (std::fabs(x[0] - y[0]) > 1e-3) return x[0] < y[0]; if (std::fabs(x[1] - y[1]) > 1e-3) return x[1] < y[1]; return a.c[0].P(0, 0) < b.c[0].P(0, 0); });
        o.ntracks0 = o.t.size(); for (auto& t : births) o.t.push_back(t);
        return y.log;
    };
    auto cmp = [](const std::string& log, const Out& a, const Out& b, const std::string& what) {
        MC_CHECK("C29", a.nc == b.nc, "%s: %u clusters, %s %u", log.c_str(), a.nc, what.c_str(), b.nc);
        for (size_t i = 0; i < a.rc.size(); ++i) {
            MC_CHECK("C29", std::fabs(a.rB[i] - b.rB[i]) < 1e-4, "%s: report %zu has unexplained weight %.9g, %s %.9g", log.c_str(), i, a.rB[i], what.c_str(), b.rB[i]);
            for (size_t j = 0; j < i; ++j) MC_CHECK("C29", (a.rc[i] == a.rc[j]) == (b.rc[i] == b.rc[j]), "%s: reports %zu and %zu are clustered differently %s", log.c_str(), i, j, what.c_str());
        }
        MC_CHECK("C29", a.t.size() == b.t.size() && a.ntracks0 == b.ntracks0, "%s: %zu tracks, %s %zu", log.c_str(), a.t.size(), what.c_str(), b.t.size());
        for (size_t k = 0; k < a.t.size() && k < b.t.size(); ++k) {
            MC_CHECK("C29", std::fabs(a.t[k].r - b.t[k].r) < 1e-4, "%s: track %zu has existence %.9g, %s %.9g", log.c_str(), k, a.t[k].r, what.c_str(), b.t[k].r);
            MC_CHECK("C29", same_local(a.t[k].c, b.t[k].c), "%s: track %zu is %s, %s %s", log.c_str(), k, Y::comps(a.t[k].c).c_str(), what.c_str(), Y::comps(b.t[k].c).c_str());
            for (size_t l = 0; l < k; ++l) MC_CHECK("C29", (a.t[k].cid == a.t[l].cid) == (b.t[k].cid == b.t[l].cid), "%s: tracks %zu and %zu are clustered differently %s", log.c_str(), k, l, what.c_str());
        }
    };
    auto iota = [](size_t n) { std::vector<int> v(n); for (size_t k = 0; k < n; ++k) v[k] = k; return v; };
    mc::family("order", (uint64_t)TS.size() * RS.size() * 2, [=] {
        auto& ts = TS[pick(TS.size())]; auto& rs = RS[pick(RS.size())]; bool lim = pick(2);
        lmb::Params p = lim ? lmb::Params() : open_limits(1e-3);
        Out a; auto log = runv(ts, rs, {iota(ts.size()), iota(rs.size()), 0, 0}, p, a, false);
        if (a.amb) { mc::skip(); return; }
        auto tp = iota(ts.size());
        int n = 0;
        do {
            auto rq = iota(rs.size());
            do {
                if (n++ == 0) continue;
                Out b; runv(ts, rs, {tp, rq, 0, 0}, p, b, false);
                std::string w = "in track order"; for (int k : tp) w += " " + std::to_string(k); w += " and report order"; for (int k : rq) w += " " + std::to_string(k);
                cmp(log, a, b, w);
            } while (std::next_permutation(rq.begin(), rq.end()) && (th || tp == iota(ts.size())));
        } while (std::next_permutation(tp.begin(), tp.end()));
        mc::describe("%s and its %d reorderings", log.c_str(), n - 1); mc::outcome("reordered");
    });
    mc::family("place", (uint64_t)TS.size() * RS.size() * 2, [=] {
        auto& ts = TS[pick(TS.size())]; auto& rs = RS[pick(RS.size())]; bool lim = pick(2);
        lmb::Params p = lim ? lmb::Params() : open_limits(1e-3);
        Out a; auto log = runv(ts, rs, {iota(ts.size()), iota(rs.size()), 0, 0}, p, a, lim);
        if (a.amb) { mc::skip(); return; }
        for (int l = 0; l < 5; ++l) for (int t = 0; t < 4; ++t) {
            if (!l && !t) continue;
            if (!th && t != (l + (int)ts.size()) % 4 && t != 1) continue;
            Out b; runv(ts, rs, {iota(ts.size()), iota(rs.size()), l, t}, p, b, lim);
            if (b.amb) continue;
            cmp(log, a, b, "at location " + std::to_string(l) + " turned " + std::to_string(90 * t));
        }
        mc::describe("%s moved", log.c_str()); mc::outcome("moved");
    });
    // two separated groups: each as if alone, but for the share of births
    static auto T2 = multisets(5, 2), R2 = multisets(5, 2);
    mc::family("apart", (uint64_t)T2.size() * R2.size() * 12, [=] {
        auto& ts = T2[pick(T2.size())]; auto& rs = R2[pick(R2.size())]; unsigned other = pick(12);
        lmb::Params p; p.r_lim = 1e-3; p.rB_max = 1;
        auto run = [&](bool with) {
            Y y(p); y.want_queries = false; y.fast = true;
            if (with) { static const int on[][2] = {{0, 0}, {1, 1}, {3, 0}, {2, 4}}; auto& o = on[other % 4]; for (int k = 0; k < 1 + (int)(other / 4) % 2; ++k) { TD t = tdef(o[k]); for (auto& c : t.c) c.n += 2500; y.add(t); } }
            std::vector<unsigned> id; for (int k : ts) { y.add(tdef(k)); id.push_back(y.trk->targettree.targets.back()->id); }
            std::vector<RD> r;
            for (int k : rs) r.push_back(rdef(k, .2));
            if (with) for (unsigned k = 0; k < 1 + other / 4; ++k) { RD x = rdef(k, .2); x.n += 2500; x.e += k; r.insert(k % 2 ? r.begin() : r.end(), x); }
            SD d; d.lambdaB = 1e-9; y.scan(r, d);
            Out o; o.amb = y.last_ambiguous; o.nc = 0; o.ntracks0 = 0;
            for (auto& x : y.exp.t) if (x.amb || x.undecided_alive) o.amb = true;
            for (size_t k = 0; k < r.size(); ++k) if (r[k].n < 1000) { o.rB.push_back((double)y.last[k].rB); o.rc.push_back(y.last[k].cid); }
            for (auto& t : y.snap()) for (size_t k = 0; k < id.size(); ++k) if (t.id == id[k]) { t.c = loc(y, t.c); t.id = k; o.t.push_back(t); break; }
            return std::make_pair(o, y.log);
        };
        auto a = run(false), b = run(true);
        if (a.first.amb || b.first.amb) { mc::skip(); return; }
        cmp(b.second, a.first, b.first, "with a group 2.5 km away");
        mc::describe("%s", b.second.c_str()); mc::outcome("separated groups");
    });
}
#endif
#if PART == 4
// ---- snapshots are values
static void fam_snap() {
    using Y = Sys<>;
    using TS = Y::Trk::TargetSummaries;
    struct F { V4 x; M4 P; double r; unsigned id, cid; };
    auto chk = [](const std::string& log, const char* what, const TS& l, const std::vector<F>& f) {
        MC_CHECK("C26", l.size() == f.size(), "%s %s: %zu entries of %zu", log.c_str(), what, l.size(), f.size());
        for (size_t k = 0; k < l.size() && k < f.size(); ++k) {
            auto& t = l[k];
            MC_CHECK("C26", t.x == f[k].x && t.P == f[k].P && t.mean() == f[k].x && t.cov() == f[k].P, "%s %s: entry %zu has another mean or covariance", log.c_str(), what, k);
            MC_CHECK("C26", t.w == f[k].r && t.r == f[k].r, "%s %s: entry %zu reads existence %.9g and %.9g, it was %.9g", log.c_str(), what, k, t.w, (double)t.r, f[k].r);
            MC_CHECK("C26", t.id == f[k].id && t.cid == f[k].cid, "%s %s: entry %zu has id %u label %u, it was %u, %u", log.c_str(), what, k, t.id, t.cid, f[k].id, f[k].cid);
            mc::transition();
        }
    };
    // every list of a history is of its own moment, whatever changed since the one before
    int L = mc::thorough() ? 4 : 3;
    mc::family("snap.history", 4 * 2 * mc::ipow(8, L), [=] {
        unsigned set = pick(4); bool sure = pick(2);
        Y y(open_limits(1e-6)); y.want_queries = false; y.fast = true;
        for (unsigned k = 0; k < set; ++k) { TD t = tdef(k == 1 ? 3 : k); if (sure) t.r = 1; for (auto& c : t.c) { c.n += 60 * k; c.vn += 1; } y.add(t); }
        lmb::AABBox all(-90, -180, 90, 180);
        auto look = [&](const char* w) {
            std::map<unsigned, ref::Track> by; for (auto& t : y.snap()) by[t.id] = t;
            for (int region = 0; region < 2; ++region) {
                TS l = region ? y.trk->get_targets(all) : y.trk->get_targets(); std::set<unsigned> ids;
                MC_CHECK("C26", l.size() == by.size(), "%s %s: %zu entries for %zu tracks", y.log.c_str(), w, l.size(), by.size());
                for (auto& t : l) { if (!by.count(t.id)) { MC_CHECK("C26", false, "%s %s: entry %u is of no track", y.log.c_str(), w, t.id); continue; } ids.insert(t.id); auto& b = by[t.id]; V4 m = ref::mean(b.c); M4 P = ref::cov(b.c);
                    MC_CHECK("C26", (t.x - m).norm() < 1e-9 && (t.P - P).norm() < 1e-9 * (1 + P.norm()) && t.w == b.r && t.r == b.r && t.cid == b.cid && (t.x - m).head<2>().norm() < 1e-11, "%s %s: entry %u (r %g label %u) differs from its track (r %g label %u)", y.log.c_str(), w, t.id, t.w, t.cid, b.r, b.cid); }
                MC_CHECK("C26", ids.size() == by.size(), "%s %s: a track is listed twice", y.log.c_str(), w); mc::transition();
            }
        };
        look("at first");
        SD d; d.pD = .5; d.lambdaB = 0;
        for (int k = 0; k < L; ++k) {
            unsigned o = pick(8);
            switch (o) {
            case 0: y.predict(0, 1, .2, 1); break;
            case 1: y.predict(0, 1, 0, 1); break;
            case 2: y.predict(1, 1, 0, 1, m4(I2 * .1, I2 * .1)); break;
            case 3: y.predict(0, .5, .1, 0); break;
            case 4: y.scan({}, d); break;
            case 5: y.scan({{60, .3, I2, .1}}, d); break;
            case 6: { SD e; e.lambdaB = 1; y.scan({{300 + 10. * k, 5, I2, .1}, {.2, .3, I2, .3}}, e); break; }
            default: y.trk->params.r_lim = k % 2 ? .3 : 1e-6; break;
            }
            look("then");
        }
        mc::describe("%s", y.log.c_str());
    });
    mc::family("snap", 10 * 2 * 2 * 8, [=] {
        unsigned n = pick(10); bool region = pick(2), two = pick(2); unsigned then = pick(8);
        std::unique_ptr<Y> y(new Y(open_limits(1e-4)));
        for (unsigned k = 0; k < n; ++k) { TD t = tdef(two && k % 2 ? 3 : k % 2); t.r = .1 + .09 * k; for (auto& c : t.c) { c.n += 30 * k; c.ve += k; } y->add(t); }
        if (n) { SD d; d.fov = 1; std::vector<RD> r; for (unsigned k = 0; k < n; k += 2) r.push_back({30. * k, 0, I2, .1}); y->scan(r, d); }
        std::vector<F> f; lmb::AABBox all(-90, -180, 90, 180);
        auto get = [&] { return region ? y->trk->get_targets(all) : y->trk->get_targets(); };
        TS l = get();
        std::map<unsigned, ref::Track> by; for (auto& t : y->snap()) by[t.id] = t;
        for (auto& t : l) { auto& b = by[t.id]; V4 m = ref::mean(b.c); M4 P = ref::cov(b.c);
            MC_CHECK("C26", (t.x - m).norm() < 1e-9 && (t.P - P).norm() < 1e-9 && t.w == b.r && t.cid == b.cid && (t.x - m).tail<2>().norm() < 1e-12, "%s: entry %u differs from its track", y->log.c_str(), t.id);
            f.push_back({t.x, t.P, b.r, b.id, b.cid}); }
        MC_CHECK("C26", l.size() == by.size(), "%s: %zu entries for %zu tracks", y->log.c_str(), l.size(), by.size());
        std::string log = y->log;
        chk(log, "as returned", l, f);
        switch (then) {
        case 0: { TS c = l; l.clear(); l.shrink_to_fit(); chk(log, "copied list", c, f); break; }
        case 1: { TS c = std::move(l); TS d; d.swap(c); chk(log, "moved list", d, f); break; }
        case 2: { TS c; for (auto& t : l) c.push_back(t); l.clear(); l.shrink_to_fit(); chk(log, "entries copied into a growing list", c, f); break; }
        case 3: { std::vector<std::unique_ptr<TS::value_type>> c; for (auto& t : l) c.emplace_back(new TS::value_type(t)); l.clear(); l.shrink_to_fit(); TS d; for (auto& t : c) d.push_back(*t); chk(log, "entries stored one by one", d, f); break; }
        case 4: { y->predict(0, .5, 1, 3); y->scan({{5, 5, I2, 1}}, SD()); chk(log, "after later operations", l, f); break; }
        case 5: { y->trk.reset(); chk(log, "after the tracker's end", l, f); TS c = l; chk(log, "copied after the tracker's end", c, f); break; }
        case 6: { TS c = get(); l.swap(c); c.clear(); c.shrink_to_fit(); chk(log, "swapped with a second list", l, f); if (!l.empty()) { l.erase(l.begin()); f.erase(f.begin()); chk(log, "after removing the first entry", l, f); } break; }
        case 7: { TS c = get(); std::reverse(c.begin(), c.end()); std::reverse(f.begin(), f.end()); chk(log, "reversed in place", c, f); l = c; c.clear(); c.shrink_to_fit(); chk(log, "assigned", l, f); break; }
        }
        mc::state(mc::Hasher().add(n).add((unsigned)region).add((unsigned)two).add(then).h);
        mc::describe("%u tracks, case %u", n, then); mc::outcome("list of " + std::to_string(n));
    });
    // writing one entry leaves the others and the tracker alone
    mc::family("snap.write", 5, [=] {
        unsigned n = 1 + pick(5); Y y(open_limits());
        for (unsigned k = 0; k < n; ++k) { TD t = tdef(0); t.r = .1 + .1 * k; t.c[0].n = 40. * k; y.add(t); }
        auto l = y.trk->get_targets(); auto c = l;
        for (auto& t : l) { t.w = .987; t.x.setZero(); }
        auto p = y.snap();
        for (unsigned k = 0; k < n; ++k) { MC_CHECK("C26", c[k].w == p[k].r && c[k].r == p[k].r && p[k].r == .1 + .1 * k, "writing to a list changes its copy or the tracker"); MC_CHECK("C26", l[k].r == .987, "r and w of an entry differ after writing"); mc::transition(2); }
        mc::describe("%u entries written", n);
    });
}
// ---- queries leave no trace
static void fam_query() {
    using Y = Sys<>;
    bool th = mc::thorough();
    auto query = [](Y& y, unsigned q) {
        V2 s = ref::scale(y.base); typename Y::Trk::TargetStates tr; V4 a; a << y.base, 0, 0; tr.push_back(a); a << y.ll(50, -20), 1, 1; tr.push_back(a);
        cf::LL far = y.base + V2(3, -5); cf::LL near = y.ll(30, 10);
        auto box = [&](double r) { return lmb::AABBox(y.base[0] - r / s[0], y.base[1] - r / s[1], y.base[0] + r / s[0], y.base[1] + r / s[1]); };
        switch (q) {
        case 0: y.trk->ospa(tr, 5, 1); break;
        case 1: y.trk->gospa(tr, 5, 2); break;
        case 2: y.trk->ospa(tr, far, 5, 2); y.trk->gospa(tr, near, 5, 1); break;
        case 3: y.trk->pos_phd(box(20), Eigen::Array2i(3, 4)); break;
        case 4: y.trk->pos_phd(box(30000), Eigen::Array2i(5, 2)); break;
        case 5: y.trk->get_targets(box(3)); y.trk->get_targets(); y.trk->enof_targets(); y.trk->enof_targets(box(2)); y.trk->nof_targets(box(900), .1); y.trk->nof_targets(box(900), .99); y.trk->nof_targets(.98); y.trk->nof_targets(); break;
        case 6: { std::ostringstream o; o << *y.trk; lmb::print(*y.trk); } break;
        case 7: y.trk->gospa({}, near, 3, 1); y.trk->ospa({}, 2, 2); y.trk->gospa(tr, far, 1e3, 1); break;
        }
        mc::transition();
    };
    static const unsigned SUB[] = {2, 3, 4, 5, 7, 10};
    int L = th ? 3 : 2;
    mc::family("query", 8 * (th ? 8 : 1) * 3 * mc::ipow(6, L + 1), [=] {
        unsigned q = pick(8), q2 = th ? pick(8) : (q + 3) % 8; unsigned ps = pick(3); bool strict = ps == 2; ps = ps == 1;
        std::vector<unsigned> ops; for (int k = 0; k < L + 1; ++k) ops.push_back(pick(SUB));
        Y a(pset(ps)), b(pset(ps)); a.want_queries = b.want_queries = false; a.last_ambiguous = b.last_ambiguous = false;
        // ties across a cut may be settled by addresses: two runs need not agree on them
        bool amb = false; auto tied = [&amb](Y& y) { if (y.last_ambiguous || y.exp.births_amb) amb = true; for (auto& x : y.exp.t) if (x.amb || x.undecided_alive) amb = true; };
        for (int k = 0; k < L; ++k) {
            op(a, ops[k]); op(b, ops[k]); tied(a); tied(b);
            // a query between a change of the limits and the next scan: tracks the limits no longer admit are still there
            auto keep = b.trk->params; if (strict) { b.trk->params.r_lim = .97; b.trk->params.cov_lim = .5; b.trk->params.w_lim = .9; b.trk->params.nhyp_max = 1; }
            auto before = b.snap(); auto js = Y::out(*b.trk);
            query(b, k % 2 ? q2 : q);
            auto after = b.snap();
            b.trk->params = keep;
            MC_CHECK("C18", before.size() == after.size(), "%s: query %u changes the track list", b.log.c_str(), q);
            for (size_t i = 0; i < before.size() && i < after.size(); ++i) MC_CHECK("C18", Y::equal(before[i], after[i]), "%s: query %u changes track %u: r %.17g to %.17g, %s to %s, box [%.12g %.12g] to [%.12g %.12g]", b.log.c_str(), k % 2 ? q2 : q, before[i].id, before[i].r, after[i].r, Y::comps(before[i].c).c_str(), Y::comps(after[i].c).c_str(), before[i].bb[0], before[i].bb[1], after[i].bb[0], after[i].bb[1]);
            MC_CHECK("C18", js == Y::out(*b.trk), "%s: query %u changes the printed tracker", b.log.c_str(), q);
            auto& qs = b.trk->targettree; for (auto& t : after) { lmb::AABBox x(t.bb[0], t.bb[1], t.bb[2], t.bb[3]); bool f = false; for (auto p : qs.query(x)) f |= p->id == t.id; MC_CHECK("C18", f, "%s: after query %u track %u is not found in its own box", b.log.c_str(), q, t.id); }
        }
        op(a, ops[L]); op(b, ops[L]); tied(a); tied(b);
        if (amb) { mc::outcome("queried, ties"); return; }
        auto x = a.snap(), z = b.snap();
        MC_CHECK("C18", x.size() == z.size(), "%s: with queries %u, %u there are %zu tracks in the end, without %zu", a.log.c_str(), q, q2, z.size(), x.size());
        for (size_t i = 0; i < x.size() && i < z.size(); ++i) MC_CHECK("C18", Y::close(x[i].r, z[i].r, 1e-9, 1e-12) && Y::same(x[i].c, z[i].c, .1) && a.same_box(x[i].bb, z[i].bb), "%s: with queries %u, %u track %u ends as r %.12g %s, without as r %.12g %s", a.log.c_str(), q, q2, x[i].id, z[i].r, Y::comps(z[i].c).c_str(), x[i].r, Y::comps(x[i].c).c_str());
        mc::describe("%s with queries %u, %u", a.log.c_str(), q, q2); mc::outcome("queried");
    });
}
// ---- printed forms of values the histories do not reach
static void fam_text() {
    using Y = Sys<>;
    mc::family("text", 6 * 6 * 3, [] {
        static const double V[] = {0, 1, -1.5, 1. / 3, 1e-17, -123456789.123456789};
        double a = pick(V), b = pick(V); unsigned n = pick(3);
        M4 P = M4::Constant(b); P(0, 0) = 2; P(1, 2) = -1e-300; V4 x; x << a, b, -a, 1e22;
        lmb::Params p; Y::PDF pdf(&p); std::vector<ref::Comp> c;
        for (unsigned k = 0; k < n; ++k) { pdf.c.emplace_back(x * (k + 1), P, .25 * (k + 1)); c.push_back({.25 * (k + 1), x * (k + 1), P}); }
        Json j; std::string s = lmb::print(pdf);
        MC_CHECK("C23", JsonParser::parse(s, j) && Y::mixture(j, c), "a mixture of %u components prints as %.300s", n, s.c_str());
        lmb::Gaussian_<4> g(x, P, .125); s = lmb::print(g);
        MC_CHECK("C23", JsonParser::parse(s, j) && Y::gauss(j, {.125, x, P}), "a Gaussian prints as %.300s", s.c_str());
        std::vector<Rep> z; for (unsigned k = 0; k < n; ++k) z.push_back(Rep(V2(a, b + k), m2(b, a, 3), 2));
        s = Y::out(z); bool ok = JsonParser::parse(s, j) && j.k == Json::ARR && j.a.size() == n; for (unsigned k = 0; ok && k < n; ++k) ok = Y::report(j.a[k], z[k]);
        MC_CHECK("C23", ok, "a scan of %u reports prints as %.300s", n, s.c_str());
        lmb::BBox bb; bb.corners << a, b, 1, 2, 3, -a, -b, 4; s = lmb::print(bb);
        MC_CHECK("C23", JsonParser::parse(s, j) && j["type"].s == "BBox" && Y::mat(j["c"], bb.corners), "a box prints as %.300s", s.c_str());
        Y::Trk::TargetSummaries::value_type t(x, P, .5, 4294967295u, 7); s = lmb::print(t);
        MC_CHECK("C23", JsonParser::parse(s, j) && j["type"].s == "T" && j["id"].n == 4294967295. && Y::mat(j["x"], x) && Y::mat(j["P"], P) && j["w"].n == .5, "a track summary prints as %.300s", s.c_str());
        mc::transition(5); mc::state(mc::Hasher().add(a).add(b).add(n).h); mc::describe("values %g %g x%u", a, b, n);
    });
    mc::family("text.tracks", 7 * 7 * 7 * 3 * 4, [] {
        static const double R[] = {0, 1e-300, 2e-7, .00025, .5, .999999, 1}; static const char LA[] = "uci"; static const unsigned C[] = {0, 7, 4294967295u, 100000};
        double r[3] = {pick(R), pick(R), pick(R)}; unsigned n = 1 + pick(3), cid = pick(C); Y::Trk t; std::vector<ref::Track> want;
        for (unsigned k = 0; k < n; ++k) {
            V4 x; x << 58 + k * .1, 15, r[k], -1; std::vector<ref::Comp> c; Y::PDF pdf(&t.params);
            for (unsigned i = 0; i <= k; ++i) { double w = i ? r[i - 1] : .5; V4 y = x + V4::Constant(i); pdf.c.emplace_back(y, M4::Identity(), w); c.push_back({w, y, M4::Identity()}); }
            pdf.bbox = lmb::BBox(x.head<2>(), m2(1, 0, 1), 2.); pdf.aabbox = lmb::AABBox(x[0], x[1], x[0] + 1, x[1] + 1);
            auto* p = t.targettree.new_target(r[k], std::move(pdf)); p->cid = cid + k; p->last_action = lmb::Action(LA[(k + n) % 3]);
            ref::Track q; q.id = p->id; q.cid = cid + k; q.r = r[k]; q.la = LA[(k + n) % 3]; q.c = c; want.push_back(q);
        }
        Json j; std::string s = Y::out(t); bool ok = JsonParser::parse(s, j) && j["targets"].k == Json::ARR && j["targets"].a.size() == n;
        MC_CHECK("C23", ok, "a tracker of %u tracks prints as %.300s", n, s.c_str());
        for (unsigned k = 0; ok && k < n; ++k) MC_CHECK("C23", Y::track(j["targets"].a[k], want[k]), "the track of existence %g prints as part of %.400s", r[k], s.c_str());
        MC_CHECK("C23", lmb::print(t) == s, "print and << differ"); mc::transition(n); mc::state(mc::Hasher().add(r[0]).add(r[1]).add(r[2]).add(n).h); mc::describe("%u tracks of existence %g %g %g", n, r[0], r[1], r[2]); mc::outcome(std::to_string(n) + " tracks");
    });
}
#endif
static void reg() {
#if PART == 1
    if (anyof({"C04", "C05", "C07", "C08", "C09", "C10", "C11", "C23"})) fam_hist();
    if (anyof({"C05", "C04"})) fam_chain();
#elif PART == 2
    if (anyof({"C06", "C11"})) fam_post();
    if (anyof({"C08"})) fam_birth();
    if (anyof({"C09", "C10"})) fam_predict();
#elif PART == 3
    if (anyof({"C07", "C11"})) { fam_trunc<200>("200"); fam_trunc<3>("3"); fam_trunc<1>("1"); fam_trunc_many(); }
#else
    if (anyof({"C24"})) fam_sensor();
    if (anyof({"C29"})) fam_order();
    if (anyof({"C26"})) fam_snap();
    if (anyof({"C18"})) fam_query();
    if (anyof({"C23"})) fam_text();
#endif
}
