// C03: the spatial index against a list of (rectangle, id), over operation histories.
#include "mc.hpp"
#include <algorithm>
#include <cstdio>
#include <memory>
#include "RTree.h"
using mc::pick;
struct R { double a[2], b[2]; };
struct E { R r; int id; };
static bool touch(const R& x, const R& y) { return x.a[0] <= y.b[0] && y.a[0] <= x.b[0] && x.a[1] <= y.b[1] && y.a[1] <= x.b[1]; }

typedef RTree<int, double, 2, double, 3, 1> T31;
typedef RTree<int, double, 2, double, 4, 2> T42;
typedef RTree<int, double, 2> T84;
typedef RTree<int, float, 2, float, 6, 3> T63f;

static bool collect(int id, void* c) { static_cast<std::vector<int>*>(c)->push_back(id); return true; }
struct Lim { std::vector<int> v; size_t n; };
static bool collectn(int id, void* c) { auto l = static_cast<Lim*>(c); l->v.push_back(id); return l->v.size() < l->n; }

template<typename T, typename F> struct Sys {
    std::unique_ptr<T> t{new T};
    std::vector<E> m;
    int next = 1;
    std::string log;
    mc::Hasher hist;
    void note(const char* s, const R* r = nullptr, int id = 0) {
        char b[160];
        if (r) snprintf(b, sizeof b, "%s%d[%g,%g,%g,%g] ", s, id, r->a[0], r->a[1], r->b[0], r->b[1]); else snprintf(b, sizeof b, "%s ", s);
        log += b; hist.add(mc::hash_bytes(b, strlen(b)));
    }
    static void arr(const R& r, F (&a)[2], F (&b)[2]) { for (int k = 0; k < 2; ++k) { a[k] = r.a[k]; b[k] = r.b[k]; } }
    void insert(const R& r) { F a[2], b[2]; arr(r, a, b); note("+", &r, next); t->Insert(a, b, next); m.push_back({r, next++}); mc::transition(); }
    void remove(size_t k) { F a[2], b[2]; arr(m[k].r, a, b); note("-", &m[k].r, m[k].id); t->Remove(a, b, m[k].id); m.erase(m.begin() + k); mc::transition(); }
    void absent(const R& r) { F a[2], b[2]; arr(r, a, b); note("-absent"); t->Remove(a, b, 100000); mc::transition(); }
    void clear() { note("clear"); t->RemoveAll(); m.clear(); mc::transition(); }
    void saveload(bool fresh) {
        note(fresh ? "save+load-fresh" : "save+load");
        std::string f = (mc::opt().tmp.empty() ? "/tmp" : mc::opt().tmp) + "/rt." + std::to_string(getpid());
        MC_CHECK("C03", t->Save(f.c_str()), "%s: Save fails", log.c_str());
        mc::transition(2);
        if (fresh) t.reset(new T);
        MC_CHECK("C03", t->Load(f.c_str()), "%s: Load fails", log.c_str());
        ::unlink(f.c_str());
    }
    void q(const R& r) {
        F a[2], b[2]; arr(r, a, b);
        std::vector<int> got, want;
        int n = t->Search(a, b, collect, &got);
        mc::transition();
        for (auto& e : m) if (touch(e.r, r)) want.push_back(e.id);
        auto g = got; std::sort(g.begin(), g.end()); std::sort(want.begin(), want.end());
        MC_CHECK("C03", g == want, "after %s: search [%g,%g,%g,%g] finds %zu entries, brute force %zu", log.c_str(), r.a[0], r.a[1], r.b[0], r.b[1], g.size(), want.size());
        MC_CHECK("C03", n == (int)got.size(), "after %s: search returns %d for %zu hits", log.c_str(), n, got.size());
        if (want.size() > 1) {
            Lim l; l.n = 1 + want.size() / 2;
            t->Search(a, b, collectn, &l);
            MC_CHECK("C03", l.v.size() == l.n, "after %s: callback asked to stop after %zu, was called %zu times", log.c_str(), l.n, l.v.size());
        }
    }
    void check(const std::vector<R>& qs) {
        MC_CHECK("C03", t->Count() == (int)m.size(), "after %s: Count() is %d, stored %zu", log.c_str(), t->Count(), m.size());
        std::vector<int> it; mc::Hasher h;
        typename T::Iterator i;
        size_t guard = 0;
        for (t->GetFirst(i); !t->IsNull(i) && guard < m.size() + 3; t->GetNext(i), ++guard) {
            int id = *i; F a[2], b[2]; i.GetBounds(a, b); it.push_back(id);
            h.add(id).add((double)a[0]).add((double)a[1]).add((double)b[0]).add((double)b[1]);
            auto e = std::find_if(m.begin(), m.end(), [id](const E& x) { return x.id == id; });
            if (e != m.end()) MC_CHECK("C03", a[0] == (F)e->r.a[0] && a[1] == (F)e->r.a[1] && b[0] == (F)e->r.b[0] && b[1] == (F)e->r.b[1], "after %s: iteration gives wrong bounds for %d", log.c_str(), id);
        }
        mc::state(h.h);
        std::sort(it.begin(), it.end());
        std::vector<int> want; for (auto& e : m) want.push_back(e.id);
        std::sort(want.begin(), want.end());
        MC_CHECK("C03", it == want, "after %s: iteration visits %zu entries, stored %zu", log.c_str(), it.size(), want.size());
        for (auto& r : qs) q(r);
    }
};

static std::vector<R> queries(int w) {
    std::vector<R> q;
    for (int x = -1; x <= w; x += (w > 6 ? 2 : 1)) for (int y = -1; y <= w; y += (w > 6 ? 3 : 2)) q.push_back({{x + .5, y + .5}, {x + .5, y + .5}});
    q.push_back({{-100, -100}, {100, 100}}); q.push_back({{0, 0}, {0, 0}}); q.push_back({{2, 2}, {3, 3}});
    q.push_back({{(double)w, 0}, {w + 5., (double)w}}); q.push_back({{0.25, -3}, {0.75, 40}}); q.push_back({{-9, -9}, {-8, -8}});
    return q;
}
// Rectangle patterns for preloading: n-th rectangle of pattern p.
static R pat(int p, int n) {
    double x, y;
    switch (p) {
    case 0: x = n % 5; y = n / 5; return {{x, y}, {x + .5, y + .5}};              // grid
    case 1: x = n; y = n; return {{x * .4, y * .4}, {x * .4 + 1, y * .4 + 1}};     // diagonal, overlapping
    case 2: return {{1, 1}, {2, 2}};                                             // identical
    case 3: x = .1 * n; return {{x, x}, {10 - x, 10 - x}};                        // nested
    case 4: x = (n * 7) % 11; y = (n * 5) % 13; return {{x, y}, {x, y}};           // points
    case 5: x = n % 3; return {{x * 3, 0}, {x * 3 + 2, 9}};                        // tall columns, repeated
    default: x = (n * n) % 10; y = (3 * n) % 7; return {{x - 4, y - 4}, {x + (n % 3), y + (n % 4)}};
    }
}
static const int NPAT = 7;

template<typename T, typename F> static void fam(const char* name) {
    bool th = mc::thorough();
    std::string nm = name;
    static const R RS[] = {{{0, 0}, {1, 1}}, {{2, 2}, {3, 3}}, {{.5, .5}, {2.5, 2.5}}, {{1, 2}, {1, 2}}};
    // all operation sequences from the empty index
    int D = th ? 8 : 7;
    mc::family(nm + ".seq", mc::ipow(6, D), [D] {
        Sys<T, F> s; auto qs = queries(3);
        for (int k = 0; k < D; ++k) {
            unsigned o = pick(6);
            if (o < 4) s.insert(RS[o]);
            else if (s.m.empty()) { mc::skip(); return; }
            else s.remove(o == 4 ? 0 : s.m.size() - 1);
        }
        // only the final state needs checking: every prefix is a case of its own (padded by other operations)
        s.check(qs);
        mc::describe("%s-> %zu entries", s.log.c_str(), s.m.size()); mc::outcome("sequence of " + std::to_string(s.m.size()));
    });
    // short operation sequences from preloaded states
    int N = th ? 34 : 26, L = 3;
    mc::family(nm + ".pre", (uint64_t)NPAT * N * mc::ipow(9, L), [N, L] {
        Sys<T, F> s; auto qs = queries(9);
        int p = pick(NPAT), n = pick(N);
        for (int k = 0; k < n; ++k) s.insert(pat(p, k));
        for (int k = 0; k < L; ++k) {
            unsigned o = pick(9);
            size_t z = s.m.size();
            switch (o) {
            case 0: s.insert(pat(p, n + k)); break;
            case 1: s.insert(R{{-5, -5}, {20, 20}}); break;
            case 2: case 3: case 4: if (!z) { mc::skip(); return; } s.remove(o == 2 ? 0 : o == 3 ? z - 1 : z / 2); break;
            case 5: s.clear(); break;
            case 6: s.saveload(false); break;
            case 7: s.saveload(true); break;
            case 8: s.absent(pat(p, 1)); break;
            }
            if (k + 1 == L || o >= 5) s.check(qs);
        }
        mc::describe("pattern %d, %d loaded, then %s-> %zu entries", p, n, s.log.size() > 200 ? s.log.c_str() + s.log.size() - 200 : s.log.c_str(), s.m.size());
        mc::outcome("preloaded");
    });
    // fill, then empty in every stride order, checking after every removal
    mc::family(nm + ".drain", (uint64_t)NPAT * (th ? 60 : 44) * 6, [] {
        Sys<T, F> s; auto qs = queries(9);
        int p = pick(NPAT), stride = pick(6), n = 1 + (mc::st().rem);
        for (int k = 0; k < n; ++k) s.insert(pat(p, k));
        s.check(qs);
        size_t at = 0;
        while (!s.m.empty()) { at = stride == 5 ? s.m.size() - 1 : (at + stride * 3 + (stride ? 1 : 0)) % s.m.size(); s.remove(at); s.check(qs); }
        for (int k = 0; k < 5; ++k) { s.insert(pat(p, k)); }
        s.check(qs);
        mc::describe("pattern %d: %d inserted, emptied with stride %d, refilled", p, n, stride); mc::outcome("drained");
    });
    // every removal order of up to 6 (7) entries
    int M = th ? 7 : 6; uint64_t fact = 1; for (int k = 2; k <= M; ++k) fact *= k;
    mc::family(nm + ".perm", (uint64_t)NPAT * fact, [M] {
        Sys<T, F> s; auto qs = queries(5);
        int p = pick(NPAT);
        for (int k = 0; k < M + 6; ++k) s.insert(pat(p, k));
        for (int k = M; k > 0; --k) { s.remove(pick(k)); s.check(qs); }
        mc::describe("pattern %d: %s", p, s.log.c_str()); mc::outcome("permuted removal");
    });
}
static void reg() {
    fam<T31, double>("m3n1"); fam<T42, double>("m4n2"); fam<T84, double>("m8n4"); fam<T63f, float>("m6n3f");
    mc::family("foreign", 3, [] {   // a file of another layout is refused; a missing one too
        std::string f = (mc::opt().tmp.empty() ? "/tmp" : mc::opt().tmp) + "/rtx." + std::to_string(getpid());
        unsigned k = pick(3);
        double a[2] = {0, 0}, b[2] = {1, 1};
        T84 t; t.Insert(a, b, 1); MC_CHECK("C03", t.Save(f.c_str()), "Save fails");
        bool r = true;
        if (k == 0) { T42 o; r = o.Load(f.c_str()); }
        else if (k == 1) { RTree<int, double, 3> o; r = o.Load(f.c_str()); }
        else { T84 o; r = o.Load((f + ".missing").c_str()); }
        ::unlink(f.c_str());
        mc::transition(2);
        MC_CHECK("C03", !r, "Load accepts an incompatible or missing file (%u)", k);
        mc::describe("incompatible load %u", k);
    });
}
int main(int argc, char** argv) { return mc::main_(argc, argv, reg); }
