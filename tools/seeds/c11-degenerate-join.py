prop = "C11"
needs = "A track whose existence is between 0.95 and 1 after a scan in which no component is dropped."
breaks = "The weights of a joined density are only normalised when something was dropped, so they stop summing to one."
edits = [("include/gm.hpp", "            if (++wi[j] < pdfs[j].c.size()) {\n                q.emplace(w(0, j) * pdfs[j].c[wi[j]].w, j);\n            }\n        }\n        pdf.normalize();", "            if (++wi[j] < pdfs[j].c.size()) {\n                q.emplace(w(0, j) * pdfs[j].c[wi[j]].w, j);\n            }\n        }\n        if (!q.empty() || std::abs(wsum - 1) > 0.05) {\n            pdf.normalize();\n        }")]
demo = PRE + r'''
int main() {
    Tracker t; t.params.cw_lim = 0; t.params.w_lim = 0; auto* a = add(t, 0, 0, .98);
    Scan s{z(.2, 0, 1, .01)}; t.correct(sensor(.95, 0), s, 1);
    double w = 0; for (auto& c : a->pdf.c) w += c.w;
    CHECK(near(w, 1, 1e-9), "%.6f", w);
    return bad;
}
'''
