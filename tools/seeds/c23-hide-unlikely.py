prop = "C23"
needs = "A track with an existence probability below a thousandth."
breaks = "Unlikely tracks are missing from the printed tracker."
edits = [("include/lmb.hpp", '            if (!first) { os << ","; } else { first = false; }\n            os << *t;', '            if (t->r < 1e-3) { continue; }\n            if (!first) { os << ","; } else { first = false; }\n            os << *t;')]
demo = PRE + r'''
int main() {
    Tracker t; add(t, 0, 0, .5); add(t, 50, 0, 5e-4); std::string s = print(t);
    CHECK(s.find("\"id\":1") != std::string::npos, "%s", s.c_str());
    return bad;
}
'''
