// Minimal strict JSON parser.
#pragma once
#include <cmath>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
struct Json {
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ, BAD } k = BAD;
    double n = 0; std::string s; std::vector<Json> a; std::vector<std::pair<std::string, Json>> o;
    const Json& operator[](const std::string& key) const { static Json bad; for (auto& x : o) if (x.first == key) return x.second; return bad; }
    bool has(const std::string& key) const { for (auto& x : o) if (x.first == key) return true; return false; }
};
struct JsonParser {
    const char* p; bool ok = true;
    void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
    Json val() {
        Json j; ws();
        if (*p == '{') {
            ++p; j.k = Json::OBJ; ws(); if (*p == '}') { ++p; return j; }
            while (ok) {
                ws(); if (*p != '"') { ok = false; break; }
                Json key = val(); ws(); if (*p++ != ':') { ok = false; break; }
                if (j.has(key.s)) { ok = false; break; }
                j.o.emplace_back(key.s, val()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; break; }
                ok = false;
            }
        } else if (*p == '[') {
            ++p; j.k = Json::ARR; ws(); if (*p == ']') { ++p; return j; }
            while (ok) { j.a.push_back(val()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; break; } ok = false; }
        } else if (*p == '"') {
            ++p; j.k = Json::STR;
            while (*p && *p != '"') { if (*p == '\\') { ++p; if (!*p) break; } if ((unsigned char)*p < 32) ok = false; j.s += *p++; }
            if (*p != '"') ok = false; else ++p;
        } else if (*p == '-' || (*p >= '0' && *p <= '9')) {
            const char* b = p; if (*p == '-') ++p;
            if (*p == '0') ++p; else if (*p >= '1' && *p <= '9') while (*p >= '0' && *p <= '9') ++p; else ok = false;
            if (*p == '.') { ++p; if (!(*p >= '0' && *p <= '9')) ok = false; while (*p >= '0' && *p <= '9') ++p; }
            if (*p == 'e' || *p == 'E') { ++p; if (*p == '+' || *p == '-') ++p; if (!(*p >= '0' && *p <= '9')) ok = false; while (*p >= '0' && *p <= '9') ++p; }
            j.k = Json::NUM; j.n = strtod(std::string(b, p).c_str(), 0);
        } else if (!strncmp(p, "true", 4)) { p += 4; j.k = Json::BOOL; j.n = 1; }
        else if (!strncmp(p, "false", 5)) { p += 5; j.k = Json::BOOL; }
        else if (!strncmp(p, "null", 4)) { p += 4; j.k = Json::NUL; }
        else ok = false;
        return j;
    }
    static bool parse(const std::string& s, Json& j) { JsonParser q{s.c_str()}; j = q.val(); q.ws(); return q.ok && *q.p == 0; }
};
