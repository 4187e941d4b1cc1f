// C27: JSON text written by any writer is read back as the same document; any text is either refused or read, safely.
#include "common.hpp"
#include "json.h"
#include <cfloat>
#include <fstream>
#include <limits>
#include <sstream>

namespace {
struct J {
    enum K { Null, Bool, Int, UInt, Real, Str, Arr, Obj } k = Null;
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<J> a;
    std::map<std::string, J> o;
};
void utf8(std::string &s, uint32_t c) {
    if (c < 0x80) s += static_cast<char>(c);
    else if (c < 0x800) {
        s += static_cast<char>(0xC0 | (c >> 6));
        s += static_cast<char>(0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += static_cast<char>(0xE0 | (c >> 12));
        s += static_cast<char>(0x80 | ((c >> 6) & 63));
        s += static_cast<char>(0x80 | (c & 63));
    } else {
        s += static_cast<char>(0xF0 | (c >> 18));
        s += static_cast<char>(0x80 | ((c >> 12) & 63));
        s += static_cast<char>(0x80 | ((c >> 6) & 63));
        s += static_cast<char>(0x80 | (c & 63));
    }
}
uint32_t codepoint(Gen &g) {
    switch (g.integer(0, 7)) {
        case 0: return static_cast<uint32_t>(g.integer(1, 31));
        case 1: return static_cast<uint32_t>(g.oneof({'"', '\\', '/', '\n', '\r', '\t', '\b', '\f', ' ', '\x7f', '*', '\''}));
        case 2: return 0x80 + static_cast<uint32_t>(g.raw(0x7ff - 0x80));
        case 3: {
            uint32_t c = 0x800 + static_cast<uint32_t>(g.raw(0xffff - 0x800));
            return c >= 0xD800 && c <= 0xDFFF ? 0x20AC : c;
        }
        case 4: return 0x10000 + static_cast<uint32_t>(g.raw(0x10ffff - 0x10000));
        default: return 'a' + static_cast<uint32_t>(g.raw(25));
    }
}
std::string text(Gen &g, bool nul) {
    std::string s;
    for (size_t n = 0; g.more(n, g.chance(1, 10) ? 90 : 12, 4); ++n) {
        if (nul && g.chance(1, 30)) s += '\0';
        else if (nul && g.chance(1, 30)) s += static_cast<char>(g.integer(0x80, 0xff));  // a byte of some other encoding
        else utf8(s, codepoint(g));
    }
    return s;
}
double number(Gen &g) {
    switch (g.integer(0, 4)) {
        case 0: return g.smooth(-100, 100);
        case 1: return static_cast<double>(static_cast<float>(g.smooth(-10, 10)));
        case 2: {
            uint64_t bits = (g.raw(~0ull));
            double d;
            memcpy(&d, &bits, 8);
            return std::isfinite(d) ? d : 1.5;
        }
        case 3: return g.oneof({0., -0., DBL_MAX, -DBL_MAX, DBL_MIN, DBL_EPSILON, 5e-324, 1e-310, 0.1, 1. / 3, 1e15, 1e16, 1e17, 1e20, 1e21, 9007199254740993., 18446744073709551615., 9.2233720368547758e18});
        default: return (g.coin() ? 1 : -1) * g.logreal(1e-300, 1e300);
    }
}
// nul: strings may hold zeros; keyNul: keys too
J value(Gen &g, int depth, bool nul) {
    J v;
    int k = g.integer(0, depth > 0 ? 9 : 6);
    switch (k) {
        case 0: break;
        case 1:
            v.k = J::Bool;
            v.b = g.coin();
            break;
        case 2:
            v.k = J::Int;
            v.i = g.coin() ? g.integer(-100, 100) : g.chance(1, 3) ? g.oneof({INT64_MIN, INT64_MIN + 1, INT64_MAX, static_cast<int64_t>(INT32_MIN), static_cast<int64_t>(INT32_MAX), static_cast<int64_t>(INT32_MIN) - 1, -1l}) : static_cast<int64_t>(g.raw(~0ull));
            break;
        case 3:
            v.k = J::UInt;
            v.u = g.coin() ? g.raw(100) : g.chance(1, 3) ? g.oneof({UINT64_MAX, UINT64_MAX - 1, static_cast<uint64_t>(INT64_MAX), static_cast<uint64_t>(INT64_MAX) + 1, static_cast<uint64_t>(UINT32_MAX), static_cast<uint64_t>(UINT32_MAX) + 1}) : g.raw(~0ull);
            break;
        case 4:
            v.k = J::Real;
            v.d = number(g);
            break;
        case 5:
        case 6:
            v.k = J::Str;
            v.s = text(g, nul);
            break;
        case 7:
        case 8:
            v.k = J::Arr;
            if (g.chance(1, 6)) {  // numbers, which writers lay out in their own way
                for (size_t n = 0; g.more(n, 60, 15); ++n) {
                    J e;
                    e.k = J::Real;
                    e.d = number(g);
                    v.a.push_back(e);
                }
            } else
                for (size_t n = 0; g.more(n, 8, 3); ++n) v.a.push_back(value(g, depth - 1, nul));
            break;
        default:
            v.k = J::Obj;
            for (size_t n = 0; g.more(n, 8, 3); ++n) {
                std::string key = text(g, nul);
                v.o[key] = value(g, depth - 1, nul);
            }
    }
    return v;
}
Json::Value build(const J &v) {
    switch (v.k) {
        case J::Null: return Json::Value();
        case J::Bool: return Json::Value(v.b);
        case J::Int: return Json::Value(static_cast<Json::Int64>(v.i));
        case J::UInt: return Json::Value(static_cast<Json::UInt64>(v.u));
        case J::Real: return Json::Value(v.d);
        case J::Str: return Json::Value(v.s);
        case J::Arr: {
            Json::Value r(Json::arrayValue);
            for (auto &e : v.a) r.append(build(e));
            return r;
        }
        default: {
            Json::Value r(Json::objectValue);
            for (auto &e : v.o) r[e.first] = build(e.second);
            return r;
        }
    }
}
std::string show(const J &v) {
    switch (v.k) {
        case J::Null: return "null";
        case J::Bool: return v.b ? "true" : "false";
        case J::Int: return str("i", v.i);
        case J::UInt: return str("u", v.u);
        case J::Real: return str("r", v.d);
        case J::Str: {
            std::string o = "'";
            for (unsigned char c : v.s) o += c >= 32 && c < 127 ? std::string(1, static_cast<char>(c)) : str("<", static_cast<int>(c), ">");
            return o + "'";
        }
        case J::Arr: {
            std::string o = "[";
            for (auto &e : v.a) o += show(e) + " ";
            return o + "]";
        }
        default: {
            std::string o = "{";
            for (auto &e : v.o) {
                J k;
                k.k = J::Str;
                k.s = e.first;
                o += show(k) + ":" + show(e.second) + " ";
            }
            return o + "}";
        }
    }
}
// typed: the value has not been through text, which turns 3.0 into 3
void same(const char *tag, const Json::Value &x, const J &v, const std::string &where, bool typed) {
    switch (v.k) {
        case J::Null: PBT_CHECK(tag, x.isNull(), where, " is not null"); break;
        case J::Bool: PBT_CHECK(tag, x.isBool() && x.asBool() == v.b, where, " is not ", v.b); break;
        case J::Int:
            PBT_CHECK(tag, x.isInt64() && x.isNumeric() && x.isIntegral() && x.asInt64() == v.i, where, " is not ", v.i);
            PBT_CHECK(tag, x.isInt() == (v.i >= INT32_MIN && v.i <= INT32_MAX) && x.isUInt() == (v.i >= 0 && v.i <= UINT32_MAX) && x.isUInt64() == (v.i >= 0), where, " ", v.i, " has other ranges");
            break;
        case J::UInt:
            PBT_CHECK(tag, x.isUInt64() && x.isNumeric() && x.isIntegral() && x.asUInt64() == v.u, where, " is not ", v.u);
            PBT_CHECK(tag, x.isInt64() == (v.u <= static_cast<uint64_t>(INT64_MAX)) && x.isUInt() == (v.u <= UINT32_MAX), where, " ", v.u, " has other ranges");
            break;
        case J::Real:
            PBT_CHECK(tag, x.isDouble() && x.isNumeric() && x.asDouble() == v.d, where, " is ", x.isNumeric() ? x.asDouble() : NAN, " instead of ", v.d);
            if (typed) PBT_CHECK(tag, x.type() == Json::realValue, where, " is no real");
            break;
        case J::Str: PBT_CHECK(tag, x.isString() && x.asString() == v.s, where, " is not ", show(v)); break;
        case J::Arr:
            PBT_CHECK(tag, x.isArray() && x.size() == v.a.size(), where, " is no array of ", v.a.size());
            for (size_t i = 0; i < v.a.size(); ++i) same(tag, x[static_cast<Json::ArrayIndex>(i)], v.a[i], str(where, "[", i, "]"), typed);
            break;
        default: {
            PBT_CHECK(tag, x.isObject() && x.size() == v.o.size(), where, " is no object of ", v.o.size());
            auto m = x.getMemberNames();
            PBT_CHECK(tag, m.size() == v.o.size(), where, " member names");
            for (auto &e : v.o) {
                PBT_CHECK(tag, x.isMember(e.first), where, " lacks ", e.first);
                PBT_CHECK(tag, std::count(m.begin(), m.end(), e.first) == 1, where, " does not list ", e.first);
                same(tag, x[e.first], e.second, where + "." + e.first, typed);
            }
        }
    }
}
bool hasNulKey(const J &v) {
    for (auto &e : v.o)
        if (e.first.find('\0') != std::string::npos || hasNulKey(e.second)) return true;
    for (auto &e : v.a)
        if (hasNulKey(e)) return true;
    return false;
}
// a reader given exactly the bytes of the text
bool readChars(const std::string &t, bool strict, Json::Value &root, std::string &err) {
    Json::CharReaderBuilder b;
    if (strict) Json::CharReaderBuilder::strictMode(&b.settings_);
    std::unique_ptr<Json::CharReader> r(b.newCharReader());
    std::unique_ptr<char[]> m(new char[t.size()]);
    std::copy(t.begin(), t.end(), m.get());
    return r->parse(m.get(), m.get() + t.size(), &root, &err);
}
// --- texts with a known meaning, written in every way JSON allows -------------------------------------------
void ws(Gen &g, std::string &o, bool comments) {
    while (g.chance(1, 4)) {
        if (comments && g.chance(1, 5)) {
            if (g.coin()) o += g.oneof({std::string("/* a */"), std::string("/**/"), std::string("/* x * / \n \" */")});
            else o += "// b \" \n";
        } else
            o += g.oneof({' ', '\n', '\t', '\r'});
    }
}
void strText(Gen &g, const std::string &s, std::string &o) {
    o += '"';
    for (size_t i = 0; i < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        uint32_t cp = n == 1 ? c : c & (0xFF >> (n + 1));
        for (size_t k = 1; k < n; ++k) cp = cp << 6 | (static_cast<unsigned char>(s[i + k]) & 63);
        const char *esc = cp == '"' ? "\\\"" : cp == '\\' ? "\\\\" : cp == '/' ? "\\/" : cp == '\b' ? "\\b" : cp == '\f' ? "\\f" : cp == '\n' ? "\\n" : cp == '\r' ? "\\r" : cp == '\t' ? "\\t" : nullptr;
        bool must = cp < 32 || cp == '"' || cp == '\\';
        if (must || g.chance(1, 5)) {
            if (esc && g.coin()) o += esc;
            else {
                char b[16];
                const char *f = g.coin() ? "\\u%04x" : "\\u%04X";
                if (cp < 0x10000) {
                    snprintf(b, sizeof b, f, cp);
                    o += b;
                } else {
                    snprintf(b, sizeof b, f, 0xD800 + ((cp - 0x10000) >> 10));
                    o += b;
                    snprintf(b, sizeof b, f, 0xDC00 + ((cp - 0x10000) & 0x3FF));
                    o += b;
                }
            }
        } else
            o += s.substr(i, n);
        i += n;
    }
    o += '"';
}
void jsonText(Gen &g, const J &v, std::string &o, bool comments) {
    switch (v.k) {
        case J::Null: o += "null"; break;
        case J::Bool: o += v.b ? "true" : "false"; break;
        case J::Int: o += std::to_string(v.i); break;
        case J::UInt: o += std::to_string(v.u); break;
        case J::Real: {
            char b[64];
            const char *f = g.oneof({"%.17g", "%.17e", "%.20e", "%.17E"});
            snprintf(b, sizeof b, f, v.d);
            o += b;
            break;
        }
        case J::Str: strText(g, v.s, o); break;
        case J::Arr: {
            o += '[';
            ws(g, o, false);
            for (size_t i = 0; i < v.a.size(); ++i) {
                if (i) o += ',';
                ws(g, o, comments);
                jsonText(g, v.a[i], o, comments);
                ws(g, o, comments);
            }
            o += ']';
            break;
        }
        default: {
            o += '{';
            size_t i = 0;
            for (auto &e : v.o) {
                if (i++) o += ',';
                ws(g, o, comments);
                strText(g, e.first, o);
                ws(g, o, false);
                o += ':';
                ws(g, o, comments);
                jsonText(g, e.second, o, comments);
                ws(g, o, comments);
            }
            o += '}';
        }
    }
}
J document(Gen &g, bool nul) {
    J v = value(g, 4, nul);
    if (v.k == J::Arr && g.coin())
        for (size_t n = 0; g.more(n, 6, 3); ++n) v.a.push_back(value(g, 3, nul));
    if (v.k != J::Arr && v.k != J::Obj && g.chance(3, 4)) {
        J a;
        a.k = g.coin() ? J::Arr : J::Obj;
        for (size_t n = 0; g.more(n, 10, 5) || n == 0; ++n) {
            if (a.k == J::Arr) a.a.push_back(value(g, 3, nul));
            else {
                std::string key = text(g, nul);
                a.o[key] = value(g, 3, nul);
            }
        }
        return a;
    }
    return v;
}
size_t weight(const J &v) {
    size_t n = 1;
    for (auto &e : v.a) n += weight(e);
    for (auto &e : v.o) n += weight(e.second);
    return n;
}
}  // namespace

PBT_FACET(writers, 60000, 800000, "a document of 4 or more values") {
    bool nul = g.chance(1, 5);
    J v = document(g, nul);
    g.note(show(v), "\n");
    Json::Value x = build(v);
    same("built", x, v, "value", true);
    std::string t;
    int w = g.integer(0, 5);
    bool typed = false;
    if (hasNulKey(v) && (w == 1 || w == 2)) w = 0;  // the styled writers end names at a zero
    switch (w) {
        case 0: {
            Json::FastWriter f;
            if (g.coin()) f.omitEndingLineFeed();
            if (g.coin()) f.enableYAMLCompatibility();
            t = f.write(x);
            if (g.chance(1, 4)) PBT_CHECK("again", f.write(x) == t, "the writer writes another text the second time");
            break;
        }
        case 1: {
            Json::StyledWriter f;
            t = f.write(x);
            PBT_CHECK("again", f.write(x) == t, "the writer writes another text the second time");
            PBT_CHECK("again", x.toStyledString() == t, "toStyledString differs");
            break;
        }
        case 2: {
            std::ostringstream o;
            Json::StyledStreamWriter f(g.oneof({"\t", " ", "", "    "}));
            f.write(o, x);
            t = o.str();
            break;
        }
        case 3: {
            std::ostringstream o;
            o << x;
            t = o.str();
            break;
        }
        default: {
            Json::StreamWriterBuilder b;
            b["indentation"] = g.oneof({std::string(), std::string(" "), std::string("\t")});
            b["enableYAMLCompatibility"] = g.coin();
            b["commentStyle"] = g.coin() ? "All" : "None";
            t = Json::writeString(b, x);
        }
    }
    g.note(w, ": ", t, "\n");
    same("unchanged", x, v, "value", true);
    // read by every reader, into a value that held something
    for (int r = 0; r < 5; ++r) {
        Json::Value y = g.chance(1, 3) ? build(value(g, 2, false)) : Json::Value();
        bool ok = true;
        std::string err;
        switch (r) {
            case 0: {
                Json::Reader rd;
                ok = rd.parse(t, y, g.coin());
                err = rd.getFormattedErrorMessages();
                PBT_CHECK("good", rd.good() == ok && rd.getStructuredErrors().empty() == ok, "errors of a read text: ", err);
                break;
            }
            case 1: ok = readChars(t, false, y, err); break;
            case 2:
                if (v.k != J::Arr && v.k != J::Obj) continue;
                ok = readChars(t, true, y, err);
                break;
            case 3: {
                std::istringstream in(t);
                in >> y;
                break;
            }
            default: {
                Json::Reader rd(Json::Features::all());
                std::istringstream in(t);
                ok = rd.parse(in, y);
            }
        }
        PBT_CHECK("refused", ok, "reader ", r, " refuses the text: ", err);
        same("round-trip", y, v, "value", typed);
        PBT_CHECK("errors", err.empty(), err);
    }
    if (weight(v) >= 4) g.nontrivial();
}

PBT_FACET(texts, 60000, 800000, "a text of 4 or more values") {
    J v = document(g, false);
    bool comments = g.chance(1, 3);
    std::string t;
    ws(g, t, comments);
    jsonText(g, v, t, comments);
    ws(g, t, comments);
    g.note(t, "\n");
    for (int r = 0; r < 3; ++r) {
        if (r == 2 && (comments || (v.k != J::Arr && v.k != J::Obj))) continue;
        Json::Value y;
        std::string err;
        bool ok;
        if (r == 0) {
            Json::Reader rd;
            ok = rd.parse(t, y, g.coin());
            err = rd.getFormattedErrorMessages();
        } else
            ok = readChars(t, r == 2, y, err);
        PBT_CHECK("refused", ok, "reader ", r, " refuses the text: ", err);
        same("meaning", y, v, "value", false);
        // and again through a writer (comments are outside: the styled writers may place one over what follows)
        std::string t2 = comments || g.coin() ? Json::FastWriter().write(y) : Json::StyledWriter().write(y);
        Json::Value z;
        Json::Reader rd;
        PBT_CHECK("rewritten", rd.parse(t2, z), "the text written from it is refused: ", rd.getFormattedErrorMessages(), "\n", t2);
        same("rewritten", z, v, "value", false);
    }
    if (weight(v) >= 4) g.nontrivial();
}

PBT_FACET(damaged, 80000, 1000000, "a damaged text of 20 or more characters") {
    J v = document(g, false);
    std::string t;
    jsonText(g, v, t, g.chance(1, 3));
    for (size_t n = 0; g.more(n, 5, 2) || n == 0; ++n) {
        size_t p = t.empty() ? 0 : g.raw(t.size());
        switch (g.integer(0, 5)) {
            case 0: t = t.substr(0, p); break;
            case 1: t.insert(p, 1, g.oneof({'"', '\\', '{', '}', '[', ']', ',', ':', '/', '*', '-', 'e', '.', '0', 'u', '\n', '\r', 't', 'n', '\0'})); break;
            case 2:
                if (!t.empty()) t.erase(std::min(p, t.size() - 1), 1 + g.raw(3));
                break;
            case 3:
                if (!t.empty()) t[std::min(p, t.size() - 1)] = static_cast<char>(g.raw(255));
                break;
            case 4: t.insert(p, g.oneof({"\\ud800", "\\u12", "\\ud83d\\u0041", "/*", "//", "1e999", "-", "1.", "1e", "-0", "NaN", "99999999999999999999", "nul", "{\"\":1,}", "[1,]", "\"\\"})); break;
            default: t += t.substr(p).substr(0, 40);
        }
    }
    g.note(t, "\n");
    for (int r = 0; r < 4; ++r) {
        Json::Value y = g.coin() ? build(value(g, 2, false)) : Json::Value();
        bool ok = false;
        std::string err;
        try {
            if (r == 0) {
                Json::Reader rd;
                ok = rd.parse(t, y, g.coin());
                err = rd.getFormattedErrorMessages();
                PBT_CHECK("good", !ok || rd.good(), "read, with errors: ", err);
                PBT_CHECK("good", ok || !rd.getStructuredErrors().empty(), "refused without a reason");
            } else if (r == 3) {
                Json::Reader rd(Json::Features::strictMode());
                ok = rd.parse(t, y, false);
                err = rd.getFormattedErrorMessages();
            } else
                ok = readChars(t, r == 2, y, err);
        } catch (std::exception &) {
        }
        if (!ok) continue;
        // what was read can be written and read again as the same document
        Json::FastWriter w;
        std::string t2 = w.write(y);
        Json::Value z;
        Json::Reader rd;
        bool inf = t2.find("e+9999") != std::string::npos;
        for (size_t i = 0; i + 2 < t2.size(); ++i)  // a zero below zero is read back as the integer zero
            if (t2[i] == '-' && t2[i + 1] == '0' && strchr(",]}\n", t2[i + 2])) t2.erase(i, 1);
        if (inf) continue;
        PBT_CHECK("stable", rd.parse(t2, z), "what was read is written as a text that is refused: ", rd.getFormattedErrorMessages(), "\n", t2);
        PBT_CHECK("stable", w.write(z) == t2, "what was read is written as ", t2, " and then ", w.write(z));
        g.label(r == 0 ? "Reader accepts" : r == 1 ? "CharReader accepts" : "strict accepts");
    }
    if (t.size() >= 20) g.nontrivial();
}

PBT_FACET(values, 60000, 800000, "5 or more operations on a value of 4 or more") {
    J v = document(g, true);
    if (v.k != J::Arr && v.k != J::Obj) v.k = g.coin() ? J::Arr : J::Obj;
    Json::Value x = build(v);
    size_t ops = 0;
    for (size_t n = 0; g.more(n, 15, 7); ++n, ++ops) {
        // an array or object within
        J *m = &v;
        Json::Value *y = &x;
        for (int d = 0; d < 4 && g.coin(); ++d) {
            if (m->k == J::Arr && !m->a.empty()) {
                size_t i = g.raw(m->a.size() - 1);
                m = &m->a[i];
                y = &(*y)[static_cast<Json::ArrayIndex>(i)];
            } else if (m->k == J::Obj && !m->o.empty()) {
                auto it = m->o.begin();
                std::advance(it, static_cast<long>(g.raw(m->o.size() - 1)));
                m = &it->second;
                y = &(*y)[it->first];
            }
        }
        J w = value(g, 2, true);
        Json::Value z = build(w);
        int op = g.integer(0, 9);
        g.note(op, " ", show(w), "\n");
        switch (op) {
            case 0:
                *m = w;
                *y = z;
                break;
            case 1:
                std::swap(*m, w);
                y->swap(z);
                same("swapped", z, w, "other", true);
                break;
            case 2: {  // copies are independent
                Json::Value c(*y);
                same("copy", c, *m, "copy", true);
                c = z;
                same("copied", *y, *m, "original", true);
                same("copy", c, w, "copy", true);
                break;
            }
            case 3:
                if (m->k == J::Arr || m->k == J::Null) {
                    m->k = J::Arr;
                    m->a.push_back(w);
                    y->append(z);
                } else
                    PBT_CHECK("append", pbt::throws<std::exception>([&] { y->append(z); }), "appends to no array");
                break;
            case 4:
                if (m->k == J::Arr || m->k == J::Null) {
                    size_t k = g.raw(6);
                    bool was = m->k == J::Arr;
                    m->k = J::Arr;
                    m->a.resize(k);
                    y->resize(static_cast<Json::ArrayIndex>(k));
                    same("resized", *y, *m, "resized", true);
                    for (size_t i = 0; i < k; ++i) (*y)[static_cast<Json::ArrayIndex>(i)];  // elements come to be when they are accessed
                    if (!was) g.label("null resized");
                }
                break;
            case 5:
                if (m->k == J::Arr) {
                    size_t k = g.raw(m->a.size() + 1);
                    Json::Value out;
                    bool ok = y->removeIndex(static_cast<Json::ArrayIndex>(k), &out);
                    PBT_CHECK("remove", ok == (k < m->a.size()), "removing element ", k, " of ", m->a.size());
                    if (ok) {
                        same("removed", out, m->a[k], "removed", true);
                        m->a.erase(m->a.begin() + static_cast<long>(k));
                    }
                }
                break;
            case 6:
                if (m->k == J::Obj || m->k == J::Null) {
                    std::string key = m->o.empty() || g.coin() ? text(g, true) : m->o.begin()->first;
                    m->k = J::Obj;
                    m->o[key] = w;
                    (*y)[key] = z;
                } else if (m->k == J::Arr)
                    PBT_CHECK("member", pbt::throws<std::exception>([&] { (*y)["a"] = z; }), "an array takes a member");
                break;
            case 7:
                if (m->k == J::Obj) {
                    std::string key = m->o.empty() || g.coin() ? text(g, true) : m->o.rbegin()->first;
                    Json::Value out;
                    bool ok = y->removeMember(key, &out);
                    PBT_CHECK("remove", ok == (m->o.count(key) > 0), "removing a member");
                    if (ok) {
                        same("removed", out, m->o[key], "removed", true);
                        m->o.erase(key);
                    }
                }
                break;
            case 8: {
                std::string key = text(g, true);
                if (m->k == J::Obj) {
                    const Json::Value &cy = *y;
                    Json::Value got = cy.get(key, z);
                    same("get", got, m->o.count(key) ? m->o[key] : w, "get", true);
                    PBT_CHECK("get", cy.isMember(key) == (m->o.count(key) > 0), "isMember");
                    if (!m->o.count(key)) PBT_CHECK("get", cy[key].isNull(), "an absent member is not null");
                } else if (m->k == J::Arr) {
                    const Json::Value &cy = *y;
                    Json::ArrayIndex i = static_cast<Json::ArrayIndex>(g.raw(m->a.size() + 2));
                    same("get", cy.get(i, z), i < m->a.size() ? (m->a[i].k == J::Null ? J() : m->a[i]) : w, "get", true);
                    PBT_CHECK("get", cy.isValidIndex(i) == (i < m->a.size()), "isValidIndex");
                } else
                    PBT_CHECK("size", y->size() == 0, "a scalar has a size");
                break;
            }
            default: {
                bool eq = (*y == z), lt = (*y < z), gt = (z < *y);
                PBT_CHECK("order", (eq ? 1 : 0) + (lt ? 1 : 0) + (gt ? 1 : 0) == 1, "not exactly one of equal, less and greater");
                Json::Value c(*y);
                PBT_CHECK("order", c == *y && !(c < *y) && !(c != *y) && c.compare(*y) == 0, "a copy is not equal");
                size_t k = 0;
                for (auto it = y->begin(); it != y->end(); ++it) ++k;
                PBT_CHECK("iterate", k == (m->k == J::Arr ? m->a.size() : m->k == J::Obj ? m->o.size() : 0), k, " elements visited");
            }
        }
        same("model", x, v, "value", true);
    }
    if (ops >= 5 && weight(v) >= 4) g.nontrivial();
}

namespace {
template <typename T, typename F>
void arrays(Gen &g, const char *type, F one) {
    std::vector<T> v;
    while (g.more(v.size(), 12, 5)) v.push_back(one());
    unsigned n = static_cast<unsigned>(v.size());
    std::unique_ptr<T[]> a(new T[n + 1]), b(new T[n + 1]);
    for (unsigned i = 0; i < n; ++i) a[i] = v[i];
    a[n] = b[n] = T();
    Json::Value doc = xmm::vector2json(v), doc2 = xmm::array2json(a.get(), n);
    g.note(n, " values of type ", type, "\n");
    PBT_CHECK("written", doc.isArray() && doc.size() == n && doc2 == doc, type, ": ", doc.toStyledString(), " and ", doc2.toStyledString());
    if (g.coin()) {  // through text
        std::string t = g.coin() ? Json::FastWriter().write(doc) : doc.toStyledString();
        Json::Value back;
        PBT_CHECK("read", Json::Reader().parse(t, back), "unreadable: ", t);
        doc = back;
    }
    for (unsigned i = 0; i < n; ++i) b[i] = one();
    std::vector<T> w(b.get(), b.get() + n);
    xmm::json2vector(doc, w, n);
    PBT_CHECK("vector", w == v, type, ": the vector is not read back from ", doc.toStyledString());
    xmm::json2array(doc, b.get(), n);
    PBT_CHECK("array", std::equal(v.begin(), v.end(), b.get()) && b[n] == T(), type, ": the array is not read back from ", doc.toStyledString());
    // other lengths and other kinds of documents are refused
    Json::Value bad;
    int how = g.integer(0, 3);
    if (how == 0) {
        bad = doc;
        bad.append(doc.empty() ? Json::Value(1) : doc[0u]);
    } else if (how == 1) {
        if (n < 2) return;
        bad = Json::Value(Json::arrayValue);
        for (unsigned i = 0; i + 1 < n; ++i) bad.append(doc[i]);
    } else if (how == 2) {
        bad = Json::Value(Json::objectValue);
        for (unsigned i = 0; i < n; ++i) bad[str("m", i)] = doc[i];
    } else {
        bad = n ? doc[0u] : Json::Value("text");
    }
    if (n) PBT_CHECK("refused", pbt::throws<xmm::JsonException>([&] { xmm::json2vector(bad, w, n); }), type, ": the vector is read from ", bad.toStyledString());
    PBT_CHECK("refused", pbt::throws<xmm::JsonException>([&] { xmm::json2array(bad, b.get(), n); }), type, ": the array is read from ", bad.toStyledString());
    PBT_CHECK("refused-unchanged", std::equal(v.begin(), v.end(), w.begin()) && std::equal(v.begin(), v.end(), b.get()) && b[n] == T(), type, ": a refused document changed the values");
    if (n > 2) g.nontrivial();
}
}  // namespace
PBT_FACET(arrays, 30000, 300000, "a document refused for an array of 3 or more values") {
    switch (g.integer(0, 4)) {
        case 0: arrays<float>(g, "float", [&] { return static_cast<float>(g.oneof({g.normal(), g.logreal(1e-30, 1e30), -g.logreal(1e-30, 1e30), 0.})); }); break;
        case 1: arrays<double>(g, "double", [&] { return g.oneof({g.normal(), g.logreal(1e-300, 1e300), -g.logreal(1e-300, 1e300), 0.}); }); break;
        case 2: arrays<int>(g, "int", [&] { return g.oneof({g.integer(-5, 5), std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), g.integer(-1000000, 1000000)}); }); break;
        case 3: arrays<bool>(g, "bool", [&] { return g.coin(); }); break;
        default: arrays<std::string>(g, "string", [&] { std::string t; while (g.more(t.size(), 8, 3)) t += static_cast<char>(g.integer(32, 126)); return t; });
    }
}
