// C23: any JSON document is either refused, leaving the object as it was, or gives an object that works.
#include "objects.hpp"

namespace {
// --- structural mutation of a document --------------------------------------------------------------------
void nodes(J &v, std::vector<J *> &out, std::vector<std::string> &path, const std::string &p, int depth = 0) {
    out.push_back(&v);
    path.push_back(p);
    if (depth > 12) return;
    if (v.isObject())
        for (auto &k : v.getMemberNames()) nodes(v[k], out, path, p + "/" + k, depth + 1);
    else if (v.isArray())
        for (Json::ArrayIndex i = 0; i < v.size() && i < 40; ++i) nodes(v[i], out, path, p + "/" + str(i), depth + 1);
}
J leaf(Gen &g) {
    switch (g.integer(0, 9)) {
        case 0: return J(g.integer(0, 4));
        case 1: return J();
        case 2: return J(g.oneof({0, 1, 2, 3, 5, 8, 40, 300}));
        case 3: return J(g.oneof({-1, -2, -300, -2147483647 - 1}));
        case 4: return J(g.oneof({0.5, 1.5, -0.25, 1e-300, 1e300, -1e300, 4294967297., 1e19, 0.}));
        case 5: return J(g.coin());
        case 6: return J(g.oneof({"", "a", "b", "12", "\xc3\xa9", "long label with spaces"}));
        case 7: return J(Json::arrayValue);
        case 8: return J(Json::objectValue);
        default: {
            J a(Json::arrayValue);
            for (size_t n = 0; g.more(n, 6, 3); ++n) a.append(g.integer(0, 3));
            return a;
        }
    }
}
std::string mutate(Gen &g, J &root) {
    std::vector<J *> n;
    std::vector<std::string> p;
    nodes(root, n, p, "");
    size_t k = 0;
    // prefer shallow nodes: the members that shape the object
    if (g.coin()) {
        std::vector<size_t> sh;
        for (size_t i = 0; i < n.size(); ++i)
            if (!n[i]->isArray() || n[i]->size() < 5)
                if (std::count(p[i].begin(), p[i].end(), '/') <= 3) sh.push_back(i);
        k = g.pick(sh);
    } else
        k = g.raw(n.size() - 1);
    J &v = *n[k];
    switch (g.integer(0, 8)) {
        case 0: {
            J l = leaf(g);
            v = l;
            return str("set ", p[k], " = ", Json::FastWriter().write(l));
        }
        case 1:  // remove a member or an element
            if (v.isObject() && v.size()) {
                auto m = v.getMemberNames();
                std::string key = g.pick(m);
                v.removeMember(key);
                return str("remove ", p[k], "/", key, "\n");
            }
            if (v.isArray() && v.size()) {
                J a(Json::arrayValue);
                Json::ArrayIndex d = static_cast<Json::ArrayIndex>(g.raw(v.size() - 1));
                for (Json::ArrayIndex i = 0; i < v.size(); ++i)
                    if (i != d) a.append(v[i]);
                v = a;
                return str("remove ", p[k], "/", d, "\n");
            }
            v = J();
            return str("set ", p[k], " = null\n");
        case 2:  // grow an array or add a member
            if (v.isArray()) {
                J e = v.size() && g.coin() ? J(v[v.size() - 1]) : leaf(g);
                v.append(e);
                return str("append to ", p[k], "\n");
            }
            if (v.isObject()) {
                v["unknown"] = leaf(g);
                return str("add ", p[k], "/unknown\n");
            }
            v = J(v.isNumeric() ? v.asDouble() + 1 : 1.);
            return str("increment ", p[k], "\n");
        case 3: {  // copy another part of the document here
            size_t o = g.raw(n.size() - 1);
            J c = *n[o];
            v = c;
            return str("copy ", p[o], " to ", p[k], "\n");
        }
        case 4:  // nudge a number
            if (v.isInt()) v = J(static_cast<int>(static_cast<unsigned>(v.asInt()) + static_cast<unsigned>(g.oneof({1, -1, 2, -2}))));
            else if (v.isNumeric()) v = J(v.asDouble() * g.oneof({-1., 0., 2., 1e6}));
            else if (v.isString()) v = J(v.asString() + "x");
            else if (v.isBool()) v = J(!v.asBool());
            return str("nudge ", p[k], " to ", Json::FastWriter().write(v));
        case 5: {  // swap with another part
            size_t o = g.raw(n.size() - 1);
            if (p[o].compare(0, p[k].size(), p[k]) != 0 && p[k].compare(0, p[o].size(), p[o]) != 0) {
                v.swap(*n[o]);
                return str("swap ", p[k], " and ", p[o], "\n");
            }
            return "";
        }
        case 6: {  // nudge one of the members that shape the object
            std::vector<size_t> sh;
            for (size_t i = 0; i < n.size(); ++i)
                if (n[i]->isInt() && (p[i].find("dimension") != std::string::npos || p[i].find("mode") != std::string::npos || p[i].find("states") != std::string::npos ||
                                      p[i].find("gaussians") != std::string::npos || p[i].find("clusters") != std::string::npos || p[i].find("length") != std::string::npos))
                    if (p[i].find("/mean") == std::string::npos) sh.push_back(i);
            if (sh.empty()) return "";
            size_t o = g.pick(sh);
            *n[o] = J(static_cast<int>(static_cast<unsigned>(n[o]->asInt()) + static_cast<unsigned>(g.oneof({1, -1, 2, -2}))));
            return str("nudge ", p[o], " to ", n[o]->asInt(), "\n");
        }
        case 7: {
            std::vector<size_t> sh;
            for (size_t i = 0; i < n.size(); ++i)
                if (n[i]->isBool()) sh.push_back(i);
            if (sh.empty()) return "";
            size_t o = g.pick(sh);
            *n[o] = J(!n[o]->asBool());
            return str("flip ", p[o], "\n");
        }
        default: {
            std::vector<size_t> sh;
            for (size_t i = 0; i < n.size(); ++i)
                if (n[i]->isArray() && n[i]->size()) sh.push_back(i);
            if (sh.empty()) return "";
            size_t o = g.pick(sh);
            Json::ArrayIndex s = n[o]->size();
            n[o]->resize(static_cast<Json::ArrayIndex>(g.integer(0, static_cast<int>(s) + 2)));
            return str("resize ", p[o], " from ", s, " to ", n[o]->size(), "\n");
        }
    }
}
std::string mutateText(Gen &g, std::string s) {
    for (size_t n = 0; n == 0 || g.more(n, 4, 2); ++n) {
        size_t at = g.raw(s.size());
        static const std::vector<std::string> tok = {"{", "}", "[", "]", ",", ":", "\"", "null", "1e999", "-1", "\\u00e9", "\\ud800", "//", "/*", "\\", "0x1", "1.5", "true", std::string(1, '\0'), "\xff"};
        switch (g.integer(0, 5)) {
            case 0: s.insert(at, g.pick(tok)); break;
            case 1: s = s.substr(0, at); break;
            case 2: s.erase(at, g.raw(20)); break;
            case 3:
                if (at < s.size()) s[at] = static_cast<char>(g.raw(255));
                break;
            case 4: {
                size_t f = g.raw(s.size()), l = g.raw(60);
                s.insert(at, s.substr(std::min(f, s.size()), l));
                break;
            }
            default: s.insert(at, std::string(static_cast<size_t>(g.integer(1, 1200)), g.oneof({'[', '{', '-', ' '}))); break;
        }
    }
    return s;
}

// Numbers that would size an object beyond what a machine holds are outside the domain.
bool modest(const J &v, const std::string &key = "") {
    if (v.isObject()) {
        for (auto &k : v.getMemberNames())
            if (!modest(v[k], k)) return false;
    } else if (v.isArray()) {
        for (Json::ArrayIndex i = 0; i < v.size(); ++i)
            if (!modest(v[i], key)) return false;
    } else if (v.isNumeric()) {
        static const std::vector<std::string> sizes = {"dimension", "dimension_input", "states", "gaussians", "clusters", "length", "likelihood_window", "em_algorithm_min_iterations", "em_algorithm_max_iterations", "max_iterations"};
        if (std::find(sizes.begin(), sizes.end(), key) != sizes.end() && v.asDouble() > 300) return false;
    }
    return true;
}

bool hasNull(const J &v) {
    if (v.isNull()) return true;
    if (v.isObject() || v.isArray())
        for (auto &x : v)
            if (hasNull(x)) return true;
    return false;
}
// the document meets the target
void meet(Gen &g, Target &t, const J &doc, int kind) {
    if (!modest(doc)) throw pbt::Discard{"sizes beyond the domain"};
    std::string before = t.answers();
    if (before.empty()) before = jsonText(t.json());
    bool refused = false;
    std::string why;
    try {
        t.load(doc);
    } catch (const std::exception &e) {
        refused = true;
        why = e.what();
    }
    if (refused) {
        std::string after = t.answers();
        if (after.empty()) after = jsonText(t.json());
        PBT_CHECK("refusal-changes", before == after, "refused (", why, ") but the object changed\nbefore ", before, "\nafter  ", after);
        g.label("refused");
        std::unique_ptr<Target> c(t.copy());
        c->use(g);
        return;
    }
    g.label(str("accepted ", kindNames[kind]));
    J again = t.json();
    std::unique_ptr<Target> c(t.copy());
    PBT_CHECK("copy", jsonText(c->json()) == jsonText(again), "a copy of the loaded object is written differently");
    // its own document can be loaded again
    std::string text = Json::FastWriter().write(again);
    J back;
    Json::Reader r;
    if (text.find("e+9999") == std::string::npos && text.find("inf") == std::string::npos && text.find("nan") == std::string::npos) {
        PBT_CHECK("own-text", r.parse(text, back), "does not parse: ", r.getFormattedErrorMessages());
        try {
            c->load(back);
        } catch (const std::exception &e) {
            throw pbt::Fail{"own-document", std::string("the loaded object cannot be loaded from its own document: ") + e.what() + "\n" + text};
        }
    }
    t.use(g);
    c->use(g);
}
}  // namespace

PBT_FACET(documents, 30000, 400000, "the document was mutated below its top level and accepted, or refused by a trained object") {
    int kind = g.integer(0, 13);
    auto src = make(g, kind), dst = make(g, kind);
    J doc = src->json();
    g.note(kindNames[kind], "\n", jsonText(doc));
    for (size_t n = 0; n == 0 || g.more(n, 3, 1); ++n) g.note(mutate(g, doc));
    if (g.chance(1, 40)) {  // the document of another object altogether
        int other = g.integer(0, 13);
        doc = make(g, other)->json();
        g.note("document of a ", kindNames[other], "\n");
    }
    meet(g, *dst, doc, kind);
    g.nontrivial();
}

PBT_FACET(texts, 12000, 150000, "the mutated text is still a document") {
    int kind = g.integer(0, 13);
    auto src = make(g, kind), dst = make(g, kind);
    std::string text = mutateText(g, g.coin() ? Json::FastWriter().write(src->json()) : src->json().toStyledString());
    g.note(kindNames[kind], " text of ", text.size(), " bytes: ", text.substr(0, 1500), "\n");
    J doc;
    Json::Reader r;
    bool ok = false;
    try {
        ok = r.parse(text, doc);
    } catch (const std::exception &e) {
        g.note("parse: ", e.what(), "\n");
    }
    if (!ok) {
        g.label("not a document");
        return;
    }
    meet(g, *dst, doc, kind);
    g.nontrivial();
}
