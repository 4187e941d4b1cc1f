// C29: what is written to a file is read back from it, and a file that cannot be read or written is reported.
// The file interface of the Python bindings is header-only code of every writable class.
#define SWIGPYTHON
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include "objects.hpp"

namespace {
struct Scratch {
    std::string dir;
    Scratch() {
        char t[] = "/tmp/xmm_c29_XXXXXX";
        if (!mkdtemp(t)) throw pbt::Discard{"no scratch directory"};
        dir = t;
    }
    ~Scratch() {
        unlink((dir + "/f.json").c_str());
        unlink((dir + "/g.json").c_str());
        rmdir(dir.c_str());
    }
};
std::string slurp(const std::string &p) {
    std::ifstream i(p, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
void spew(const std::string &p, const std::string &t) {
    std::ofstream o(p, std::ios::binary | std::ios::trunc);
    o << t;
}
void write(xmm::Writable &w, const std::string &p) { w.writeFile(const_cast<char *>(p.c_str())); }
void read(xmm::Writable &w, const std::string &p) { w.readFile(const_cast<char *>(p.c_str())); }
// equal as JSON documents: a number is a number, however it is held (-0 is written as an integer)
// columns without names are written as empty names or not at all
J named(const J &v) {
    J r = v;
    if (r.isObject() && r.isMember("column_names") && r["column_names"].isArray()) {
        bool any = false;
        for (auto &n : r["column_names"]) any = any || !n.isString() || !n.asString().empty();
        if (!any) r.removeMember("column_names");
    }
    return r;
}
bool same(const J &a0, const J &b0, std::string &where) {
    const J a = named(a0), b = named(b0);
    if (a.isNumeric() && b.isNumeric() && !a.isBool() && !b.isBool()) {
        double x = a.asDouble(), y = b.asDouble();
        if (x == y) return true;
    } else if (a.isObject() && b.isObject()) {
        if (a.getMemberNames() == b.getMemberNames()) {
            for (auto &k : a.getMemberNames())
                if (!same(a[k], b[k], where)) {
                    where = "/" + k + where;
                    return false;
                }
            return true;
        }
    } else if (a.isArray() && b.isArray()) {
        if (a.size() == b.size()) {
            for (Json::ArrayIndex i = 0; i < a.size(); ++i)
                if (!same(a[i], b[i], where)) {
                    where = "/" + str(i) + where;
                    return false;
                }
            return true;
        }
    } else if (a == b)
        return true;
    where += " (" + jsonText(a).substr(0, 80) + " / " + jsonText(b).substr(0, 80) + ")";
    return false;
}
void relabel(Gen &g, int kind, Target &t) {
    // labels and names are any bytes without NUL
    static const std::vector<std::string> odd = {"\xff", "caf\xc3\xa9 \"x\"\\", "a\nb\tc", "\xe6\x89\x8b", "/*x*/ // {[", "y\xff\xfe", "\x01\x1f\x7f", ""};
    if (kind == 0) {
        auto &p = static_cast<xmm::Phrase &>(t.face());
        p.label.set(g.pick(odd));
        p.column_names[0] = g.pick(odd);
    } else if (kind == 1) {
        auto &s = static_cast<xmm::TrainingSet &>(t.face());
        for (auto &p : s)
            if (g.coin()) p.second->label.set(g.pick(odd));
        auto n = s.column_names.get();
        n[0] = g.pick(odd);
        s.column_names.set(n);
    }
}
std::string what(Target &t) {
    std::string s = t.answers();
    return s + jsonText(t.json());
}
}  // namespace

PBT_FACET(round_trip, 9000, 120000, "the file is read into an object that holds other data") {
    Scratch tmp;
    int kind = g.oneof({0, 1, 2, 3, 4, 6, 7, 9, 10, 11, 12, 13});
    auto src = make(g, kind), dst = make(g, kind);
    if (kind >= 12 && g.chance(2, 3)) dst.reset(src->copy());  // a class is read into a model of the same dimensions
    std::unique_ptr<Target> twin(dst->copy());
    if (g.coin()) relabel(g, kind, *src);
    std::string path = tmp.dir + "/f.json";
    g.note(kindNames[kind], "\n", jsonText(src->json()));
    if (g.coin()) {
        g.note("over an existing file\n");
        spew(path, std::string(static_cast<size_t>(g.integer(1, 60000)), '}'));
    }
    const std::string before = what(*src), dstBefore = what(*dst);
    write(src->face(), path);
    PBT_CHECK("source-changed", what(*src) == before, "writing the file changed the object");
    const std::string text = slurp(path);
    J doc;
    Json::Reader r;
    PBT_CHECK("parses", r.parse(text, doc), "the file is not a document: ", r.getFormattedErrorMessages(), "\n", text.substr(0, 600));
    std::string where;
    PBT_CHECK("document", same(src->json(), doc, where), "the file holds another document: ", where);
    J printed;
    PBT_CHECK("printed", r.parse(src->face().__str__(), printed), "the printed form is not a document: ", r.getFormattedErrorMessages());
    where.clear();
    PBT_CHECK("printed", same(src->json(), printed, where), "the printed form is another document: ", where);
    // reading the file is loading the document
    bool ok = true, okT = true;
    std::string err;
    try {
        twin->load(doc);
    } catch (const std::exception &) {
        okT = false;
    }
    try {
        read(dst->face(), path);
    } catch (const std::exception &e) {
        ok = false;
        err = e.what();
    }
    if (kind >= 12 && !okT) {
        PBT_CHECK("other-dimensions", !ok && what(*dst) == dstBefore, "a class is read from a file it cannot be loaded from");
        g.label("class of other dimensions");
        return;
    }
    PBT_CHECK("read", ok && okT, "the file is refused: ", err);
    where.clear();
    PBT_CHECK("content", same(dst->json(), src->json(), where), "the object read differs: ", where);
    PBT_CHECK("as-loaded", what(*dst) == what(*twin), "the object read from the file answers otherwise than the one loaded from the document");
    PBT_CHECK("file-kept", slurp(path) == text, "reading changed the file");
    write(dst->face(), tmp.dir + "/g.json");
    J again;
    where.clear();
    PBT_CHECK("again", r.parse(slurp(tmp.dir + "/g.json"), again) && same(again, doc, where), "written again, the object read gives another document ", where);
    // reading what it holds already changes nothing
    const std::string held = what(*dst);
    read(dst->face(), tmp.dir + "/g.json");
    PBT_CHECK("own-file", what(*dst) == held, "reading its own file changed the object");
    // the object read is a full one
    dst->use(g);
    if (dstBefore != before) g.nontrivial();
}

PBT_FACET(unreadable, 9000, 120000, "the object holds data and the file is cut or damaged") {
    Scratch tmp;
    int kind = g.oneof({0, 1, 2, 3, 4, 6, 7, 9, 10, 11, 12, 13});
    auto src = make(g, kind), dst = make(g, kind);
    std::string path = tmp.dir + "/f.json";
    write(src->face(), path);
    std::string text = slurp(path);
    const std::string before = what(*dst);
    int how = g.integer(0, 5);
    bool damaged = true;
    if (how <= 2) {  // the writer was interrupted
        size_t last = text.find_last_not_of(" \n\t\r");
        size_t cut = g.chance(1, 3) ? last : g.raw(last);
        g.note(kindNames[kind], " cut after ", cut, " of ", text.size(), " bytes\n");
        spew(path, text.substr(0, cut));
    } else if (how == 3) {
        g.note("no such file\n");
        path = tmp.dir + "/absent.json";
        damaged = false;
    } else if (how == 4) {
        g.note("a directory\n");
        path = tmp.dir;
        damaged = false;
    } else {  // a structural character is lost
        std::vector<size_t> at;
        bool quoted = false;
        for (size_t i = 0; i < text.size(); ++i) {
            if (text[i] == '\\' && quoted) {
                ++i;
                continue;
            }
            if (text[i] == '"') quoted = !quoted;
            else if (!quoted && strchr("{}[],:", text[i])) at.push_back(i);
        }
        size_t k = g.pick(at);
        g.note(kindNames[kind], " without the '", text[k], "' at byte ", k, "\n");
        // a lost opening or closing bracket, colon or comma leaves no document, except a comma between numbers
        text[k] = '\x01';
        spew(path, text);
    }
    bool threw = false;
    try {
        read(dst->face(), path);
    } catch (const std::exception &) {
        threw = true;
    }
    PBT_CHECK("refused", threw, "a file that is no document is read without complaint");
    PBT_CHECK("unchanged", what(*dst) == before, "a refused file changed the object");
    std::unique_ptr<Target> c(dst->copy());
    c->use(g);
    if (damaged) g.nontrivial();
}

// what could not be stored is not reported as stored
PBT_FACET(unwritable, 1500, 15000, "always") {
    Scratch tmp;
    int kind = g.oneof({0, 1, 2, 3, 4, 6, 7, 9, 10, 11, 12, 13});
    auto src = make(g, kind);
    const std::string before = what(*src);
    int how = g.integer(0, 2);
    std::string path = how == 0 ? tmp.dir + "/absent/f.json" : how == 1 ? tmp.dir : "/dev/full";
    g.note(kindNames[kind], " to ", path, "\n");
    bool threw = false;
    try {
        write(src->face(), path);
    } catch (const std::exception &) {
        threw = true;
    }
    PBT_CHECK("reported", threw, "writing to ", path, " is not possible and nobody is told");
    PBT_CHECK("unchanged", what(*src) == before, "the object changed");
    g.nontrivial();
}
