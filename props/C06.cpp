// C06: phrases and training sets survive a round trip through JSON values and JSON text.
#include "common.hpp"

namespace {
Json::Value viaText(const Json::Value &v, int how) {
    std::string s;
    if (how == 0) return v;
    if (how == 1) s = Json::FastWriter().write(v);
    else if (how == 2) s = v.toStyledString();
    else {
        std::ostringstream o;
        o << v;
        s = o.str();
    }
    Json::Value r;
    Json::Reader rd;
    PBT_CHECK("text-parses", rd.parse(s, r), rd.getFormattedErrorMessages());
    return r;
}
float value(Gen &g) {
    switch (g.integer(0, 5)) {
        case 0: return static_cast<float>(g.integer(-5, 5));
        case 1: return static_cast<float>(g.smooth(-1, 1));
        case 2: return static_cast<float>(g.logreal(1e-37, 1e38));
        case 3: return -static_cast<float>(g.logreal(1e-37, 1e38));
        case 4: return g.oneof({0.f, 1e-45f, 3.4028235e38f, -3.4028235e38f, 1.17549435e-38f, 16777217.f, 0.1f});
        default: return static_cast<float>(g.smooth(-1000, 1000));
    }
}
// fill an own-memory phrase; bimodal phrases may be unsynchronised
void fill(Gen &g, xmm::Phrase &p, PhraseModel &m, bool mayDiffer) {
    unsigned n = static_cast<unsigned>(g.chance(1, 25) ? upto(g, 255, 260, 700) : g.size(0, 12));
    unsigned n2 = m.bimodal && mayDiffer && g.chance(1, 3) ? static_cast<unsigned>(g.integer(0, 12)) : n;
    auto val = [&](unsigned i, unsigned d) { return i < 8 ? value(g) : dval(3, i, d); };
    for (unsigned t = 0; t < n; ++t) {
        std::vector<float> r(m.inDim());
        for (unsigned d = 0; d < r.size(); ++d) r[d] = val(t, d);
        m.in.push_back(r);
        if (m.bimodal) p.record_input(r);
        else p.record(r);
    }
    for (unsigned t = 0; m.bimodal && t < n2; ++t) {
        std::vector<float> r(m.outDim());
        for (unsigned d = 0; d < r.size(); ++d) r[d] = val(t, d + 7);
        m.out.push_back(r);
        p.record_output(r);
    }
}
std::shared_ptr<xmm::Phrase> mkPhrase(Gen &g, PhraseModel &m) {
    m.bimodal = g.coin();
    m.D = static_cast<unsigned>(upto(g, m.bimodal ? 2 : 1, 5, 24));
    m.DI = m.bimodal ? static_cast<unsigned>(g.integer(1, static_cast<int>(m.D) - 1)) : 0;
    auto p = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory, m.bimodal ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    p->dimension.set(m.D);
    if (m.bimodal) p->dimension_input.set(m.DI);
    m.label = genLabel(g);
    p->label.set(m.label);
    m.cols.resize(m.D);
    for (auto &c : m.cols) c = g.coin() ? genLabel(g) : "";
    p->column_names = m.cols;
    return p;
}
void sync(PhraseModel &m) {  // the frames beyond the common length are not part of the written phrase
    if (!m.bimodal) return;
    size_t n = m.size();
    m.in.resize(n);
    m.out.resize(n);
}
}  // namespace

PBT_FACET(phrase, 60000, 600000, "the phrase has at least 2 frames") {
    PhraseModel m;
    auto p = mkPhrase(g, m);
    fill(g, *p, m, true);
    if (m.in.size() != m.out.size() && m.bimodal) g.label("modalities of different length");
    Json::Value v = p->toJson();
    int how = g.integer(0, 3);
    Json::Value w = viaText(v, how);
    g.note("text form ", how, ": ", m.size() < 4 ? Json::FastWriter().write(v) : "(long)", "\n");
    PhraseModel e = m;
    sync(e);
    xmm::Phrase fresh(w);
    checkPhrase(fresh, e, true, "constructed from JSON");
    PBT_CHECK("columns", fresh.column_names == m.cols, "constructed from JSON");
    PBT_CHECK("json-fixpoint", fresh.toJson() == v, "writing the loaded phrase gives a different document");
    // into an existing phrase of any shape
    PhraseModel other;
    auto q = mkPhrase(g, other);
    fill(g, *q, other, true);
    q->fromJson(w);
    checkPhrase(*q, e, true, "loaded over another phrase");
    PBT_CHECK("columns", q->column_names == m.cols, "loaded over another phrase");
    PBT_CHECK("json-fixpoint", q->toJson() == v, "loaded over another phrase");
    // the loaded phrase is a working phrase
    auto r = drow(1, 1, m.D);
    q->record(r);
    if (e.bimodal) {
        e.in.emplace_back(r.begin(), r.begin() + e.DI);
        e.out.emplace_back(r.begin() + e.DI, r.end());
    } else
        e.in.push_back(r);
    checkPhrase(*q, e, true, "recording after a load");
    if (m.size() >= 2) g.nontrivial();
    if (m.size() == 0) g.label("empty phrase");
    g.label(m.bimodal ? "bimodal" : "unimodal");
}

PBT_FACET(set, 30000, 300000, "2 or more phrases with data and 2 or more classes") {
    bool bi = g.coin();
    PhraseModel proto;
    proto.bimodal = bi;
    proto.D = static_cast<unsigned>(upto(g, bi ? 2 : 1, 5, 24));
    proto.DI = bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(proto.D) - 1)) : 0;
    xmm::TrainingSet ts(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    ts.dimension.set(proto.D);
    if (bi) ts.dimension_input.set(proto.DI);
    std::vector<std::string> cols(proto.D);
    for (auto &c : cols) c = g.coin() ? genLabel(g) : "";
    std::map<int, PhraseModel> M;
    bool colsFirst = g.coin();
    if (colsFirst) ts.column_names.set(cols);
    int n = upto(g, 0, 5, 30);
    std::set<std::string> labels;
    int withData = 0;
    for (int k = 0; k < n; ++k) {
        int idx = upto(g, -3, 12, 2147483647);
        PhraseModel m = proto;
        m.label = genLabel(g);
        ts.addPhrase(idx, m.label);
        fill(g, *ts.getPhrase(idx), m, true);
        M[idx] = m;
    }
    if (!colsFirst) ts.column_names.set(cols);
    for (auto &m : M) {
        labels.insert(m.second.label);
        withData += m.second.size() > 0;
    }
    Json::Value v = ts.toJson();
    int how = g.integer(0, 3);
    Json::Value w = viaText(v, how);
    g.note(n, " phrases, text form ", how, "\n");
    auto check = [&](xmm::TrainingSet &t, const char *when) {
        PBT_CHECK("set-shape", t.bimodal() == bi && t.dimension.get() == proto.D && (!bi || t.dimension_input.get() == proto.DI), when);
        PBT_CHECK("set-columns", t.column_names.get() == cols, when);
        PBT_CHECK("set-size", t.size() == M.size(), when, " ", t.size(), " phrases, expected ", M.size());
        PBT_CHECK("set-labels", t.labels() == labels, when);
        for (auto &m : M) {
            auto ph = t.getPhrase(m.first);
            PBT_CHECK("set-phrase", ph != nullptr, when, " phrase ", m.first, " missing");
            PhraseModel e = m.second;
            sync(e);
            checkPhrase(*ph, e, true, when);
            PBT_CHECK("set-phrase-columns", ph->column_names == cols, when, " phrase ", m.first);
            auto sub = t.getPhrasesOfClass(e.label);
            PBT_CHECK("set-class", sub && sub->getPhrase(m.first) == ph, when, " class '", e.label, "'");
        }
        PBT_CHECK("json-fixpoint", t.toJson() == v, when);
    };
    xmm::TrainingSet fresh(w);
    check(fresh, "constructed from JSON");
    xmm::TrainingSet old(xmm::MemoryMode::OwnMemory, g.coin() ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    if (g.coin()) old.addPhrase(7, "old");
    old.fromJson(w);
    check(old, "loaded over another set");
    // the loaded set keeps listening to its phrases
    if (!M.empty()) {
        old.getPhrase(M.begin()->first)->label.set("relabelled");
        PBT_CHECK("loaded-set-live", old.labels().count("relabelled") == 1, "relabelling a loaded phrase is not seen");
    }
    if (withData >= 2 && labels.size() >= 2) g.nontrivial();
}
