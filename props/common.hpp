// Shared generators and reference models.
#pragma once
#include "pbt.hpp"
#include "xmm.h"
#include "xmmKMeans.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>

typedef pbt::Gen Gen;
using pbt::str;

// a number in lo..hi, now and then much more
inline int upto(Gen &g, int lo, int hi, int more, unsigned rarely = 20) { return g.chance(1, rarely) ? g.integer(lo, std::max(lo, more)) : g.integer(lo, hi); }

// Deterministic data value for (stream, row, column): exactly representable, no repetition pattern shared
// between rows or columns.
inline float dval(unsigned s, unsigned i, unsigned d) {
    unsigned h = s * 2654435761u ^ (i + 1) * 40503u ^ (d + 1) * 9176u;
    h ^= h >> 13;
    h *= 2246822519u;
    h ^= h >> 15;
    return static_cast<float>(static_cast<int>(h % 16001u) - 8000) / 64.f;
}
inline std::vector<float> drow(unsigned s, unsigned i, unsigned D) {
    std::vector<float> r(D);
    for (unsigned d = 0; d < D; ++d) r[d] = dval(s, i, d);
    return r;
}
inline std::string vstr(const std::vector<float> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) o += (i ? " " : "") + str(v[i]);
    return o + "]";
}
inline std::string vstr(const std::vector<double> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) o += (i ? " " : "") + str(v[i]);
    return o + "]";
}
inline std::string genLabel(Gen &g) {
    static const std::vector<std::string> L = {"a", "b", "c", "", "label with spaces", "\xc3\xa9t\xc3\xa9", "a\"quote\\", "0", "line\nbreak"};
    return L[g.raw(2) == 2 ? g.raw(L.size() - 1) : g.raw(2)];
}

// --- reference model of a phrase -----------------------------------------------------------------------
struct PhraseModel {
    bool own = true, bimodal = false;
    unsigned D = 1, DI = 0;
    std::string label;
    std::vector<std::vector<float>> in, out;  // unimodal: `in` holds whole frames
    std::vector<std::string> cols;

    unsigned inDim() const { return bimodal ? DI : D; }
    unsigned outDim() const { return bimodal ? D - DI : 0; }
    unsigned size() const { return static_cast<unsigned>(bimodal ? std::min(in.size(), out.size()) : in.size()); }
    void wipe() {
        in.clear();
        out.clear();
    }
    float at(unsigned t, unsigned d) const {
        if (!bimodal) return in[t][d];
        return d < DI ? in[t][d] : out[t][d - DI];
    }
};

inline void checkPhrase(const xmm::Phrase &p, const PhraseModel &m, bool full, const char *when) {
    PBT_CHECK("phrase-kind", p.ownMemory() == m.own && p.bimodal() == m.bimodal, when);
    PBT_CHECK("phrase-dimension", p.dimension.get() == m.D, when, " dimension ", p.dimension.get(), " expected ", m.D);
    if (m.bimodal)
        PBT_CHECK("phrase-dimension-input", p.dimension_input.get() == m.DI, when, " dimension_input ",
                  p.dimension_input.get(), " expected ", m.DI);
    PBT_CHECK("phrase-label", p.label.get() == m.label, when, " label '", p.label.get(), "' expected '", m.label, "'");
    PBT_CHECK("phrase-size", p.size() == m.size(), when, " size ", p.size(), " expected ", m.size());
    PBT_CHECK("phrase-input-size", p.inputSize() == m.in.size(), when, " inputSize ", p.inputSize(), " expected ", m.in.size());
    if (m.bimodal)
        PBT_CHECK("phrase-output-size", p.outputSize() == m.out.size(), when, " outputSize ", p.outputSize(), " expected ",
                  m.out.size());
    bool anyData = !m.in.empty() || !m.out.empty(), bothOrNone = !m.bimodal || m.in.empty() == m.out.empty();
    if (bothOrNone) PBT_CHECK("phrase-empty", p.empty() == !anyData, when, " empty() = ", p.empty(), " with ", m.in.size(), "/", m.out.size(), " frames");
    auto checkRow = [&](unsigned t) {
        for (unsigned d = 0; d < m.D; ++d) {
            bool have = m.bimodal ? (d < m.DI ? t < m.in.size() : t < m.out.size()) : t < m.in.size();
            if (have) {
                float v = p.getValue(t, d);
                PBT_CHECK("phrase-value", v == m.at(t, d), when, " frame ", t, " dim ", d, ": ", v, " expected ", m.at(t, d));
            } else
                PBT_CHECK("phrase-out-of-range", pbt::throws<std::out_of_range>([&] { p.getValue(t, d); }), when, " frame ", t, " dim ", d);
        }
        if (t < m.size()) {
            if (m.bimodal) {
                float *a = p.getPointer_input(t), *b = p.getPointer_output(t);
                for (unsigned d = 0; d < m.D; ++d)
                    PBT_CHECK("phrase-pointer", (d < m.DI ? a[d] : b[d - m.DI]) == m.at(t, d), when, " frame ", t, " dim ", d);
            } else {
                float *a = p.getPointer(t);
                for (unsigned d = 0; d < m.D; ++d) PBT_CHECK("phrase-pointer", a[d] == m.at(t, d), when, " frame ", t, " dim ", d);
            }
        } else {
            PBT_CHECK("phrase-out-of-range", pbt::throws<std::out_of_range>([&] {
                          if (m.bimodal) p.getPointer_input(t);
                          else p.getPointer(t);
                      }), when, " pointer to frame ", t);
            if (m.bimodal)
                PBT_CHECK("phrase-out-of-range", pbt::throws<std::out_of_range>([&] { p.getPointer_output(t); }), when, " output pointer to frame ", t);
        }
    };
    unsigned n = static_cast<unsigned>(std::max(m.in.size(), m.out.size()));
    if (full)
        for (unsigned t = 0; t <= n; ++t) checkRow(t);
    else {
        checkRow(0);
        if (n) {
            checkRow(n - 1);
            checkRow(n / 2);
        }
        if (n > 256) {
            checkRow(255);
            checkRow(256);
        }
        checkRow(n);
    }
    PBT_CHECK("phrase-out-of-range", pbt::throws<std::out_of_range>([&] { p.getValue(0, m.D); }), when, " dim out of range");
}
