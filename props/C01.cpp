// C01: a recorded phrase always holds exactly the frames recorded into it.
#include "common.hpp"

// one random operation on an own-memory phrase and on its model
static void stepPhrase(Gen &g, xmm::Phrase &p, PhraseModel &m, int &writes, bool &crossed) {
    switch (g.integer(0, 12)) {
        case 0:
        case 1: {  // record n whole frames
            unsigned n = g.chance(1, 12) ? static_cast<unsigned>(upto(g, 200, 300, 900)) : static_cast<unsigned>(g.integer(1, 6));
            unsigned s = static_cast<unsigned>(g.raw(1000));
            g.note("record ", n, " frames\n");
            if (m.bimodal && m.in.size() != m.out.size()) {
                PBT_CHECK("record-async-refused", pbt::throws<std::runtime_error>([&] { p.record(drow(s, 0, m.D)); }));
                break;
            }
            for (unsigned i = 0; i < n; ++i) {
                auto r = drow(s, i, m.D);
                p.record(r);
                if (m.bimodal) {
                    m.in.emplace_back(r.begin(), r.begin() + m.DI);
                    m.out.emplace_back(r.begin() + m.DI, r.end());
                } else
                    m.in.push_back(r);
            }
            ++writes;
            break;
        }
        case 2:
        case 3: {  // input only
            unsigned n = g.chance(1, 12) ? static_cast<unsigned>(upto(g, 200, 300, 900)) : static_cast<unsigned>(g.integer(1, 6));
            unsigned s = static_cast<unsigned>(g.raw(1000));
            g.note("record_input ", n, "\n");
            if (!m.bimodal) {
                PBT_CHECK("record-input-unimodal", pbt::throws<std::runtime_error>([&] { p.record_input(drow(s, 0, m.D)); }));
                break;
            }
            for (unsigned i = 0; i < n; ++i) {
                auto r = drow(s, i, m.DI);
                p.record_input(r);
                m.in.push_back(r);
            }
            ++writes;
            break;
        }
        case 4:
        case 5: {  // output only
            unsigned n = g.chance(1, 12) ? static_cast<unsigned>(upto(g, 200, 300, 900)) : static_cast<unsigned>(g.integer(1, 6));
            unsigned s = static_cast<unsigned>(g.raw(1000));
            g.note("record_output ", n, "\n");
            if (!m.bimodal) {
                PBT_CHECK("record-output-unimodal", pbt::throws<std::runtime_error>([&] { p.record_output(drow(s, 0, m.D)); }));
                break;
            }
            for (unsigned i = 0; i < n; ++i) {
                auto r = drow(s, i, m.D - m.DI);
                p.record_output(r);
                m.out.push_back(r);
            }
            ++writes;
            break;
        }
        case 6:
            g.note("clear\n");
            p.clear();
            m.wipe();
            break;
        case 7:
            g.note("clearInput\n");
            p.clearInput();
            m.in.clear();
            break;
        case 8:
            if (!m.bimodal) break;
            g.note("clearOutput\n");
            p.clearOutput();
            m.out.clear();
            break;
        case 9: {  // dimension change: empties
            unsigned D = static_cast<unsigned>(upto(g, m.bimodal ? 2 : 1, 6, 40));
            if (D == m.D) break;
            g.note("dimension = ", D, "\n");
            auto cols = m.cols;
            p.dimension.set(D);
            m.D = D;
            if (m.bimodal && m.DI > D - 1) m.DI = D - 1;
            m.wipe();
            m.cols.resize(D);
            PBT_CHECK("column-names", p.column_names == m.cols, "after dimension change");
            break;
        }
        case 10: {
            if (!m.bimodal || m.D < 3) break;
            unsigned DI = static_cast<unsigned>(g.integer(1, static_cast<int>(m.D) - 1));
            if (DI == m.DI) break;
            g.note("dimension_input = ", DI, "\n");
            p.dimension_input.set(DI);
            m.DI = DI;
            m.wipe();
            m.cols.resize(m.D);
            break;
        }
        case 11: {  // rejected observation: nothing changes
            unsigned w = static_cast<unsigned>(g.integer(0, 8));
            int which = g.integer(0, 2);
            if (!m.bimodal) which = 0;
            unsigned need = which == 0 ? m.D : which == 1 ? m.inDim() : m.outDim();
            if (w == need) break;
            g.note("wrong size ", w, " for ", need, "\n");
            std::vector<float> bad(w, 77.f);
            bool thrown = pbt::throws<std::exception>([&] {
                if (which == 0) p.record(bad);
                else if (which == 1) p.record_input(bad);
                else p.record_output(bad);
            });
            PBT_CHECK("wrong-size-rejected", thrown, "observation of size ", w, " accepted where ", need, " is required");
            g.label("rejected observation");
            break;
        }
        case 12: {
            auto l = genLabel(g);
            g.note("label\n");
            p.label.set(l);
            m.label = l;
            break;
        }
    }
    if (m.in.size() > 256 || m.out.size() > 256) crossed = true;
}

PBT_FACET(history, 25000, 400000, "at least 2 recordings and 4 operations were applied and compared with the model") {
    PhraseModel m;
    m.bimodal = g.coin();
    if (m.bimodal) {
        m.D = 2;
        m.DI = 1;
    }
    auto p = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory,
                                           m.bimodal ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    g.note(m.bimodal ? "bimodal\n" : "unimodal\n");
    m.cols = p->column_names;
    checkPhrase(*p, m, true, "fresh");
    unsigned D = static_cast<unsigned>(upto(g, m.bimodal ? 2 : 1, 6, 40));
    if (D != m.D) {
        p->dimension.set(D);
        m.D = D;
        m.cols.resize(D);
    }
    if (m.bimodal && D > 2) {
        unsigned DI = static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1));
        if (DI != m.DI) {
            p->dimension_input.set(DI);
            m.DI = DI;
        }
    }
    int ops = 0, writes = 0;
    bool crossed = false, copied = false;
    while (g.more(static_cast<size_t>(ops), 40, 14)) {
        ++ops;
        int k = g.integer(0, 9);
        if (k == 9) {  // continue with a copy (the original is destroyed)
            g.note("copy-construct\n");
            p = std::make_shared<xmm::Phrase>(*p);
            copied = true;
        } else if (k == 8) {  // continue with an assigned-to phrase of some other shape
            g.note("assign over another phrase\n");
            bool bi = g.coin();
            auto q = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory,
                                                   bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            if (g.coin()) q->record(drow(5, 0, bi ? 2 : 1));
            *q = *p;
            p = q;
            copied = true;
        } else
            stepPhrase(g, *p, m, writes, crossed);
        checkPhrase(*p, m, false, "after a step");
    }
    checkPhrase(*p, m, true, "at the end");
    if (writes >= 2 && ops >= 4) g.nontrivial();
    if (crossed) g.label("longer than one allocation block");
    if (copied) g.label("copied");
    g.label(m.bimodal ? "bimodal" : "unimodal");
    if (m.bimodal && m.in.size() != m.out.size()) g.label("modalities of different length");
}
