// Property-based testing engine used by every check in /verif.
//
// A test case is a pure function of a *choice sequence* (a list of bounded unsigned integers).  Random
// generation, shrinking, replay and coverage-guided fuzzing all work on that one representation, so every
// shrunk failure is a valid case and every replay file is exact.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

// Raised by an oracle: `tag` names the violated clause (kept fixed while shrinking), `msg` explains.
struct Fail {
    std::string tag, msg;
};

// Raised by a generator or harness to give up on a case (counted, never a failure).
struct Discard {
    std::string why;
};

constexpr size_t kMaxChoices = 1u << 16;

class Gen {
  public:
    // --- sources -------------------------------------------------------------------------------------
    enum Mode { Random, Replay, Bytes };
    Gen() {}
    void startRandom(uint64_t seed) {
        reset();
        mode_ = Random;
        s_[0] = splitmix(seed);
        s_[1] = splitmix(seed);
        if (!s_[0] && !s_[1]) s_[1] = 1;
    }
    void startReplay(std::vector<uint64_t> c) {
        reset();
        mode_ = Replay;
        replay_ = std::move(c);
    }
    void startBytes(const uint8_t *d, size_t n) {
        reset();
        mode_ = Bytes;
        bytes_ = d;
        nbytes_ = n;
    }
    // Mirror the recorded choices into memory that survives a crash of this process.
    void mirror(uint64_t *buf, volatile uint32_t *count) {
        mbuf_ = buf;
        mcount_ = count;
    }

    // --- draws ---------------------------------------------------------------------------------------
    // Uniform in [0, max]; every other draw is made of these.  0 is always the simplest value.
    uint64_t raw(uint64_t max) {
        uint64_t v = 0;
        if (n_ >= kMaxChoices) throw Discard{"choice budget"};
        if (max) {
            if (mode_ == Random)
                v = max == ~0ull ? next() : next() % (max + 1);
            else if (mode_ == Replay) {
                v = n_ < replay_.size() ? replay_[n_] : 0;
                if (v > max) v = max;
            } else {
                int k = 1;
                for (uint64_t m = max; m > 255 && k < 8; m >>= 8) ++k;
                for (int i = 0; i < k; ++i)
                    if (pos_ < nbytes_) v |= static_cast<uint64_t>(bytes_[pos_++]) << (8 * i);
                if (max != ~0ull) v %= (max + 1);
            }
        } else if (mode_ == Replay) {
            // keep alignment: a zero-width draw still occupies a slot
        }
        record(v);
        return v;
    }
    int integer(int lo, int hi) { return static_cast<int>(lo + static_cast<int64_t>(raw(static_cast<uint64_t>(static_cast<int64_t>(hi) - lo)))); }
    // Biased towards small sizes, but reaching hi.
    int size(int lo, int hi) {
        if (hi <= lo) return lo;
        if (raw(2) == 2) return integer(lo, hi);
        int mid = lo + (hi - lo + 3) / 4;
        return integer(lo, mid);
    }
    bool coin() { return raw(1) == 1; }
    // true with probability num/den; false is the simple value.
    bool chance(int num, int den) { return static_cast<int>(raw(static_cast<uint64_t>(den - 1))) >= den - num; }
    // Continue a list?  (average length ~ avg, never beyond max)
    bool more(size_t have, size_t max, int avg = 8) {
        if (have >= max) return false;
        return raw(static_cast<uint64_t>(avg)) != 0;
    }
    template <typename T>
    const T &pick(const std::vector<T> &v) {
        return v[raw(v.size() - 1)];
    }
    template <typename T>
    T oneof(std::initializer_list<T> l) {
        return *(l.begin() + raw(l.size() - 1));
    }
    // A real in [lo,hi]: small round values, a coarse grid, or full resolution.
    double real(double lo, double hi) {
        switch (raw(3)) {
            case 0: {
                static const double simple[] = {0., 1., -1., 0.5, -0.5, 2., -2., 0.25, 3., 10.};
                double v = simple[raw(9)];
                return v < lo ? lo : (v > hi ? hi : v);
            }
            case 1:
                return lo + (hi - lo) * static_cast<double>(raw(16)) / 16.;
            default:
                return lo + (hi - lo) * static_cast<double>(raw((1u << 30))) / static_cast<double>(1u << 30);
        }
    }
    // Full-resolution value (no ties), for data where coincidences are not wanted.
    double smooth(double lo, double hi) {
        return lo + (hi - lo) * static_cast<double>(raw((1u << 30))) / static_cast<double>(1u << 30);
    }
    // Standard normal value.
    double normal() {
        double u = (static_cast<double>(raw((1u << 30))) + 1.) / (static_cast<double>(1u << 30) + 2.);
        // central quantile approximation (Acklam-free: use inverse via bisection-free logistic approx)
        double t = std::log(u / (1. - u)) / 1.702;
        return t;
    }
    // Positive magnitude, log-uniform in [lo,hi].
    double logreal(double lo, double hi) {
        return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * static_cast<double>(raw(1u << 20)) /
                                           static_cast<double>(1u << 20));
    }

    // --- bookkeeping ---------------------------------------------------------------------------------
    void label(const std::string &s) { labels.push_back(s); }
    void nontrivial() { interesting = true; }
    template <typename T>
    void note(const T &v) {
        if (noting) notes << v;
    }
    template <typename T, typename... R>
    void note(const T &v, const R &... r) {
        note(v);
        note(r...);
    }
    const std::vector<uint64_t> &choices() const { return rec_; }

    std::vector<std::string> labels;
    bool interesting = false;
    bool noting = false;
    std::ostringstream notes;

  private:
    static uint64_t splitmix(uint64_t &x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t next() {  // xoroshiro128+
        uint64_t a = s_[0], b = s_[1], r = a + b;
        b ^= a;
        s_[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s_[1] = (b << 37) | (b >> 27);
        return r;
    }
    void record(uint64_t v) {
        rec_.push_back(v);
        if (mbuf_) {
            mbuf_[n_] = v;
            *mcount_ = static_cast<uint32_t>(n_ + 1);
        }
        ++n_;
    }
    void reset() {
        rec_.clear();
        labels.clear();
        interesting = false;
        notes.str("");
        n_ = 0;
        pos_ = 0;
        if (mcount_) *mcount_ = 0;
    }
    Mode mode_ = Replay;
    uint64_t s_[2] = {1, 2};
    std::vector<uint64_t> replay_, rec_;
    const uint8_t *bytes_ = nullptr;
    size_t nbytes_ = 0, pos_ = 0, n_ = 0;
    uint64_t *mbuf_ = nullptr;
    volatile uint32_t *mcount_ = nullptr;
};

// --- oracles ------------------------------------------------------------------------------------------
inline std::string str() { return ""; }
template <typename T, typename... R>
std::string str(const T &v, const R &... r) {
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str() + str(r...);
}
#define PBT_CHECK(tag, cond, ...)                                                     \
    do {                                                                              \
        if (!(cond)) throw pbt::Fail{tag, pbt::str("[" #cond "] ", ##__VA_ARGS__)};   \
    } while (0)

inline bool close(double a, double b, double rel = 1e-7, double abs = 1e-9) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return false;
    double m = std::fmax(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) <= abs + rel * m;
}
#define PBT_CLOSE(tag, a, b, rel, abst, ...)                                                              \
    do {                                                                                                  \
        double _a = (a), _b = (b);                                                                        \
        if (!pbt::close(_a, _b, rel, abst))                                                               \
            throw pbt::Fail{tag, pbt::str(#a " = ", _a, " but " #b " = ", _b, " ", ##__VA_ARGS__)};       \
    } while (0)

// --- registration -------------------------------------------------------------------------------------
typedef std::function<void(Gen &)> CaseFn;
struct Facet {
    std::string name, rule;
    long quick, thorough;
    CaseFn fn;
};
std::vector<Facet> &facets();
struct Reg {
    Reg(const char *name, long quick, long thorough, const char *rule, CaseFn fn) {
        facets().push_back(Facet{name, rule, quick, thorough, fn});
    }
};
// A known finding: a fixed history that currently fails; `fn` throws Fail (or crashes) while it does.
struct Probe {
    std::string name, text;
    std::function<void()> fn;
};
std::vector<Probe> &probes();
struct RegProbe {
    RegProbe(const char *name, const char *text, std::function<void()> fn) {
        probes().push_back(Probe{name, text, fn});
    }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// name, quick case count, thorough case count, rule (what makes a case non-trivial)
#define PBT_FACET(name, quick, thorough, rule)                                                      \
    static void PBT_CAT(facet_, name)(pbt::Gen & g);                                                \
    static pbt::Reg PBT_CAT(reg_, name)(#name, quick, thorough, rule, PBT_CAT(facet_, name));       \
    static void PBT_CAT(facet_, name)(pbt::Gen & g)
#define PBT_PROBE(name, text)                                                     \
    static void PBT_CAT(probe_, name)();                                          \
    static pbt::RegProbe PBT_CAT(regp_, name)(#name, text, PBT_CAT(probe_, name)); \
    static void PBT_CAT(probe_, name)()

template <typename E, typename F>
bool throws(F f) {
    try {
        f();
    } catch (const E &) {
        return true;
    }
    return false;
}
}  // namespace pbt
