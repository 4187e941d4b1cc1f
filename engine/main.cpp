// Runner: generates cases in forked workers, shrinks failures, replays files, measures coverage.
#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::vector<Facet> &facets() {
    static std::vector<Facet> f;
    return f;
}
std::vector<Probe> &probes() {
    static std::vector<Probe> p;
    return p;
}
}  // namespace pbt
using namespace pbt;

#ifndef PBT_FUZZ
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:"
           "detect_stack_use_after_return=1:max_allocation_size_mb=4096:quarantine_size_mb=32:malloc_context_size=12";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
#endif
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=99:report_signal_unsafe=0:history_size=4"; }

enum Status { RUNNING = 0, DONE = 1, FAILED = 2 };
struct Shared {
    volatile long idx;  // case being run
    volatile long done;
    volatile int status;
    volatile uint32_t nchoices;
    char tag[256];
    char msg[4096];
    uint64_t choices[kMaxChoices];
};
static Shared *newShared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return static_cast<Shared *>(p);
}
static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t hashstr(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    return o + "\"";
}
static void setField(char *dst, size_t n, const std::string &s) {
    strncpy(dst, s.c_str(), n - 1);
    dst[n - 1] = 0;
}
static std::string g_tmp;
static double g_caseTimeout = 60;

struct Outcome {
    bool failed = false, hang = false, discarded = false;
    std::string tag, msg, notes;
    std::vector<uint64_t> choices;
    std::vector<std::string> labels;
    bool interesting = false;
};

static std::string crashSummary(const std::string &file) {
    std::ifstream in(file);
    std::string line, sum, frames;
    int nf = 0;
    while (std::getline(in, line)) {
        if (sum.empty() && (line.find("ERROR: AddressSanitizer") != std::string::npos ||
                            line.find("runtime error:") != std::string::npos ||
                            line.find("WARNING: ThreadSanitizer") != std::string::npos ||
                            line.find("terminate called") != std::string::npos ||
                            line.find("pure virtual") != std::string::npos ||
                            line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos))
            sum = line;
        if (line.find("    #") == 0 && nf < 8) {
            frames += "\n" + line;
            ++nf;
        }
    }
    return sum + frames;
}

// Run one case body; fills the shared record on failure.  Returns true when the case held.
static bool runCase(const Facet &f, Gen &g, Shared *sh, bool &discarded) {
    discarded = false;
    try {
        f.fn(g);
        return true;
    } catch (const Discard &) {
        discarded = true;
        return true;
    } catch (const Fail &e) {
        setField(sh->tag, sizeof sh->tag, e.tag);
        setField(sh->msg, sizeof sh->msg, e.msg);
    } catch (const std::exception &e) {
        setField(sh->tag, sizeof sh->tag, "unexpected-exception");
        // do not trust what(): the exception may be the defect
        setField(sh->msg, sizeof sh->msg, std::string("unexpected exception escaped: ") + typeid(e).name());
    } catch (...) {
        setField(sh->tag, sizeof sh->tag, "unexpected-exception");
        setField(sh->msg, sizeof sh->msg, "unexpected non-standard exception escaped");
    }
    return false;
}
static void redirect(const std::string &file) {
    int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    }
}
static void reap(pid_t pid, int &st) {
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
}

// One case in a fresh process.
static Outcome isolated(const Facet &f, const std::function<void(Gen &)> &start, double timeout, bool notes) {
    static Shared *sh = newShared();
    memset(const_cast<int *>(&sh->status), 0, sizeof(int));
    sh->tag[0] = sh->msg[0] = 0;
    sh->nchoices = 0;
    std::string log = g_tmp + "/iso.log", info = g_tmp + "/iso.info";
    unlink(info.c_str());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        redirect(log);
        Gen g;
        g.mirror(sh->choices, &sh->nchoices);
        g.noting = notes;
        start(g);
        bool d;
        bool ok = runCase(f, g, sh, d);
        if (notes) {
            std::ofstream o(info);
            o << (g.interesting ? 1 : 0) << " " << (d ? 1 : 0) << "\n";
            for (auto &l : g.labels) o << l << "\x1f";
            o << "\n" << g.notes.str();
        }
        sh->status = ok ? DONE : FAILED;
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    bool hang = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > timeout) {
            kill(pid, SIGKILL);
            reap(pid, st);
            hang = true;
            break;
        }
        usleep(now() - t0 < 0.05 ? 200 : 3000);
    }
    Outcome o;
    o.choices.assign(sh->choices, sh->choices + sh->nchoices);
    if (hang) {
        o.failed = o.hang = true;
        o.tag = "hang";
        o.msg = str("case did not finish within ", timeout, " s");
    } else if (sh->status == FAILED) {
        o.failed = true;
        o.tag = sh->tag;
        o.msg = sh->msg;
    } else if (sh->status != DONE) {
        o.failed = true;
        o.tag = "crash";
        o.msg = crashSummary(log);
        if (o.msg.empty()) o.msg = str("process died, wait status ", st);
    }
    if (notes) {
        std::ifstream in(info);
        int a = 0, b = 0;
        in >> a >> b;
        std::string l;
        std::getline(in, l);
        std::getline(in, l);
        o.interesting = a;
        o.discarded = b;
        size_t p = 0, q;
        while ((q = l.find('\x1f', p)) != std::string::npos) {
            o.labels.push_back(l.substr(p, q - p));
            p = q + 1;
        }
        std::stringstream ss;
        ss << in.rdbuf();
        o.notes = ss.str();
    }
    return o;
}
static Outcome replayOnce(const Facet &f, const std::vector<uint64_t> &c, double timeout, bool notes = false) {
    return isolated(f, [&](Gen &g) { g.startReplay(c); }, timeout, notes);
}

static std::vector<uint64_t> shrink(const Facet &f, std::vector<uint64_t> best, const std::string &tag, double budget,
                                    int attempts, long &tried) {
    double t0 = now();
    if (const char *e = getenv("PBT_SHRINK_S")) budget = atof(e);  // used by tools/mutate.py
    auto still = [&](const std::vector<uint64_t> &c, std::vector<uint64_t> &out) {
        ++tried;
        for (int i = 0; i < attempts; ++i) {
            Outcome o = replayOnce(f, c, 20);
            if (o.failed && o.tag == tag) {
                out = o.choices;
                while (!out.empty() && out.back() == 0) out.pop_back();
                return true;
            }
        }
        return false;
    };
    auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    bool progress = true;
    auto attempt = [&](std::vector<uint64_t> c) {
        while (!c.empty() && c.back() == 0) c.pop_back();
        if (!better(c, best)) return false;
        std::vector<uint64_t> out;
        if (!still(c, out)) return false;
        if (better(out, c)) c = out;
        best = c;
        progress = true;
        return true;
    };
    auto timeup = [&] { return now() - t0 > budget; };
    while (progress && !timeup()) {
        progress = false;
        for (size_t n = std::max<size_t>(1, best.size() / 2); n >= 1 && !timeup(); n = n > 8 ? n / 2 : n - 1) {
            for (size_t i = best.size() >= n ? best.size() - n + 1 : 0; i-- > 0 && !timeup();) {
                if (i + n > best.size()) continue;
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + n);
                attempt(c);
            }
        }
        for (size_t n = 16; n >= 2 && !timeup(); n /= 2)
            for (size_t i = 0; i + n <= best.size() && !timeup(); i += n) {
                std::vector<uint64_t> c(best);
                for (size_t k = 0; k < n; ++k) c[i + k] = 0;
                attempt(c);
            }
        for (size_t i = 0; i < best.size() && !timeup(); ++i) {
            if (!best[i]) continue;
            std::vector<uint64_t> c(best);
            c[i] = 0;
            if (attempt(c)) continue;
            uint64_t lo = 0;
            while (i < best.size() && best[i] - lo > 1 && !timeup()) {
                uint64_t mid = lo + (best[i] - lo) / 2;
                c = best;
                c[i] = mid;
                if (!attempt(c)) lo = mid;
            }
        }
    }
    return best;
}

static void writeReplay(const std::string &path, const std::string &prop, const Facet &f, const std::string &tag,
                        const std::string &msg, const std::string &notes, const std::vector<uint64_t> &c) {
    std::ofstream o(path);
    o << "{\"property\": " << jstr(prop) << ",\n \"facet\": " << jstr(f.name) << ",\n \"tag\": " << jstr(tag)
      << ",\n \"message\": " << jstr(msg) << ",\n \"case\": " << jstr(notes) << ",\n \"choices\": [";
    for (size_t i = 0; i < c.size(); ++i) o << (i ? ", " : "") << c[i];
    o << "]}\n";
}
static bool readReplay(const std::string &path, std::string &facet, std::vector<uint64_t> &c) {
    std::ifstream in(path);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string s = ss.str();
    size_t p = s.find("\"facet\":");
    if (p == std::string::npos) return false;
    p = s.find('"', p + 8);
    size_t q = s.find('"', p + 1);
    facet = s.substr(p + 1, q - p - 1);
    p = s.rfind("\"choices\":");
    p = s.find('[', p);
    size_t e = s.find(']', p);
    std::stringstream nums(s.substr(p + 1, e - p - 1));
    std::string tok;
    while (std::getline(nums, tok, ','))
        if (tok.find_first_of("0123456789") != std::string::npos) c.push_back(strtoull(tok.c_str(), nullptr, 10));
    return true;
}

struct Stats {
    long evaluations = 0, discarded = 0, interesting = 0;
    std::map<std::string, long> labels;
    std::unordered_set<uint64_t> distinct;
};

// Worker body: cases [from, to) of facet f.
static void worker(const Facet &f, uint64_t fseed, long from, long to, Shared *sh, const std::string &base) {
    redirect(base + ".log");
    std::ofstream hashes(base + ".hash", std::ios::binary | std::ios::trunc);
    std::map<std::string, long> labels;
    long disc = 0, inter = 0;
    for (long i = from; i < to; ++i) {
        sh->idx = i;
        Gen g;
        g.startRandom(mix(fseed, static_cast<uint64_t>(i)));
        bool d;
        if (!runCase(f, g, sh, d)) {
            sh->status = FAILED;
            _exit(0);
        }
        sh->done = i - from + 1;
        if (d)
            ++disc;
        else {
            for (auto &l : g.labels) ++labels[l];
            if (g.interesting) {
                ++inter;
                uint64_t h = 1469598103934665603ull;
                for (uint64_t c : g.choices()) h = mix(h, c);
                hashes.write(reinterpret_cast<char *>(&h), sizeof h);
            }
        }
    }
    std::ofstream o(base + ".stat", std::ios::trunc);
    o << disc << " " << inter << "\n";
    for (auto &l : labels) o << l.second << " " << l.first << "\n";
    o.close();
    hashes.close();
    sh->status = DONE;
    _exit(0);
}

int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "", prop, tier = "quick", out, replay, only;
    uint64_t seed = 1;
    int jobs = 8;
    std::string modeOnly;  // only the facets whose rule contains this
    double cap = 300, scale = 1;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") prop = v;
        else if (k == "--rule") modeOnly = v;
        else if (k == "--tier") tier = v;
        else if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--out") out = v;
        else if (k == "--file") replay = v;
        else if (k == "--jobs") jobs = atoi(v.c_str());
        else if (k == "--cap") cap = atof(v.c_str());
        else if (k == "--tmp") g_tmp = v;
        else if (k == "--facet") only = v;
        else if (k == "--scale") scale = atof(v.c_str());
        else if (k == "--case-timeout") g_caseTimeout = atof(v.c_str());
    }
    if (g_tmp.empty()) g_tmp = "/tmp";

    if (mode == "probe") {  // known findings: one line each, "name<TAB>0|1<TAB>message"
        for (auto &p : probes()) {
            Facet f{p.name, "", 0, 0, [&](Gen &) { p.fn(); }};
            Outcome o = replayOnce(f, {}, g_caseTimeout);
            std::string m = o.msg.substr(0, o.msg.find('\n'));
            std::cout << p.name << "\t" << (o.failed ? 1 : 0) << "\t" << p.text << "\t" << o.tag << ": " << m << "\n";
        }
        return 0;
    }
    if (mode == "replay") {
        std::string fname;
        std::vector<uint64_t> c;
        if (!readReplay(replay, fname, c)) {
            std::cerr << "cannot read replay " << replay << "\n";
            return 3;
        }
        for (auto &f : facets())
            if (f.name == fname) {
                Outcome o = replayOnce(f, c, g_caseTimeout, true);
                std::cout << (o.failed ? "FAIL " : o.discarded ? "DISCARD " : "OK ") << o.tag << "\n"
                          << o.msg << "\n";
                for (auto &l : o.labels) std::cout << "  label " << l << "\n";
                std::cout << o.notes << "\n";
                return o.failed ? 1 : 0;
            }
        std::cerr << "no facet " << fname << "\n";
        return 4;
    }
    if (mode == "bytes") {  // decode a fuzzer artifact into a replay file
        std::ifstream in(replay, std::ios::binary);
        std::stringstream ss;
        ss << in.rdbuf();
        std::string d = ss.str();
        if (d.empty()) return 3;
        const Facet &f = facets()[static_cast<uint8_t>(d[0]) % facets().size()];
        Outcome o = isolated(
            f, [&](Gen &g) { g.startBytes(reinterpret_cast<const uint8_t *>(d.data()) + 1, d.size() - 1); },
            g_caseTimeout, false);
        if (!o.failed) return 0;
        int ok = 0;
        for (int i = 0; i < 3; ++i) ok += replayOnce(f, o.choices, g_caseTimeout).failed;
        if (ok < 3) return 0;
        long tried = 0;
        auto c = o.hang ? o.choices : shrink(f, o.choices, o.tag, 60, 1, tried);
        Outcome fin = replayOnce(f, c, g_caseTimeout, true);
        writeReplay(out, prop, f, fin.tag, fin.msg, fin.notes, c);
        std::cout << f.name << " " << fin.tag << " " << fin.msg << "\n";
        return 1;
    }
    if (mode != "run") {
        std::cerr << "usage: run|replay|probe|bytes\n";
        return 3;
    }

    signal(SIGPIPE, SIG_IGN);
    double t0 = now();
    std::ostringstream js;
    js << "{\"facets\": [";
    bool first = true, violated = false;
    long unreproduced = 0;
    std::string unrepMsg;
    double capEach = cap;
    std::map<std::string, int> hangs;
    for (size_t fi = 0; fi < facets().size(); ++fi) {
        auto &f = facets()[fi];
        if (!only.empty() && f.name != only) continue;
        if (!modeOnly.empty() && f.rule.find(modeOnly) == std::string::npos) continue;
        long n = static_cast<long>(static_cast<double>(tier == "thorough" ? f.thorough : f.quick) * scale);
        if (n < 1) n = 1;
        uint64_t fseed = mix(mix(seed, hashstr(prop)), hashstr(f.name));
        Stats S;
        long chunk = std::max<long>(1, std::min<long>(250, n / (jobs * 4) + 1));
        struct W {
            pid_t pid = 0;
            Shared *sh = nullptr;
            long from = 0, to = 0, lastIdx = -1;
            double since = 0;
            std::string base;
        };
        static std::vector<W> ws;
        if (ws.empty()) {
            ws.resize(static_cast<size_t>(jobs));
            for (size_t i = 0; i < ws.size(); ++i) {
                ws[i].sh = newShared();
                ws[i].base = g_tmp + "/w" + std::to_string(i);
            }
        }
        long nextc = 0, active = 0;
        bool stop = false, capped = false;
        long failIdx = -1;
        bool failHang = false;
        Outcome orig;
        double f0 = now();
        while (true) {
            for (auto &w : ws) {
                if (w.pid || stop || nextc >= n) continue;
                if (now() - t0 > capEach) {
                    capped = true;
                    continue;
                }
                w.from = nextc;
                w.to = std::min(n, nextc + chunk);
                nextc = w.to;
                w.sh->idx = -1;
                w.sh->done = 0;
                w.sh->status = RUNNING;
                w.sh->tag[0] = w.sh->msg[0] = 0;
                w.lastIdx = -1;
                w.since = now();
                unlink((w.base + ".stat").c_str());
                unlink((w.base + ".hash").c_str());
                fflush(stdout);
                pid_t p = fork();
                if (p < 0) {
                    perror("fork");
                    return 3;
                }
                if (p == 0) {
                    worker(f, fseed, w.from, w.to, w.sh, w.base);
                    _exit(0);
                }
                w.pid = p;
                ++active;
            }
            if (!active) break;
            bool any = false;
            for (auto &w : ws) {
                if (!w.pid) continue;
                int st;
                pid_t r = waitpid(w.pid, &st, WNOHANG);
                bool hang = false;
                if (r != w.pid) {
                    if (w.sh->idx != w.lastIdx) {
                        w.lastIdx = w.sh->idx;
                        w.since = now();
                    } else if (now() - w.since > g_caseTimeout) {
                        kill(w.pid, SIGKILL);
                        reap(w.pid, st);
                        hang = true;
                    }
                    if (stop && !hang && w.sh->idx > failIdx) {
                        kill(w.pid, SIGKILL);
                        reap(w.pid, st);
                        w.pid = 0;
                        --active;
                        any = true;
                        continue;
                    }
                    if (!hang) continue;
                }
                any = true;
                w.pid = 0;
                --active;
                S.evaluations += w.sh->done;
                if (w.sh->status == DONE) {
                    std::ifstream in(w.base + ".stat");
                    long d = 0, k = 0;
                    in >> d >> k;
                    S.discarded += d;
                    S.interesting += k;
                    long c;
                    std::string l;
                    while (in >> c) {
                        in.get();
                        std::getline(in, l);
                        S.labels[l] += c;
                    }
                    std::ifstream h(w.base + ".hash", std::ios::binary);
                    uint64_t v;
                    while (h.read(reinterpret_cast<char *>(&v), sizeof v)) S.distinct.insert(v);
                } else {
                    ++S.evaluations;
                    long idx = w.sh->idx;
                    if (failIdx < 0 || idx < failIdx) {
                        failIdx = idx;
                        failHang = hang;
                        orig = Outcome();
                        orig.failed = true;
                        orig.hang = hang;
                        orig.tag = hang ? "hang" : w.sh->status == FAILED ? std::string(w.sh->tag) : "crash";
                        orig.msg = hang ? str("case did not finish within ", g_caseTimeout, " s") : w.sh->status == FAILED ? std::string(w.sh->msg) : crashSummary(w.base + ".log");
                    }
                    stop = true;
                }
            }
            if (!any) usleep(1000);
        }
        // samples: the first few interesting cases, written out
        std::vector<std::string> samples;
        if (failIdx < 0) {
            for (long i = 0; i < std::min<long>(n, 60) && samples.size() < 2 && now() - t0 < capEach + 20; ++i) {
                Outcome o = isolated(
                    f, [&](Gen &g) { g.startRandom(mix(fseed, static_cast<uint64_t>(i))); }, g_caseTimeout, true);
                if (!o.failed && o.interesting && !o.discarded) samples.push_back(o.notes.substr(0, 1200));
            }
        }
        std::string viol;
        if (failIdx >= 0) {
            Outcome o = isolated(
                f, [&](Gen &g) { g.startRandom(mix(fseed, static_cast<uint64_t>(failIdx))); }, g_caseTimeout, false);
            bool racy = f.rule.find("[racy]") != std::string::npos;
            int tries = racy ? 40 : 3, need = racy ? 2 : 3, got = 0;
            std::vector<uint64_t> c = o.choices;
            std::string tag = o.tag, msg = o.msg;
            // a case that hangs costs its time limit every time: seen in the run and once more in isolation is enough
            if (o.hang && failHang && !racy) got = need;
            for (int i = 0; i < tries && got < need; ++i) {
                Outcome x = (o.hang || failHang)
                                ? isolated(f, [&](Gen &g) { g.startRandom(mix(fseed, static_cast<uint64_t>(failIdx))); },
                                           g_caseTimeout, false)
                                : isolated(f, [&](Gen &g) { g.startRandom(mix(fseed, static_cast<uint64_t>(failIdx))); },
                                           g_caseTimeout, false);
                if (x.failed) {
                    ++got;
                    tag = x.tag;
                    msg = x.msg;
                    c = x.choices;
                }
                if (!racy && !x.failed) break;
                if (racy && x.hang && got >= 2) break;
            }
            // what a schedule showed once is shown, whether or not it comes back; only a hang (which a slow
            // machine can imitate) must be seen twice
            bool once = racy && (!orig.hang || got > 0 || hangs[f.name] > 0);
            if (racy && !once) {
                std::cout << "hang in " << f.name << " case " << failIdx << " did not come back in isolation: the facet runs again\n";
                ++hangs[f.name];
                --fi;
                continue;
            }
            if (got >= need || once) {
                violated = true;
                long tried = 0;
                if (once && !got) {
                    tag = orig.tag;
                    msg = orig.msg;
                }
                if (got >= need && tag != "hang") c = shrink(f, c, tag, racy ? 40 : 60, racy ? 6 : 1, tried);
                Outcome fin;
                for (int i = 0; i < (tag == "hang" ? 0 : racy ? 40 : 1); ++i) {
                    fin = replayOnce(f, c, g_caseTimeout, true);
                    if (fin.failed) break;
                }
                if (!fin.failed) {
                    fin.tag = tag;
                    fin.msg = msg;
                }
                std::string path = out + "." + f.name + ".replay.json";
                writeReplay(path, prop, f, fin.tag, fin.msg, fin.notes, c);
                viol = path;
                std::cout << "FAILED facet=" << f.name << " case=" << failIdx << " tag=" << fin.tag << " shrunk to "
                          << c.size() << " choices in " << tried << " tries\n"
                          << fin.msg << "\n"
                          << fin.notes << "\n";
            } else {
                ++unreproduced;
                unrepMsg = f.name + " case " + std::to_string(failIdx) + " " + tag + " " + msg + " " + orig.tag + " " + orig.msg;
                std::cout << "NOT REPRODUCED in isolation (" << got << "/" << need << "): " << unrepMsg << "\n";
            }
        }
        js << (first ? "" : ",") << "\n {\"name\": " << jstr(f.name) << ", \"rule\": " << jstr(f.rule)
           << ", \"planned\": " << n << ", \"evaluations\": " << S.evaluations << ", \"discarded\": " << S.discarded
           << ", \"interesting\": " << S.interesting << ", \"distinct_nontrivial\": " << S.distinct.size()
           << ", \"capped\": " << (capped ? "true" : "false") << ", \"wall_s\": " << now() - f0
           << ", \"violation\": " << jstr(viol) << ", \"labels\": {";
        bool fl = true;
        for (auto &l : S.labels) {
            js << (fl ? "" : ", ") << jstr(l.first) << ": " << l.second;
            fl = false;
        }
        js << "}, \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) js << (i ? ", " : "") << jstr(samples[i]);
        js << "]}";
        first = false;
        if (violated) break;
    }
    js << "],\n \"unreproduced\": " << unreproduced << ", \"unreproduced_message\": " << jstr(unrepMsg) << "}\n";
    if (!out.empty()) {
        std::ofstream o(out + ".result.json");
        o << js.str();
    }
    return violated ? 1 : 0;
}
