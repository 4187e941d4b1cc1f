// libFuzzer entry point over the same facets: the first byte picks the facet, the rest are choices.
#include "pbt.hpp"
#include <cstdlib>
namespace pbt {
std::vector<Facet> &facets() {
    static std::vector<Facet> f;
    return f;
}
std::vector<Probe> &probes() {
    static std::vector<Probe> p;
    return p;
}
}
using namespace pbt;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if (size < 2) return 0;
    Gen g;
    g.startBytes(data + 1, size - 1);
    const Facet &f = facets()[data[0] % facets().size()];
    try {
        f.fn(g);
    } catch (const Discard &) {
        return -1;
    } catch (...) {
        fprintf(stderr, "oracle failed in facet %s\n", f.name.c_str());
        abort();
    }
    return 0;
}
