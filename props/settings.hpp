// The settings of parameter objects, behind one face.
#pragma once
#include "anymodel.hpp"

namespace {
// one settable thing of an object: integer code -> set it; whether the value is valid; the value read back
struct Setting {
    std::string name;
    std::vector<double> candidates;
    std::function<void(double)> set;
    std::function<double()> get;
    std::function<bool(double)> valid;
};
template <typename A>
Setting number(const std::string &n, A &a, double lo, double hi = 1e300) {
    typedef decltype(a.get()) T;
    Setting s;
    s.name = n;
    s.candidates = {0, 1, 2, 3, 5, 10, 1000};
    if (!std::numeric_limits<T>::is_integer) s.candidates = {0, 1e-30, 1e-20, 1e-3, 0.5, 1, 100, -1e-30, -1, -1e300, 1e-21};
    s.set = [&a](double v) { a.set(static_cast<T>(v)); };
    s.get = [&a] { return static_cast<double>(a.get()); };
    s.valid = [=](double v) {
        T t = static_cast<T>(v);
        return !(t < static_cast<T>(lo)) && (hi > 1e299 || !(t > static_cast<T>(hi)));
    };
    return s;
}
template <typename E, typename A>
Setting choice(const std::string &n, A &a, int count) {
    Setting s;
    s.name = n;
    for (int i = -1; i <= count + 1; ++i) s.candidates.push_back(i);
    s.set = [&a](double v) { a.set(static_cast<E>(static_cast<int>(v))); };
    s.get = [&a] { return static_cast<double>(static_cast<int>(a.get())); };
    s.valid = [=](double v) { return v >= 0 && v < count; };
    return s;
}
template <typename A>
Setting flag(const std::string &n, A &a) {
    Setting s;
    s.name = n;
    s.candidates = {0, 1};
    s.set = [&a](double v) { a.set(v != 0); };
    s.get = [&a] { return a.get() ? 1. : 0.; };
    s.valid = [](double) { return true; };
    return s;
}
std::vector<Setting> settings(xmm::ClassParameters<xmm::GMM> &p) {
    return {number("gaussians", p.gaussians, 1), number("relative_regularization", p.relative_regularization, 1e-20),
            number("absolute_regularization", p.absolute_regularization, 1e-20), choice<Cov>("covariance_mode", p.covariance_mode, 2)};
}
std::vector<Setting> settings(xmm::ClassParameters<xmm::HMM> &p) {
    return {number("states", p.states, 1), number("gaussians", p.gaussians, 1), number("relative_regularization", p.relative_regularization, 1e-20),
            number("absolute_regularization", p.absolute_regularization, 1e-20), choice<Cov>("covariance_mode", p.covariance_mode, 2),
            choice<Trans>("transition_mode", p.transition_mode, 2), choice<RegEst>("regression_estimator", p.regression_estimator, 3), flag("hierarchical", p.hierarchical)};
}
std::vector<Setting> settings(xmm::ClassParameters<xmm::KMeans> &p) {
    return {number("clusters", p.clusters, 1), number("max_iterations", p.max_iterations, 1), number("relative_distance_threshold", p.relative_distance_threshold, 0)};
}
// set() with the exception it must raise; true when accepted
bool trySet(const Setting &s, double v) {
    try {
        s.set(v);
        return true;
    } catch (const std::domain_error &) {
        return false;
    }
}
}  // namespace
