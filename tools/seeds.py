# Planted bugs: (id, property, edits [(file, old, new)], needs, breaks, demo program).  tools/mkseed.py makes seeded/ from them.
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

PH = "src/core/trainingset/xmmPhrase.cpp"
TS = "src/core/trainingset/xmmTrainingSet.cpp"
GA = "src/core/distributions/xmmGaussianDistribution.cpp"
G1 = "src/models/gmm/xmmGmmSingleClass.cpp"
GM = "src/models/gmm/xmmGmm.cpp"
H1 = "src/models/hmm/xmmHmmSingleClass.cpp"
HH = "src/models/hmm/xmmHierarchicalHmm.cpp"
MO = "src/core/model/xmmModel.hpp"
S1 = "src/core/model/xmmModelSingleClass.cpp"

seed("p01_output_growth", "C01",
 [(PH, "    if (output_length_ >= max_length_ || max_length_ == 0) {", "    if (length_ >= max_length_ || max_length_ == 0) {")],
 "a bimodal phrase whose outputs are recorded one allocation block (256 frames) ahead of its inputs",
 "record_output writes past the end of the output array", r'''
int main() {
    xmm::Phrase p(xmm::MemoryMode::OwnMemory, xmm::Multimodality::Bimodal);
    for (int i = 0; i < 600; ++i) p.record_output({float(i)});
    for (int i = 0; i < 600; ++i) p.record_input({float(-i)});
    EXPECT(p.size() == 600);
    for (int i = 0; i < 600; ++i) EXPECT(p.getValue(i, 0) == -i && p.getValue(i, 1) == i);
}''', flags="-fsanitize=address")

seed("p02_partial_disconnect", "C02",
 [(PH, "    length_ = 0;\n    input_length_ = 0;\n    output_length_ = 0;\n    empty_ = true;\n}\n\nvoid xmm::Phrase::record(", "    length_ = 0;\n    input_length_ = 0;\n    empty_ = true;\n}\n\nvoid xmm::Phrase::record(")],
 "disconnecting a bimodal shared phrase, then connecting only the input modality again",
 "the phrase claims frames whose output array is no longer connected", r'''
int main() {
    float a[8] = {0}, b[8] = {0};
    xmm::Phrase p(xmm::MemoryMode::SharedMemory, xmm::Multimodality::Bimodal);
    p.connect(a, b, 8);
    p.disconnect();
    EXPECT(p.size() == 0 && p.empty() && p.outputSize() == 0);
    p.connect_input(a, 5);
    EXPECT(p.size() == 0 && p.inputSize() == 5);
}''')

seed("p03_relabel_known", "C03",
 [(TS, "    if (e.type == PhraseEvent::Type::LabelChanged) {\n        update();", "    if (e.type == PhraseEvent::Type::LabelChanged &&\n        labels_.count(e.phrase->label.get()) == 0) {\n        update();")],
 "a phrase of a set relabelled to a class the set already has",
 "the class subsets and the label set keep the phrase under its former label", r'''
int main() {
    xmm::TrainingSet s;
    s.addPhrase(0, "a");
    s.addPhrase(1, "b");
    s.addPhrase(2, "b");
    s.getPhrase(1)->label.set("a");
    EXPECT(s.getPhrasesOfClass("a")->size() == 2);
    EXPECT(s.getPhrasesOfClass("b")->size() == 1);
}''')

seed("p05_minmax_outputs", "C05",
 [(TS, "                for (unsigned int t = 0; t < phrase.second->outputSize(); t++) {", "                for (unsigned int t = 0; t < phrase.second->inputSize(); t++) {")],
 "minimum and maximum of a bimodal set whose phrases have more outputs than inputs",
 "the last outputs are left out", r'''
int main() {
    xmm::TrainingSet s(xmm::MemoryMode::OwnMemory, xmm::Multimodality::Bimodal);
    s.addPhrase(0, "a");
    s.getPhrase(0)->record({1, 2});
    s.getPhrase(0)->record_output({7});
    auto m = s.minmax();
    EXPECT(m[0].first == 1 && m[0].second == 1 && m[1].first == 2 && m[1].second == 7);
}''')

seed("p06_phrase_columns", "C06",
 [(TS, "        root[\"phrases\"][phraseIndex][\"index\"] = phrase.first;\n", "        root[\"phrases\"][phraseIndex][\"index\"] =\n            static_cast<int>(phraseIndex);\n")],
 "a set whose phrase indices are not 0..n-1 (phrases removed, or sparse or negative indices)",
 "the reloaded set renumbers its phrases", r'''
int main() {
    xmm::TrainingSet s;
    s.addPhrase(3, "a");
    s.getPhrase(3)->record({1});
    s.addPhrase(7, "b");
    s.getPhrase(7)->record({2});
    xmm::TrainingSet t;
    t.fromJson(s.toJson());
    EXPECT(t.getPhrase(3) && t.getPhrase(7) && !t.getPhrase(0));
    EXPECT(t.getPhrase(7)->label.get() == "b");
}''')

seed("p07_bimodal_density", "C07",
 [(GA, "        for (unsigned int l = dimension_input.get(); l < dimension.get(); l++) {\n            euclidianDistance +=\n                inverse_covariance_[l] *", "        for (unsigned int l = dimension_input.get(); l < dimension.get(); l++) {\n            euclidianDistance +=\n                inverse_covariance_[l - dimension_input.get()] *")],
 "a bimodal Gaussian with diagonal covariance and different input and output variances",
 "the joint density weights outputs by the input variances", r'''
int main() {
    xmm::GaussianDistribution g(true, 2, 1, xmm::GaussianDistribution::CovarianceMode::Diagonal);
    g.covariance = {1., 4.};
    g.updateInverseCovariance();
    float i = 0.5f, o = 2.f, x[2] = {0.5f, 2.f};
    EXPECT(near(g.likelihood_bimodal(&i, &o), g.likelihood(x)));
}''')

seed("p08_output_covariance", "C08",
 [(GA, "                covariance[d1 * dimension.get() + dimension_input.get() + d2];", "                covariance[d1 * dimension.get() + dimension_output + d2];")],
 "full covariance, different numbers of input and output dimensions",
 "the conditional output covariance uses the wrong cross-covariance block", r'''
int main() {
    xmm::GaussianDistribution g(true, 3, 1);
    g.mean = {0, 0, 0};
    g.covariance = {1, .5, .2, .5, 2, .1, .2, .1, 3};
    g.updateInverseCovariance();
    EXPECT(near(g.output_covariance[0], 2 - .25));
    EXPECT(near(g.output_covariance[1], .1 - .1) || std::fabs(g.output_covariance[1]) < 1e-9);
    EXPECT(near(g.output_covariance[3], 3 - .04));
}''')

seed("p09_ellipse_mean", "C09",
 [(GA, "        covariance[dimension1] = a;\n        covariance[dimension2] = c;\n    }\n    updateInverseCovariance();", "        covariance[dimension1] = a;\n        covariance[dimension2] = c;\n        return;\n    }\n    updateInverseCovariance();")],
 "editing a diagonal-covariance Gaussian through an ellipse",
 "densities after the edit still use the former covariance", r'''
int main() {
    xmm::GaussianDistribution g(false, 2, 0, xmm::GaussianDistribution::CovarianceMode::Diagonal), h(g);
    g.covariance = {1., 1.};
    g.updateInverseCovariance();
    auto e = g.toEllipse(0, 1);
    e.width *= 2;
    g.fromEllipse(e, 0, 1);
    h.covariance = g.covariance;
    h.updateInverseCovariance();
    float x[2] = {1.f, -1.f};
    EXPECT(near(g.likelihood(x), h.likelihood(x)));
}''')

seed("p10_swap_columns", "C10",
 [("src/core/common/xmmMatrix.hpp", "        for (unsigned int k = 0; k < nrows; k++) {\n            tmp = data[k * ncols + i];", "        for (unsigned int k = 0; k < ncols; k++) {\n            tmp = data[k * ncols + i];")],
 "swapping columns of a matrix with more rows than columns",
 "the rows beyond the number of columns are not swapped", r'''
#include "xmmMatrix.hpp"
int main() {
    xmm::Matrix<double> m(3, 2, true);
    for (int i = 0; i < 6; ++i) m._data[i] = i;
    m.swap_columns(0, 1);
    for (int i = 0; i < 3; ++i) EXPECT(m._data[2 * i] == 2 * i + 1 && m._data[2 * i + 1] == 2 * i);
}''')

seed("p11_diagonal_phrases", "C11",
 [(G1, "                            p[c][tbase + t] * value * value;\n                    }\n                    tbase += T;", "                            p[c][tbase + t] * value * value;\n                    }\n                    tbase = T;")],
 "a GMM class of three or more phrases of different content, diagonal covariance",
 "variances weight the third and later phrases with the responsibilities of other frames", r'''
static std::vector<double> coverage(std::vector<std::vector<float>> const& phrases) {
    xmm::TrainingSet s;
    int k = 0;
    for (auto& p : phrases) {
        s.addPhrase(k, "a");
        for (float v : p) s.getPhrase(k)->record({v});
        ++k;
    }
    xmm::GMM m;
    m.configuration.gaussians.set(1 + 1);
    m.configuration.covariance_mode.set(xmm::GaussianDistribution::CovarianceMode::Diagonal);
    m.configuration.relative_regularization.set(1e-6);
    m.configuration.absolute_regularization.set(1e-6);
    m.train(&s);
    // total variance of the mixture around its mean: it is that of the data
    auto& c = m.models.begin()->second;
    double mean = 0, var = 0;
    for (int i = 0; i < 2; ++i) mean += c.mixture_coeffs[i] * c.components[i].mean[0];
    for (int i = 0; i < 2; ++i) var += c.mixture_coeffs[i] * (c.components[i].covariance[0] + std::pow(c.components[i].mean[0] - mean, 2));
    return {mean, var};
}
int main() {
    std::vector<std::vector<float>> ph(3);
    for (int i = 0; i < 10; ++i) {
        ph[0].push_back(std::sin(i * 1.3f));
        ph[1].push_back(std::cos(i * 2.1f) * 2);
        ph[2].push_back(i < 5 ? 3 + 0.1f * i * i : -3 + std::sin(i * 3.f));
    }
    double m = 0, v = 0;
    for (auto& p : ph) for (float x : p) m += x / 30;
    for (auto& p : ph) for (float x : p) v += (x - m) * (x - m) / 30;
    auto r = coverage(ph);
    EXPECT(near(r[0], m, 1e-3));
    EXPECT(near(r[1], v, 1e-3));
}''')

seed("p12_mixture_phrases", "C12",
 [(H1, "                    states[i].mixture_coeffs[c] += gamma_sequence_per_mixture_\n                        [phraseIndex][c][t * numStates + i];\n                }\n            }\n        }\n        phraseIndex++;", "                    states[i].mixture_coeffs[c] += gamma_sequence_per_mixture_\n                        [phraseIndex][c][t * numStates + i];\n                }\n            }\n        }\n        if (phraseLength == 0) phraseIndex++;")],
 "an HMM with several Gaussians per state trained on phrases of the same length and different content",
 "mixture coefficients are estimated from the first phrase only", r'''
int main() {
    xmm::TrainingSet s;
    s.addPhrase(0, "a");
    s.addPhrase(1, "a");
    for (int i = 0; i < 20; ++i) {
        s.getPhrase(0)->record({i % 2 ? 5 + 0.3f * std::sin(i * 1.f) : 0.2f * std::cos(i * 2.f)});
        s.getPhrase(1)->record({i % 5 ? 5 + 0.3f * std::cos(i * 1.f) : 0.2f * std::sin(i * 3.f)});
    }
    xmm::HierarchicalHMM m;
    m.configuration.states.set(1);
    m.configuration.gaussians.set(2);
    m.train(&s);
    auto& st = m.models.begin()->second.states[0];
    int hi = st.components[1].mean[0] > st.components[0].mean[0];
    EXPECT(near(st.components[hi].mean[0], 5, 0.05));
    EXPECT(near(st.mixture_coeffs[hi], 26. / 40, 0.02));
}''')

seed("p13_window", "C13",
 [(G1, "    results.log_likelihood = 0.0;\n    unsigned int bufSize = likelihood_buffer_.size_t();", "    results.log_likelihood = 0.0;\n    unsigned int bufSize = likelihood_buffer_.size();\n    if (bufSize > 2 * likelihood_buffer_.size_t())\n        bufSize = likelihood_buffer_.size_t();")],
 "a likelihood window at least half filled and not full (windows of 3 or more frames)",
 "smoothed likelihoods read beyond the frames seen", r'''
int main() {
    xmm::TrainingSet s;
    s.addPhrase(0, "a");
    for (int i = 0; i < 30; ++i) s.getPhrase(0)->record({std::sin(i * 1.f)});
    xmm::GMM m;
    m.configuration.gaussians.set(1);
    m.shared_parameters->likelihood_window.set(4);
    m.train(&s);
    m.reset();
    double sum = 0;
    for (int i = 0; i < 3; ++i) {
        m.filter({0.3f * i});
        sum += std::log(m.results.instant_likelihoods[0]);
        EXPECT(near(m.results.smoothed_log_likelihoods[0], sum / (i + 1)));
    }
}''')

seed("p14_regression_weights", "C14",
 [(GM, "                    results.output_values[d] +=\n                        results.smoothed_normalized_likelihoods[i] *\n                        model.second.results.output_values[d];", "                    results.output_values[d] +=\n                        results.instant_normalized_likelihoods[i] *\n                        model.second.results.output_values[d];")],
 "bimodal GMM of two classes, mixture combination, likelihood window longer than one",
 "the combined output is weighted by instantaneous instead of smoothed likelihoods", r'''
int main() {
    xmm::TrainingSet s(xmm::MemoryMode::OwnMemory, xmm::Multimodality::Bimodal);
    for (int c = 0; c < 2; ++c) {
        s.addPhrase(c, c ? "b" : "a");
        for (int i = 0; i < 30; ++i) s.getPhrase(c)->record({c + std::sin(i * 1.f), 3.f * c + 0.5f * std::cos(i * 1.f)});
    }
    xmm::GMM m(true);
    m.configuration.gaussians.set(1);
    m.configuration.multiClass_regression_estimator = xmm::MultiClassRegressionEstimator::Mixture;
    m.shared_parameters->likelihood_window.set(5);
    m.train(&s);
    m.reset();
    for (int i = 0; i < 6; ++i) {
        m.filter({i < 4 ? -0.5f : 1.5f});
        double e = 0;
        int k = 0;
        for (auto& c : m.models) e += m.results.smoothed_normalized_likelihoods[k++] * c.second.results.output_values[0];
        EXPECT(near(m.results.output_values[0], e, 1e-3));
    }
}''')

seed("p15_cyclic", "C15",
 [(H1, "                alpha[0] += previous_alpha_[numStates - 1] *\n                            transition[numStates * 2 - 1];\n            }\n        }\n        if (shared_parameters->bimodal.get()) {", "                alpha[0] = previous_alpha_[numStates - 1] *\n                           transition[numStates * 2 - 1];\n            }\n        }\n        if (shared_parameters->bimodal.get()) {")],
 "recognition with a left-right non-hierarchical HMM that stays in its first state",
 "the probability of staying in the first state is dropped", r'''
int main() {
    xmm::TrainingSet s;
    s.addPhrase(0, "a");
    for (int i = 0; i < 30; ++i) s.getPhrase(0)->record({i < 15 ? 0.1f * std::sin(i * 1.f) : 2 + 0.1f * std::cos(i * 1.f)});
    xmm::HierarchicalHMM m;
    m.configuration.states.set(2);
    m.configuration.hierarchical.set(false);
    m.train(&s);
    m.reset();
    auto& c = m.models.begin()->second;
    m.filter({0.f});
    m.filter({0.f});
    double a0 = c.transition[0] * c.states[0].components[0].likelihood(V{0.f}.data()), a1 = c.transition[1] * c.states[1].components[0].likelihood(V{0.f}.data());
    EXPECT(near(m.results.instant_likelihoods[0], a0 + a1, 1e-3));
}''')

seed("p16_transition_direction", "C16",
 [(HH, "                front[0] += frontier_v1_[src_model_index] *\n                                transition[src_model_index][dst_model_index] +", "                front[0] += frontier_v1_[src_model_index] *\n                                transition[dst_model_index][src_model_index] +")],
 "a hierarchical HMM of two or more left-right classes with asymmetric class transitions set by hand",
 "transitions between classes follow the transposed transition matrix", r'''
int main() {
    xmm::TrainingSet s;
    for (int c = 0; c < 2; ++c) {
        s.addPhrase(c, c ? "b" : "a");
        for (int i = 0; i < 20; ++i) s.getPhrase(c)->record({std::sin(i * 0.3f + c)});
    }
    xmm::HierarchicalHMM m;
    m.configuration.states.set(1);
    m.train(&s);
    m.transition[0] = {0.9, 0.1};
    m.transition[1] = {0.5, 0.5};
    m.reset();
    m.exit_transition = {0, 0};
    for (int i = 0; i < 3; ++i) m.filter({0.1f});
    // the model entered from "a" and "b" in proportion of the entries of their columns
    auto &a = m.models.at("a"), &b = m.models.at("b");
    double va = a.alpha_h[1][0], vb = b.alpha_h[1][0], ka = a.alpha_h[0][0], kb = b.alpha_h[0][0];
    double pa = a.states[0].components[0].likelihood(V{0.4f}.data()), pb = b.states[0].components[0].likelihood(V{0.4f}.data());
    m.filter({0.4f});
    double ea = (ka * a.transition[0] + va * 0.9 + vb * 0.5) * pa, eb = (kb * b.transition[0] + va * 0.1 + vb * 0.5) * pb;
    double ra = a.alpha_h[0][0] + a.alpha_h[1][0], rb = b.alpha_h[0][0] + b.alpha_h[1][0];
    EXPECT(near(ra / (ra + rb), ea / (ea + eb), 1e-3));
}''')

seed("p17_windowed", "C17",
 [(H1, "    window_maxindex_ = (static_cast<int>(results.likeliest_state) +\n                        static_cast<int>(numStates) / 2);", "    window_maxindex_ = (window_minindex_ + static_cast<int>(numStates));")],
 "windowed regression (or time progression) with an odd number of states and a likeliest state near the start",
 "the regression window is one state too wide for odd numbers of states", r'''
int main() {
    xmm::TrainingSet s(xmm::MemoryMode::OwnMemory, xmm::Multimodality::Bimodal);
    s.addPhrase(0, "a");
    for (int i = 0; i < 60; ++i) s.getPhrase(0)->record({std::sin(i * 0.05f), i * 0.1f});
    xmm::HierarchicalHMM m(true);
    m.configuration.states.set(5);
    m.configuration.hierarchical.set(false);
    m.configuration.relative_regularization.set(0.5);
    m.configuration.regression_estimator.set(xmm::HMM::RegressionEstimator::Windowed);
    m.train(&s);
    m.reset();
    auto& c = m.models.begin()->second;
    for (int i = 0; i < 40; ++i) {
        m.filter({std::sin(i * 0.05f)});
        int l = c.results.likeliest_state, lo = std::max(0, l - 2), hi = std::min(5, l + 2);
        double n = 0, e = 0;
        for (int k = lo; k < hi; ++k) n += c.alpha[k];
        for (int k = lo; k < hi; ++k) e += c.alpha[k] / n * c.states[k].results.output_values[0];
        EXPECT(near(m.results.output_values[0], e, 1e-3));
    }
}''')

seed("p19_exit_points", "C19",
 [(H1, "    if (root.isMember(\"exitProbabilities\")) {", "    if (root.isMember(\"exitProbabilities\") &&\n        root[\"exitProbabilities\"].size() > 0 &&\n        root[\"exitProbabilities\"][0].asDouble() == 0.) {")],
 "saving a hierarchical HMM with an exit point on the first state",
 "exit points are not reloaded when the first state is one of them", r'''
int main() {
    xmm::TrainingSet s;
    s.addPhrase(0, "a");
    for (int i = 0; i < 30; ++i) s.getPhrase(0)->record({std::sin(i * 1.f)});
    xmm::HierarchicalHMM m, n;
    auto exitp = [&](int i) { return n.toJson()["models"][0]["exitProbabilities"][i].asDouble(); };
    m.configuration.states.set(3);
    m.train(&s);
    m.addExitPoint(1, 0.5f);
    n.fromJson(m.toJson());
    EXPECT(near(exitp(1), 0.5));
    m.addExitPoint(0, 0.3f);
    n.fromJson(m.toJson());
    EXPECT(near(exitp(0), 0.3));
    EXPECT(near(exitp(1), 0.5));
}''')

seed("p21_class_configuration", "C21",
 [(MO, "            models[label].parameters = configuration.class_parameters_[label];", "            models[label].parameters =\n                configuration.class_parameters_.begin()->second;")],
 "two or more class-specific configurations that differ",
 "classes are trained with the first class-specific configuration", r'''
int main() {
    xmm::TrainingSet s;
    for (int c = 0; c < 2; ++c) {
        s.addPhrase(c, c ? "b" : "a");
        for (int i = 0; i < 40; ++i) s.getPhrase(c)->record({std::sin(i * 0.7f + c)});
    }
    xmm::GMM m;
    m.configuration["a"].gaussians.set(2);
    m.configuration["b"].gaussians.set(3);
    m.train(&s);
    EXPECT(m.models.at("a").components.size() == 2);
    EXPECT(m.models.at("b").components.size() == 3);
}''')

seed("p25_vector_limits", "C25",
 [("src/core/common/xmmAttribute.hpp", "        for (auto& val : value) {\n            checkLimits(val, limit_min_, limit_max_);\n        }\n        value_ = value;\n        changed = true;\n        if (!silently && callback_) callback_(this);\n    }\n\n    /**\n     @brief get the attribute's current value\n     @return the attribute's current value\n     */\n    std::vector<T> get() const", "        value_.clear();\n        for (auto& val : value) {\n            checkLimits(val, limit_min_, limit_max_);\n            value_.push_back(val);\n        }\n        changed = true;\n        if (!silently && callback_) callback_(this);\n    }\n\n    /**\n     @brief get the attribute's current value\n     @return the attribute's current value\n     */\n    std::vector<T> get() const")],
 "a vector attribute with limits, set to a vector whose later elements are out of range",
 "a refused value is kept in part", r"""
int main() {
    xmm::Attribute<std::vector<int>> a({1, 2, 3}, 0, 10);
    bool threw = false;
    try { a.set({4, 5, 60}); } catch (std::exception&) { threw = true; }
    EXPECT(threw);
    EXPECT(a.get() == std::vector<int>({1, 2, 3}));
}""")

seed("p04_output_covariance", "C04",
 [(GA, "        output_covariance = src.output_covariance;\n    }\n    return *this;", "        if (output_covariance.size() != src.output_covariance.size())\n            output_covariance = src.output_covariance;\n    }\n    return *this;")],
 "assigning a bimodal Gaussian (or a model of the same size) over another one",
 "the target keeps its own output covariance", r"""
int main() {
    xmm::GaussianDistribution a(true, 2, 1), b(true, 2, 1);
    a.covariance = {2., 0.5, 0.5, 3.};
    b.covariance = {1., 0.1, 0.1, 1.};
    a.updateInverseCovariance();
    b.updateInverseCovariance();
    EXPECT(a.output_covariance != b.output_covariance);
    xmm::GaussianDistribution c(b);
    EXPECT(c.output_covariance == b.output_covariance);
    c = a;
    EXPECT(c.output_covariance == a.output_covariance);
}""")

seed("p18_window_reset", "C18",
 [(S1, "    check_training();\n    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());\n    likelihood_buffer_.clear();\n}", "    check_training();\n    likelihood_buffer_.resize(shared_parameters->likelihood_window.get());\n}")],
 "a likelihood window longer than 1, and a reset after some frames",
 "the smoothed likelihoods after a reset still hold the frames before it", r"""
int main() {
    xmm::TrainingSet s;
    for (int c = 0; c < 2; ++c) {
        s.addPhrase(c, c ? "b" : "a");
        for (int i = 0; i < 40; ++i) s.getPhrase(c)->record({std::sin(i * 0.7f) + 2 * c});
    }
    xmm::GMM m;
    m.train(&s);
    m.shared_parameters->likelihood_window.set(4);
    m.reset();
    m.filter({0.1f});
    auto first = m.results.smoothed_log_likelihoods;
    for (int i = 0; i < 5; ++i) m.filter({2.f + i});
    m.reset();
    m.filter({0.1f});
    EXPECT(m.results.smoothed_log_likelihoods == first);
}""")

seed("p20_cancel_label", "C20",
 [(S1, "    if (!cancel_training_) return false;\n    training_mutex_.unlock();\n    training_status.label = label;\n", "    if (!cancel_training_) return false;\n    training_mutex_.unlock();\n")],
 "cancelling the training from another thread before the training of a later class began",
 "the Cancel event of that class carries no label", r"""
#include <atomic>
#include <thread>
std::atomic<bool> started(false);
std::map<std::string, int> cancelled;
struct L {
    void on(xmm::TrainingEvent const& e) {
        if (e.status == xmm::TrainingEvent::Status::Run) started = true;
        if (e.status == xmm::TrainingEvent::Status::Cancel) cancelled[e.label]++;
    }
} listener;
int main() {
    xmm::TrainingSet s(xmm::MemoryMode::OwnMemory);
    s.dimension.set(6);
    for (int c = 0; c < 2; ++c) {
        s.addPhrase(c, c ? "b" : "a");
        for (int i = 0; i < 4000; ++i) {
            V v;
            for (int d = 0; d < 6; ++d) v.push_back(std::sin(i * 0.7f * (d + 1)) + c);
            s.getPhrase(c)->record(v);
        }
    }
    xmm::GMM m;
    m.configuration.gaussians.set(4);
    m.configuration.multithreading = xmm::MultithreadingMode::Sequential;
    m.shared_parameters->em_algorithm_min_iterations.set(900);
    m.shared_parameters->em_algorithm_max_iterations.set(900);
    m.training_events.addListener(&listener, &L::on);
    std::thread t([&] { m.train(&s); });
    while (!started) std::this_thread::yield();
    m.cancelTraining();
    t.join();
    EXPECT(m.size() == 0);
    EXPECT(cancelled.size() == 2 && cancelled["a"] == 1 && cancelled["b"] == 1);
}""", flags="-DUSE_PTHREAD")

seed("p22_kmeans_observation", "C22",
 [("src/models/kmeans/xmmKMeans.cpp", "    if (observation.size() != shared_parameters->dimension.get())", "    if (observation.size() < shared_parameters->dimension.get())")],
 "filtering an observation with more values than the k-means model has dimensions",
 "the observation is taken for one of the right size", r"""
#include "xmmKMeans.hpp"
int main() {
    xmm::TrainingSet s;
    s.addPhrase(0, "a");
    for (int i = 0; i < 40; ++i) s.getPhrase(0)->record({std::sin(i * 0.7f)});
    xmm::KMeans m(2);
    m.initialization_mode = xmm::KMeans::InitializationMode::Biased;
    m.train(&s);
    m.filter({0.5f});
    auto d = m.results.distances;
    bool threw = false;
    try { m.filter({0.1f, 0.5f}); } catch (std::exception&) { threw = true; }
    EXPECT(threw);
    EXPECT(m.results.distances == d);
}""")

seed("p23_longer_array", "C23",
 [("src/core/common/xmmJson.cpp", "void xmm::json2vector(Json::Value const& root, std::vector<double>& a,\n                      unsigned int n) {\n    if (n == 0) return;\n    if (!root.isArray())\n        throw JsonException(JsonException::JsonErrorType::JsonTypeError);\n    if (root.size() != n)", "void xmm::json2vector(Json::Value const& root, std::vector<double>& a,\n                      unsigned int n) {\n    if (n == 0) return;\n    if (!root.isArray())\n        throw JsonException(JsonException::JsonErrorType::JsonTypeError);\n    if (root.size() < n)")],
 "a document in which an array of doubles (mean, covariance, coefficients) is longer than it should be",
 "the document is read, past the end of the vector", r"""
int main() {
    xmm::GaussianDistribution a(false, 2, 0);
    a.mean = {1., 2.};
    Json::Value v = a.toJson();
    v["covariance"].append(3.);
    bool threw = false;
    try { a.fromJson(v); } catch (std::exception&) { threw = true; }
    EXPECT(threw);
    EXPECT(a.mean == std::vector<double>({1., 2.}));
}""")

seed("p24_mean_distance", "C24",
 [("src/models/kmeans/xmmKMeans.cpp", "        meanClusterDistance /= float(clusters * (clusters - 1));", "        meanClusterDistance /= float(clusters * clusters);")],
 "a threshold that the relative variation of the centers passes between the two divisors",
 "the k-means algorithm stops at another iteration", r"""
#include "xmmKMeans.hpp"
int main() {
    const int N = 300, K = 5;
    xmm::TrainingSet s;
    s.addPhrase(0, "a");
    unsigned r = 12345;
    std::vector<float> x;
    for (int i = 0; i < N; ++i) {
        r = r * 1103515245u + 12345u;
        float u = (r >> 8 & 0xffff) / 65536.f;
        x.push_back(u * u * 3 + 0.001f * i);
        s.getPhrase(0)->record({x.back()});
    }
    // Lloyd's algorithm, run until the relative variation falls below the threshold
    for (float th = 0.5f; th > 1e-4f; th *= 0.95f) {
        double c[K] = {0};
        for (int i = 0; i < N; ++i) c[i / (N / K)] += x[i] / (N / K);
        for (int it = 0; it < 50; ++it) {
            double n[K] = {0}, m[K] = {0}, var = 0, mean = 0;
            for (float v : x) {
                int b = 0;
                for (int k = 1; k < K; ++k)
                    if (std::fabs(v - c[k]) < std::fabs(v - c[b])) b = k;
                n[b]++;
                m[b] += v;
            }
            for (int k = 0; k < K; ++k) {
                m[k] = n[k] ? m[k] / n[k] : c[k];
                var = std::max(var, std::fabs(m[k] - c[k]));
                c[k] = m[k];
            }
            for (int k = 0; k < K; ++k)
                for (int l = 0; l < K; ++l) mean += std::fabs(c[k] - c[l]);
            if (var / K / (mean / (K * (K - 1))) < th) break;
        }
        xmm::KMeans m(K);
        m.initialization_mode = xmm::KMeans::InitializationMode::Biased;
        m.configuration.relative_distance_threshold.set(th);
        m.train(&s);
        for (int k = 0; k < K; ++k) EXPECT(near(m.centers[k], c[k], 1e-4));
    }
}""")

seed("p26_phrase_indices", "C26",
 [(H1, "                            gamma_sequence_per_mixture_[phraseIndex][c]\n                                                       [t * numStates + i] *\n                            it->second->getValue(t, d);", "                            gamma_sequence_per_mixture_[it->first %\n                                                        trainingSet->size()][c]\n                                                       [t * numStates + i] *\n                            it->second->getValue(t, d);")],
 "a class whose phrases do not have consecutive indices from 0 in their set",
 "the means of the states are estimated with the state sequences of other phrases", r"""
int main() {
    xmm::HierarchicalHMM m[2];
    for (int u = 0; u < 2; ++u) {
        xmm::TrainingSet s;
        for (int p = 0; p < 3; ++p) {
            int at = u ? 2 * p : p;
            if (u) s.addPhrase(2 * p + 1, "other");
            s.addPhrase(at, "a");
            for (int i = 0; i < 20 + p; ++i) {
                s.getPhrase(at)->record({std::sin(i * 0.3f) + p});
                if (u) s.getPhrase(2 * p + 1)->record({std::sin(i * 0.3f) + p});
            }
        }
        m[u].configuration.states.set(3);
        m[u].configuration.multithreading = xmm::MultithreadingMode::Sequential;
        m[u].train(&s);
    }
    EXPECT(m[1].size() == 2);
    EXPECT(m[0].models.at("a").toJson() == m[1].models.at("a").toJson());
}""")

seed("p27_surrogates", "C27",
 [("dependencies/jsoncpp/src/json_reader.cpp", "bool Reader::decodeUnicodeCodePoint(Token& token,\n                                    Location& current,\n                                    Location end,\n                                    unsigned int& unicode) {\n\n  if (!decodeUnicodeEscapeSequence(token, current, end, unicode))\n    return false;\n  if (unicode >= 0xD800 && unicode <= 0xDBFF)", "bool Reader::decodeUnicodeCodePoint(Token& token,\n                                    Location& current,\n                                    Location end,\n                                    unsigned int& unicode) {\n\n  if (!decodeUnicodeEscapeSequence(token, current, end, unicode))\n    return false;\n  if (unicode >= 0xD800 && unicode < 0xDBFF)")],
 "a text with an escaped character at or above U+10FC00",
 "the character is read as another one", r"""
int main() {
    for (int i = 0; i < 2; ++i) {
        Json::Value v;
        const char* t = i ? "[\"\\uDBFF\\uDC00\"]" : "[\"\\uD83D\\uDE00\"]";
        EXPECT(Json::Reader().parse(t, v));
        EXPECT(v[0].asString() == (i ? "\xF4\x8F\xB0\x80" : "\xF0\x9F\x98\x80"));
    }
}""")

seed("p28_equal_limits", "C28",
 [(S1, "    if (shared_parameters->em_algorithm_max_iterations.get() >=\n        shared_parameters->em_algorithm_min_iterations.get())", "    if (shared_parameters->em_algorithm_max_iterations.get() >\n        shared_parameters->em_algorithm_min_iterations.get())")],
 "equal minimum and maximum numbers of iterations, and a percentage the log-likelihood has not reached by then",
 "the training goes on past its maximum number of iterations", r"""
int iterations = 0;
struct L {
    void on(xmm::TrainingEvent const& e) { if (e.status == xmm::TrainingEvent::Status::Run) iterations++; }
} listener;
int main() {
    xmm::TrainingSet s;
    s.addPhrase(0, "a");
    for (int i = 0; i < 200; ++i) s.getPhrase(0)->record({std::sin(i * 0.7f) + 2 * (i % 3)});
    xmm::GMM m;
    m.configuration.gaussians.set(3);
    m.shared_parameters->em_algorithm_percent_chg.set(1e-9);
    m.shared_parameters->em_algorithm_min_iterations.set(3);
    m.shared_parameters->em_algorithm_max_iterations.set(3);
    m.training_events.addListener(&listener, &L::on);
    m.train(&s);
    EXPECT(iterations == 3);
}""")

seed("p29_cut_file", "C29",
 [("src/core/common/xmmJson.hpp", "        if (reader.parse(inStream, root)) {\n            this->fromJson(root);", "        reader.parse(inStream, root);\n        if (!root.isNull()) {\n            this->fromJson(root);")],
 "reading a file that was cut while it was being written",
 "the object is silently replaced by the part of it that was written", r"""
int main() {
    char path[] = "/tmp/xmm_demo_XXXXXX";
    int fd = mkstemp(path);
    EXPECT(fd >= 0);
    close(fd);
    xmm::TrainingSet s;
    for (int p = 0; p < 3; ++p) {
        s.addPhrase(p, "a");
        for (int i = 0; i < 20; ++i) s.getPhrase(p)->record({float(i)});
    }
    s.writeFile(path);
    xmm::TrainingSet t;
    t.readFile(path);
    EXPECT(t.size() == 3);
    std::string text = s.__str__();
    bool refused = true;
    for (size_t cut = 0; cut < text.rfind('}'); ++cut) {
        { std::ofstream o(path, std::ios::trunc); o << text.substr(0, cut); }
        try { t.readFile(path); refused = false; } catch (std::exception const&) {}
    }
    unlink(path);
    EXPECT(refused);
    EXPECT(t.size() == 3 && t.getPhrase(2)->size() == 20);
}""", flags="-DSWIGPYTHON -include unistd.h -include fstream")

seed("p30_shared_scratch", "C30",
 [("src/models/gmm/xmmGmmSingleClass.cpp", "    std::vector<float> tmp_output_values(dimension_output, 0.0);\n\n    for (int c = 0; c < parameters.gaussians.get(); c++) {\n        components[c].regression(observation_input, tmp_output_values);",
   "    static std::vector<float> tmp_output_values;\n    tmp_output_values.assign(dimension_output, 0.0);\n\n    for (int c = 0; c < parameters.gaussians.get(); c++) {\n        components[c].regression(observation_input, tmp_output_values);")],
 "two bimodal mixtures, each used only by its own thread, regressing at the same time",
 "the regressions write their intermediate values into one buffer, so that one model's outputs appear in the other's", r"""
static void run(float offset, std::vector<float>& out) {
    xmm::TrainingSet s(xmm::MemoryMode::OwnMemory, xmm::Multimodality::Bimodal);
    s.dimension.set(6);
    s.dimension_input.set(1);
    s.addPhrase(0, "a");
    for (int i = 0; i < 60; ++i) {
        float x = i / 60.f;
        s.getPhrase(0)->record({x, x + offset, 2 * x + offset, offset - x, x * x + offset, offset});
    }
    xmm::GMM m(true);
    m.configuration.gaussians.set(2);
    m.train(&s);
    m.reset();
    for (int i = 0; i < 60000; ++i) {
        m.filter({(i % 60) / 60.f});
        out.insert(out.end(), m.results.output_values.begin(), m.results.output_values.end());
    }
}
int main() {
    std::vector<float> a, b, c, d;
    run(0.f, a);
    run(100.f, b);
    for (int k = 0; k < 5; ++k) {
        c.clear();
        d.clear();
        std::thread t([&] { run(0.f, c); });
        run(100.f, d);
        t.join();
        EXPECT(a == c && b == d);
    }
}""", flags="-include thread -pthread")

seed("p31_cleared_phrase", "C31",
 [("src/core/trainingset/xmmPhrase.cpp", "xmm::Phrase::~Phrase() {\n    if (own_memory_) {", "xmm::Phrase::~Phrase() {\n    if (own_memory_ && !empty_) {")],
 "a phrase that was recorded and is empty again (cleared) when it is destroyed",
 "the buffers of an empty phrase are taken for unallocated and never freed: recording, clearing and dropping phrases takes more and more memory", r"""
static long held = 0;
void* operator new[](std::size_t n) {
    char* p = static_cast<char*>(malloc(n + 16));
    if (!p) throw std::bad_alloc();
    *reinterpret_cast<std::size_t*>(p) = n;
    held += static_cast<long>(n);
    return p + 16;
}
void operator delete[](void* q) noexcept {
    if (!q) return;
    char* p = static_cast<char*>(q) - 16;
    held -= static_cast<long>(*reinterpret_cast<std::size_t*>(p));
    free(p);
}
void operator delete[](void* q, std::size_t) noexcept { operator delete[](q); }
static void cycle(bool clear) {
    xmm::Phrase both(xmm::MemoryMode::OwnMemory, xmm::Multimodality::Bimodal), one;
    both.dimension.set(5);
    both.dimension_input.set(2);
    for (int i = 0; i < 100; ++i) both.record({1, 2, 3, 4, 5});
    one.record({1});
    if (clear) {
        one.clear();
        both.clear();
        EXPECT(both.size() == 0);
    }
}
int main() {
    cycle(true);
    long before = held;
    for (int i = 0; i < 10; ++i) cycle(i % 2);
    EXPECT(held == before);
}""", flags="-include cstdlib -include new")

seed("p32_not_a_number", "C32",
 [("src/core/distributions/xmmGaussianDistribution.cpp", "    double p =\n        exp(-0.5 * euclidianDistance) /\n        sqrt(covariance_determinant_ * pow(2 * M_PI, double(dimension.get())));\n\n    if (p < 1e-180 || std::isnan(p) || std::isinf(fabs(p))) p = 1e-180;\n\n    return p;\n}\n\ndouble xmm::GaussianDistribution::likelihood_input(",
   "    double p =\n        exp(-0.5 * euclidianDistance) /\n        sqrt(covariance_determinant_ * pow(2 * M_PI, double(dimension.get())));\n\n    p = std::min(std::max(p, 1e-180), std::numeric_limits<double>::max());\n\n    return p;\n}\n\ndouble xmm::GaussianDistribution::likelihood_input(")],
 "one frame with a value that is not a number (a dropout of the sensor) in a stream",
 "the density of the frame is not a number either: the model reports NaN likelihoods, and an HMM keeps them for all frames to come", r"""
int main() {
    xmm::TrainingSet s;
    s.dimension.set(2);
    for (int c = 0; c < 2; ++c) {
        s.addPhrase(c, c ? "b" : "a");
        for (int i = 0; i < 40; ++i) s.getPhrase(c)->record({c * 3 + std::sin(i * 0.3f), std::cos(i * 0.2f)});
    }
    for (int h = 0; h < 2; ++h) {
        xmm::HierarchicalHMM m;
        m.configuration.states.set(4);
        m.configuration.hierarchical.set(h);
        m.train(&s);
        m.reset();
        for (int i = 0; i < 20; ++i) {
            std::vector<float> x(s.getPhrase(1)->getPointer(i), s.getPhrase(1)->getPointer(i) + 2);
            if (i == 5) x[1] = NAN;
            m.filter(x);
            for (double v : m.results.smoothed_normalized_likelihoods) EXPECT(v >= 0 && v <= 1);
            EXPECT(std::isfinite(m.results.smoothed_log_likelihoods[0]));
        }
        EXPECT(m.results.likeliest == "b");
    }
}""", flags="-include cmath")
