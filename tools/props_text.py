TESTS = "The nine stable tests cover JSON round trips of one or two fixed objects and diagonal-covariance training on one fixed data set; "

prop("C01", "A recorded phrase holds exactly the frames the recording history put in it",
 "For any sequence of recording calls on a phrase that owns its data (joint, input-only and output-only frames, vectors of a wrong size, clearing one or both modalities, changing dimensions, copying and assigning), the phrase's length, its per-modality lengths, its emptiness and every value it returns are those a plain list of the accepted frames would give: joint length is the longer modality, missing values read as zero, indices out of range and calls that do not fit the phrase's modality or memory mode are refused with an exception that changes nothing. Growth of the storage never changes, loses or duplicates a recorded frame.",
 "histories inputs", "every sequence of record/recordInput/recordOutput/clear/clearInput/clearOutput/set dimensions/copy/assign calls, for one or two modalities and any dimensions",
 TESTS + "none records more than a few frames, interleaves modalities, reallocates or copies while recording.",
 "phrase", [("growing arrays trim/reallocate", "src/core/trainingset/xmmPhrase.cpp")], ["Phrase::getValue", "Phrase::size", "Phrase::inputSize", "Phrase::outputSize", "Phrase::getPointer"],
 "Model-based histories (list-of-frames reference) of up to ~60 calls, dimensions 1-8; memory errors through ASan. Bounded by the random sample.")

prop("C02", "A phrase or training set on shared memory is a faithful view of the host's array",
 "A phrase connected to a host array returns, for every frame and dimension within the connected length, the value presently stored in that array, follows later writes by the host, reports exactly the connected length per modality, and never writes to, frees or reads outside it; disconnecting or reconnecting takes effect at once and any recording call is refused. The same holds for phrases held by a shared-memory training set and for copies of such phrases, which share the same array.",
 "histories inputs", "every sequence of connect/disconnect/reconnect/host writes/reads/copies, one or two modalities, any lengths including zero",
 TESTS + "none uses shared memory at all.",
 "phrase ts", [("own_memory_ guards", "src/core/trainingset/xmmPhrase.cpp")], ["Phrase::connect", "Phrase::getValue", "TrainingSet"],
 "Model-based histories with host arrays allocated at their exact size, so any access outside is an ASan report.")

prop("C03", "A training set's phrases, labels and per-class subsets always agree with its edit history",
 "After any sequence of edits (adding, re-adding, removing and clearing phrases, removing a class, renaming labels through the phrase or through the set, renaming to an existing label, changing dimensions, loading, copying), the set holds exactly the phrases the edits left, its label set is exactly the labels present, each class subset holds exactly the phrases of that label under the same index and sees the same data, and the index returned for a new phrase is not in use. Lookups and removals of absent phrases or classes leave the set unchanged.",
 "histories", "every sequence of training-set edits interleaved with recordings through any pointer obtained from the set or from a class subset",
 TESTS + "the training-set test only saves and reloads one fixed set.",
 "ts phrase", [("label listener and sub training sets", "src/core/trainingset/xmmTrainingSet.cpp update()")], ["TrainingSet::getPhrase", "TrainingSet::labels", "TrainingSet::getPhrasesOfClass", "TrainingSet::addPhrase"],
 "Model-based histories against a map index->(label, frames).")

prop("C04", "Copies of any object are equal at first and independent afterwards",
 "Copying or assigning a phrase, training set, Gaussian distribution, shared parameters, GMM (or one of its classes), hierarchical HMM or k-means object (at rest) yields an object that answers everything as the source does: same data, configuration, parameters and recognition and regression results. From then on, any change to one (recording, editing, configuring, training, filtering, destroying) never changes what the other answers, and both remain safe to use after the other is destroyed.",
 "histories", "every object reachable by configuration/training/filtering, every later sequence of operations on either side, in either destruction order",
 TESTS + "none copies a model or uses a copy after changing or destroying its source.",
 "phrase ts gauss model single gmm gmm1 hmm hmm1 km shared conf", [("user-written copy constructors and assignments of all classes", "src/")], ["toJson", "filter", "results", "parameters"],
 "Twin histories: an untouched object rebuilt from the same choices is the oracle for both sides of each copy.")

prop("C05", "Set statistics, rescaling and normalisation equal their definitions on the data",
 "The mean, standard deviation and minimum/maximum a phrase or training set reports equal their mathematical definitions over exactly the frames it holds (for a set, over all its phrases' frames; the minimum and maximum of a set are over all the values recorded in each modality, also when one is recorded ahead of the other), for each dimension. Rescaling by an offset and gain and normalising map every value by exactly that affine map and nothing else, for one or two modalities, so a normalised set has zero mean and unit standard deviation in every dimension that varies.",
 "inputs", "every set of phrases of any lengths (empty ones included), any dimensions and value ranges",
 TESTS + "no statistic is ever compared with its definition.",
 "phrase ts", [("mean/standardDeviation/minmax/rescale/normalize", "src/core/trainingset")], ["TrainingSet::mean", "TrainingSet::standardDeviation", "TrainingSet::minmax", "Phrase::rescale", "TrainingSet::normalize"],
 "Reference computed in long double; relative tolerance covers single-precision storage.")

prop("C06", "Saving and reloading a phrase or training set gives back the same data",
 "Writing any phrase or training set to JSON, passing through JSON text, and loading into any other phrase or set (whatever it held before) gives back the same modality, dimensions, lengths, labels, column names, indices and values to single precision, and the loaded object then behaves like the original under further recording and editing. Writing the loaded object again gives the same JSON.",
 "inputs histories", "every phrase and training set reachable by recording and editing, written and read through text, into any target",
 TESTS + "two fixed objects are reloaded, into fresh targets, and not used afterwards.",
 "phrase ts json", [("toJson/fromJson", "src/core/trainingset")], ["toJson", "fromJson", "getValue"],
 "Round trip plus continued model-based use of the loaded object.")

prop("C07", "A Gaussian's densities are the mathematical densities, for every mode and dimension",
 "For every mean and positive-definite covariance, full or diagonal, the likelihoods a Gaussian distribution returns (joint, input-only, and joint from separate modalities) equal the multivariate normal density (marginal density for input-only) up to rounding, and are floored at a small positive constant so they are always finite and positive. Regularisation adds exactly the given amounts to the variances, and a singular covariance is reported with an exception, never as a wrong number.",
 "inputs", "all dimensions 1-8, conditionings, modes, observations near and far",
 TESTS + "densities are only exercised through one trained model with diagonal covariance and are not compared with the definition.",
 "gauss matrix", [("updateInverseCovariance, likelihood*", "src/core/distributions/xmmGaussianDistribution.cpp")], ["likelihood", "likelihood_input", "likelihood_bimodal", "regularize"],
 "Independent long-double LU reference; tolerance scaled by the conditioning.")

prop("C08", "Gaussian regression is the conditional expectation of the output given the input",
 "For every bimodal Gaussian with positive-definite covariance, the regression output for an input equals the conditional mean of the output modality given that input (the output mean in diagonal mode), and the reported output covariance equals the conditional covariance (the output variances in diagonal mode). Regression calls leave the distribution unchanged and are refused on unimodal distributions.",
 "inputs", "all splits of dimensions 2-8, modes, inputs",
 TESTS + "regression results are not compared with the conditional expectation.",
 "gauss matrix", [("regression, updateOutputCovariance", "src/core/distributions/xmmGaussianDistribution.cpp")], ["regression", "output_covariance"],
 "Independent long-double reference.")

prop("C09", "Switching covariance modes and editing ellipses keep a Gaussian coherent",
 "After any sequence of covariance-mode settings (including to the active mode), ellipse edits, regularisations and copies, a Gaussian's mean and covariance are what those edits define (a switch to diagonal keeps the variances, a switch to full keeps them and zeroes the covariances, the active mode changes nothing) and everything it answers follows from them. The ellipse read from a pair of dimensions has the axes and angle of the 95% confidence region, and writing it back restores the covariance.",
 "histories inputs", "every sequence of mode settings, ellipse edits, regularisations and copies; every 2x2 covariance block",
 TESTS + "no mode is ever switched on a populated distribution and ellipses are untested.",
 "gauss", [("onAttributeChange, toEllipse, fromEllipse", "src/core/distributions/xmmGaussianDistribution.cpp")], ["covariance_mode", "toEllipse", "fromEllipse", "covariance"],
 "Model-based histories with a long-double reference.")

prop("C10", "Matrix operations satisfy the algebra they are named after",
 "For every real matrix (single or double precision, own or shared storage), products, transposes, row/column swaps and sums equal their definitions, the inverse times the matrix is the identity with the exact determinant (sign included), the pseudo-inverse satisfies the Moore-Penrose equations on full-rank rectangular matrices, and non-invertible, non-square or mismatching arguments are refused with an exception. Operands are never modified, and copying or resizing a matrix keeps it valid and independent.",
 "inputs histories", "all shapes up to 8x8, permutations, zero pivots, conditionings, storage modes",
 TESTS + "matrices are never tested directly.",
 "matrix", [("gauss_jordan_inverse, pinv", "src/core/common/xmmMatrix.hpp")], ["product", "transpose", "pinv", "gauss_jordan_inverse", "resize"],
 "Long-double reference, tolerance scaled by conditioning.")

prop("C11", "Training a GMM is expectation-maximisation from the documented initialisation",
 "Training a Gaussian mixture on any training set starts from the documented initial estimate (means from a k-means seeded with evenly spread segments, covariances of those segments, equal weights) and every iteration performs exactly one expectation-maximisation step on all frames of the class (responsibilities, weights, means, and full or diagonal covariances plus regularisation by the larger of the absolute and the relative amount per dimension), reporting the log-likelihood of the data under the current estimate. Every trained mixture is well formed: weights sum to one, means lie within the data, covariances are symmetric and at least the regularisation on the diagonal, and every class of the set is trained with the dimensions of the set.",
 "inputs", "every set of phrases (lengths at least the number of components), one or two modalities, any configuration, any number of iterations",
 TESTS + "training runs on one data set and only its JSON is compared with itself.",
 "gmm gmm1 km", [("emAlgorithmInit/emAlgorithmUpdate", "src/models/gmm/xmmGmmSingleClass.cpp"), ("k-means initialisation", "src/models/kmeans/xmmKMeans.cpp")], ["GMM::train", "components", "mixture_coeffs", "training_events"],
 "Training n and n+1 iterations must differ by one independently written long-double EM step; initialisation compared with a reference for one iteration. Tolerances scaled by conditioning; sets where a component vanishes are discarded (counted).")

prop("C12", "Training an HMM is Baum-Welch estimation from the documented segmental initialisation",
 "Training a hidden Markov model on any training set starts every state from a Gaussian mixture of that state's share of each phrase with the topology's standard transitions (left-right or ergodic), and every iteration is one Baum-Welch step over all phrases of the class: state and mixture occupancies, means, regularised covariances, mixture weights, priors and transitions, with the reported log-likelihood that of the phrases. Every trained model is well formed: transition rows and priors are probability distributions, a left-right model never skips or goes back, all parameters are finite, covariances are symmetric and regularised, and the class-level prior and transitions are uniform over the trained classes.",
 "inputs", "every set of phrases long enough for the states, either topology, 1-6 states, 1-2 components, one or two modalities, any number of iterations",
 TESTS + "one data set is trained and only its JSON is compared with itself.",
 "hmm hmm1 gmm1 km", [("emAlgorithmInit, baumWelch_*", "src/models/hmm/xmmHmmSingleClass.cpp"), ("updateTransitionParameters", "src/models/hmm/xmmHierarchicalHmm.cpp")], ["HierarchicalHMM::train", "states", "transition", "prior", "training_events"],
 "Full run compared with an independent long-double Baum-Welch (GMMs of the segments from the library's own GMM, itself decided by C11). Up to 3 iterations because parameters are stored in single precision.")

prop("C13", "GMM recognition reports the mixture likelihoods, their sliding mean and the likeliest class",
 "For every trained GMM and every sequence of observations, each class's instantaneous likelihood is the density of the (input) observation under that class's mixture; its smoothed log-likelihood is the mean of the log-likelihoods over the last frames of the configured window since the last reset; the normalised likelihoods are these divided by their sum over all classes (so they sum to one); and the reported likeliest class is the one with the largest smoothed likelihood. Component responsibilities are the posterior probabilities of the components. A class used on its own answers as it does within the group.",
 "inputs histories", "every trained or hand-parameterised model (1-4 classes, 1-4 components, class-specific configurations), every observation sequence, window and reset",
 TESTS + "no recognition result is compared with a reference.",
 "gmm gmm1 model single gauss", [("filter/updateResults", "src/models/gmm/xmmGmm.cpp"), ("likelihood", "src/models/gmm/xmmGmmSingleClass.cpp")], ["GMM::filter", "results"],
 "Independent long-double reference over the model's parameters, frame by frame.")

prop("C14", "GMM regression is the posterior-weighted conditional expectation, combined over classes as configured",
 "For every trained bimodal GMM and every input sequence, each class's output is the sum over components of the posterior probability of the component times its conditional mean, with covariance the posterior-squared weighted conditional covariances; the model's output and covariance are those of the likeliest class, or the average over classes weighted by the normalised smoothed likelihoods, according to the configured estimator, including when classes use different covariance modes. Unimodal models report no output.",
 "inputs histories", "every trained or hand-parameterised bimodal model, both estimators, both covariance modes, class-specific configurations",
 TESTS + "regression outputs are never checked.",
 "gmm gmm1 gauss", [("regression", "src/models/gmm/xmmGmmSingleClass.cpp"), ("filter", "src/models/gmm/xmmGmm.cpp")], ["GMM::filter", "results.output_values", "results.output_covariance"],
 "Independent long-double reference; tolerance scaled by conditioning.")

prop("C15", "Non-hierarchical HMM recognition is scaled forward filtering of each class",
 "For every trained non-hierarchical HMM group and every observation sequence since the last reset, each class's state probabilities are the normalised forward probabilities under its prior or left-right start, its transitions (with the cyclic return) and its state densities; its instantaneous likelihood is the likelihood of the current frame given the past; and smoothed, normalised likelihoods, the likeliest class, the likeliest state and the time progression (centroid of the state probabilities around the likeliest state, in 0..1) follow from them by their definitions.",
 "inputs histories", "every trained or hand-parameterised model (1-3 classes, 1-5 states, both topologies, class-specific configurations), every observation stream, window and reset",
 TESTS + "no recognition result is checked.",
 "hmm hmm1 model single", [("forward_init/forward_update/updateAlphaWindow/updateResults", "src/models/hmm/xmmHmmSingleClass.cpp")], ["HierarchicalHMM::filter", "results", "alpha"],
 "Independent long-double forward filter. A stream is compared up to the frame where a state's relative mass gets below 1e-120 (double precision underflow regime).")

prop("C16", "Hierarchical HMM recognition is the two-level forward recursion over all classes",
 "For every trained hierarchical HMM and every observation sequence since the last reset, the probabilities of staying in, leaving to a sibling or leaving to the root, for every state of every class, are those of the two-level forward recursion with the class priors, class transitions, exit transitions, state exit probabilities and the classes' own transitions and densities, normalised over all classes; instantaneous, smoothed and normalised likelihoods, likeliest class and state, time progression, exit likelihood and exit ratio follow from them by their definitions, from the first frame on.",
 "inputs histories", "every trained or hand-parameterised model (1-4 classes, 1-5 states, both topologies), exit points, every observation stream, window and reset",
 TESTS + "no recognition result is checked.",
 "hmm hmm1 model single", [("forward_init/forward_update", "src/models/hmm/xmmHierarchicalHmm.cpp")], ["HierarchicalHMM::filter", "results", "alpha_h", "addExitPoint"],
 "Independent long-double recursion; same underflow rule as C15.")

prop("C17", "HMM regression is the state-weighted mixture regression selected by the configured estimator",
 "For every trained bimodal HMM and every input sequence, each class's output is the average of its states' conditional expectations weighted by the normalised state probabilities: over all states (full), over the window around the likeliest state (windowed), or of the likeliest state alone; the reported covariance is the squared-weight average of the states' covariances. The model's output follows the configured combination over classes. This holds in hierarchical and non-hierarchical mode, with class-specific estimators and covariance modes.",
 "inputs histories", "every trained or hand-parameterised bimodal model, three estimators, both modes, both combinations",
 TESTS + "regression outputs are never checked.",
 "hmm hmm1 gmm1 gauss", [("regression", "src/models/hmm/xmmHmmSingleClass.cpp"), ("filter", "src/models/hmm/xmmHierarchicalHmm.cpp")], ["HierarchicalHMM::filter", "results.output_values", "results.output_covariance"],
 "Independent long-double reference on top of the forward references; frames with tied likeliest states are skipped for the two estimators that depend on them.")

prop("C18", "Answers depend only on configuration, training data and the frames since the last reset",
 "For every GMM and hierarchical HMM, after a reset the results for any stream of observations are exactly those a fresh copy of the trained model gives, whatever was filtered before; recognition never changes the model's parameters; training replaces everything earlier use left behind (earlier trainings with other data, dimensions or configurations, resets, clears, reloads, copies), giving exactly the model a new object trained on the same set gives; and no answer ever depends on what uninitialised memory happens to contain.",
 "histories inputs", "every trained model, every stream before and after a reset, every history of trainings/clears/reloads/copies before a training, different contents of fresh memory",
 TESTS + "no model is ever reset, retrained or run twice.",
 "model single gmm gmm1 hmm hmm1 shared conf circ", [("reset", "src/core/model/xmmModel.hpp"), ("forward_initialized_, likelihood_buffer_", "src/models, src/core/model"), ("emAlgorithmInit/allocate", "src/models")], ["filter", "reset", "results", "train", "toJson"],
 "Metamorphic (exact) comparison with a fresh copy, with a new model, and of whole lives under three fills of allocated memory and stack (operator new overridden in the harness).")

prop("C19", "Saving and reloading a model gives back the same model",
 "Writing any GMM, hierarchical HMM, k-means model, class or parameter object (trained or not) to JSON and loading it, directly or through JSON text, into any other object of its kind (new, or trained earlier on other data) gives a model with the same shared parameters, configuration (defaults and class-specific), class labels and class parameters to the written precision, which gives the same recognition and regression results on every later stream; writing it again gives the same JSON.",
 "inputs histories", "every model reachable by configuring and training (class-specific configurations, odd labels, both modalities), every target object, every later stream",
 TESTS + "models of one data set are reloaded into fresh objects, and no recognition follows.",
 "gmm gmm1 gmmp hmm hmm1 hmmp km model single shared conf gauss json", [("toJson/fromJson", "src/models, src/core"), ("vector/array/matrix conversions", "src/core/common/xmmJson.hpp")], ["toJson", "fromJson", "filter", "results"],
 "Round trip; numbers compared to the precision the writer keeps, results to a tolerance scaled accordingly.")

prop("C20", "Training gives the same models and events in every threading mode, and cancelling it is safe",
 "Training sequentially, in parallel or in background gives the same models, results and, per class, the same sequence of events (one Run per iteration with its iteration, log-likelihood and progression, then one of Done, Cancel or Error), followed by exactly one Alldone once every class has ended, all sent for the model being trained and never two at a time. At any moment of a training, cancelling all or one class, removing a class, training again, clearing or destroying the model (and cancelling a blocking training from another thread) returns, leaves no thread behind and leaves exactly the classes that were done, each as an undisturbed sequential training gives it; the model can then be used and trained again. While a model trains, filtering, resetting, querying and copying it are refused with an exception. No schedule shows a data race.",
 "schedules histories", "every training set and configuration, 1-4 classes, every schedule of the training threads and every moment and sequence of cancel/train/remove/clear/destroy calls",
 TESTS + "training always runs to its end in one schedule.",
 "model single gmm gmm1 hmm hmm1 events", [("train/cancelTraining/joinTraining/finishTraining/onTrainingEvent", "src/core/model/xmmModel.hpp"), ("train/cancelTraining", "src/core/model/xmmModelSingleClass.cpp")], ["train", "cancelTraining", "training", "training_events", "removeClass"],
 "Sampled schedules (generated interference times and listener delays) on 8 cores, under ASan and again under ThreadSanitizer; oracle is the sequential training. Failures of a schedule are reported even when the replay does not show them again every time.")

prop("C21", "A model holds exactly the classes trained and not removed, each as if trained alone",
 "After any history of training all classes or one class, removing classes, clearing, copying and changing the default or class-specific configuration, a GMM or HMM holds exactly the classes that were trained and not removed since, each with the parameters that training that class alone, on its own phrases, with the configuration and iteration settings in force at that time (its class-specific one if it has one, else the default) gives; indices, size and result vectors agree with them, and recognition and regression are those of a new model holding these classes. Training or removing an absent class, or training with other dimensions, is refused with an exception and changes nothing. Names are only names: renaming classes or renumbering phrases renames the results and changes no value.",
 "histories inputs", "every history of train/train one/remove/clear/copy/configure operations over several training sets, every renaming of classes and phrases",
 TESTS + "only one training of all classes is run, always with the default configuration.",
 "model single gmm hmm conf ts", [("train(set, label), removeClass, clear, addModelForClass", "src/core/model/xmmModel.hpp"), ("addClass/removeClass/updateTransitionParameters", "src/models/hmm/xmmHierarchicalHmm.cpp"), ("operator[], reset", "src/core/model/xmmModelConfiguration.hpp")], ["train", "removeClass", "clear", "hasClass", "getIndex", "size", "results", "toJson"],
 "Exact comparison with a new model in which each class is trained alone, after every operation. The hierarchical mode of HMMs is fixed within a history.")

prop("C22", "Settings outside their range and calls that cannot be served are refused and change nothing",
 "For every parameter object (GMM, HMM, k-means, shared parameters, configurations, class parameters of trained models) and every phrase, training set and Gaussian, setting a value outside its documented range raises an exception and leaves every setting as it was, every value inside is accepted and read back, and dimensions keep the input dimension below the dimension through any sequence of changes, copies and modality changes. Calls that cannot be served (training or removing absent classes, other dimensions, exit points that do not exist, filtering an untrained k-means or with wrong sizes, regression or ellipses a Gaussian cannot give, recording to or clearing memory the phrase does not own, connecting memory it owns or the wrong modality, observations of another size, reading past the last frame or dimension) raise an exception and change neither the object's parameters and data nor its later results nor its later training.",
 "inputs histories", "every sequence of valid and invalid settings and calls, on untrained and trained models, between frames",
 TESTS + "no invalid value is ever set.",
 "attr shared conf gmmp hmmp km phrase ts gauss model hmm1 hmm", [("checkLimits, setLimits", "src/core/common/xmmAttribute.hpp"), ("onAttributeChange", "src/core, src/models"), ("argument checks", "src/core/model/xmmModel.hpp, src/models")], ["set", "get", "train", "removeClass", "addExitPoint", "toEllipse", "filter", "toJson"],
 "A model that saw the refused calls is compared exactly with a twin that did not.")

prop("C23", "A document is either refused, leaving the object as it was, or gives an object that works",
 "Loading any JSON document (members missing, of other types, repeated, with negative or inconsistent sizes, arrays of other lengths, other enumeration values, parts of other documents, or text damaged anywhere) into a phrase, training set, Gaussian distribution, parameter or configuration object, class, GMM, hierarchical HMM or k-means model either raises an exception and leaves the object answering exactly as before, or succeeds; the object is then consistent (classes and components of the model's own dimensions and sizes, phrases of the set's dimensions), can be written, copied and loaded again from its own document, and can be recorded into, filtered with, reset, edited and trained without undefined behaviour.",
 "inputs", "every mutation of the document of every object of every kind, at any depth, and of its text; every target object",
 TESTS + "only the library's own documents are ever read.",
 "phrase ts gauss shared conf gmmp hmmp km gmm1 gmm hmm1 hmm json", [("constructors from JSON and fromJson", "src"), ("json2vector, json2array", "src/core/common/xmmJson.hpp")], ["fromJson", "toJson", "filter", "train", "record"],
 "Structure-aware mutation of real documents (and libFuzzer over the same generator in the thorough tier); ASan and UBSan decide undefined behaviour. Sizes above 300 announced by a document are outside the domain.")

prop("C24", "K-means training is Lloyd's algorithm from the documented start, and filtering reports distances and the closest cluster",
 "For every training set and configuration, training a k-means model from the biased start (the means of the K equal segments of the first phrase) gives the centers of Lloyd's algorithm over all frames of all phrases (each center becomes the mean of the frames closest to it; a center that attracts none stays), run until the centers' variation relative to their distances falls below the threshold or the iterations are used up, whatever the model was trained on before; from a random start and without limits it ends with finite centers each of which is the mean of the frames closest to it. Filtering any observation reports its Euclidean distance to every center and the closest one, and changes no center; an observation of another dimension, or any observation while the configured number of clusters is not the one the model was trained with, is refused with an exception, and training without phrases does nothing: neither changes the model.",
 "inputs histories", "every training set (1-4 dimensions, empty phrases, constant dimensions, coinciding frames), 1-6 clusters, both starts, every threshold and iteration limit, every observation",
 TESTS + "k-means is run once on one data set and only its number of clusters is looked at.",
 "km model shared", [("initClustersWithFirstPhrase, randomizeClusters, updateCenters, train, filter", "src/models/kmeans/xmmKMeans.cpp")], ["train", "filter", "centers", "results"],
 "Independent long-double Lloyd; runs in which a frame is at the same distance of two clusters to single precision, or the threshold decides within rounding, are compared for filtering only.")

prop("C25", "Attributes keep limits and notify listeners; events reach every listener once; circular buffers hold the last elements",
 "For every sequence of operations: a scalar or vector attribute accepts exactly the values within its limits (and of its size), otherwise throws and keeps its value, marks itself changed and notifies its listener exactly once per accepted set unless silent; an event generator delivers each notification exactly once to each listener registered at that moment, including listeners that add or remove listeners while being notified, and to none removed; a circular buffer returns the most recent elements in order and their mean, whatever its length changes.",
 "histories inputs", "every operation sequence on attributes of each type, listeners that change the listener list, and buffers of any length and width",
 TESTS + "these utilities are only used indirectly.",
 "attr events circ", [("Attribute::set, checkLimits", "src/core/common/xmmAttribute.hpp"), ("EventGenerator::notifyListeners", "src/core/common/xmmEvents.hpp"), ("CircularBuffer", "src/core/common/xmmCircularbuffer.hpp")], ["set", "get", "notifyListeners", "push", "mean"],
 "Model-based against plain containers.")

prop("C26", "A model depends on the labelled frames only: not on how the set stores or came by them, nor on the unit they are in",
 "Training any model (GMM, HMM; single or bimodal; any configuration) on the same phrases gives the same model and the same results whether the frames were recorded, are in the host's arrays (shared memory, input and output connected together or apart), came through copies, JSON, phrases added by value or by pointer, edits of the set (phrases added, removed, cleared, relabelled, inserted out of order), all classes at once or one at a time; training changes neither the set nor the host's arrays, and the model needs neither afterwards. Expressing all data in a unit 2^k times smaller, with the regularisation converted, scales means by 2^k and covariances by 4^k and leaves coefficients, transitions and normalized likelihoods as they are.",
 "inputs histories", "every labelled set and configuration; every way of storing and editing it; units: data whose variances are above 1e-8 and densities off the library's floor",
 TESTS + "every test records its set in one way into memory of its own, and no two trainings are compared.",
 "ts phrase model single gmm1 hmm1 gauss", [("addPhrase, getPhrasesOfClass, update", "src/core/trainingset/xmmTrainingSet.cpp"), ("connect, getValue, getPointer", "src/core/trainingset/xmmPhrase.cpp"), ("initMeansWithAllPhrases, regularize", "src/models/hmm/xmmHmmSingleClass.cpp"), ("initMeansWithKMeans, updateCovariances", "src/models/gmm/xmmGmmSingleClass.cpp")], ["train", "TrainingSet", "Phrase", "connect", "addPhrase", "relative_regularization", "absolute_regularization"],
 "Metamorphic: exact comparison of the model's text for every way of storing; scaled comparison for units, away from the density floor and from the inversion's absolute threshold, which do not scale by design.")

prop("C27", "JSON text is read back as the document that was written, and any text is read safely or refused",
 "Every JSON document (nulls, booleans, integers of 64 bits, finite doubles, strings and names of any Unicode text with every control character, arrays and objects nested in any way) written by any of the bundled JSON library's writers (compact, styled, stream, any indentation) is read back by each of its readers as the same document, numbers bit for bit. Every standard JSON text (any white space, escape or number format, and comments where allowed) is read with its meaning. Any other sequence of bytes is refused with a reason or read as a document that can be written and read again, without touching memory outside the text. Values behave as the nested lists and maps they hold under every sequence of assigning, swapping, copying, appending, resizing, inserting, removing and comparing, and tell exactly which integer types hold them. Arrays and vectors of every type the library stores (floats, doubles, integers, booleans, texts) are written as JSON arrays and read back exactly; documents of another length or kind are refused and change nothing.",
 "inputs histories", "every document up to some hundred values, every writer and reader and their settings, every spelling of a text, every damage to it, every operation sequence on values",
 TESTS + "only documents of two fixed objects are written and read.",
 "jsoncpp", [("FastWriter, StyledWriter, StyledStreamWriter, BuiltStyledStreamWriter", "dependencies/jsoncpp/src/json_writer.cpp"), ("Reader, OurReader: readToken, decodeNumber, decodeString, decodeUnicodeCodePoint", "dependencies/jsoncpp/src/json_reader.cpp"), ("Value", "dependencies/jsoncpp/src/json_value.cpp")], ["Json::FastWriter", "Json::StyledWriter", "operator<<", "Json::Reader::parse", "Json::CharReader::parse", "Json::Value"],
 "Own document model, generator of texts and comparison. Outside: infinities and not-a-numbers, the sign of zero, comments through the styled writers, names with a zero byte through the styled writers.")

prop("C28", "Training runs the iterations its stop rule says, reports each, and a class that cannot be trained spoils no other",
 "For every GMM and HMM, training set and configuration, each class is trained for the first number of iterations the settings in force allow to stop at: the maximum when it is not below the minimum, otherwise the first at or after the minimum at which the log-likelihood changed by no more than the percent given, never more than 1000. Each iteration is reported once, numbered from 1, with the log-likelihood of that iteration and the part of the planned iterations done, then Done; the parameters are those of exactly that many iterations. A class whose phrases are all empty ends with Error and is removed; whatever a class's data are (not numbers, infinite), the training returns and every other class has the parameters, events and results of a training without it.",
 "inputs histories", "every training set, configuration and stop setting (minimum, maximum below, at and above it, percent, zero percent), changed between trainings; any subset of classes empty or holding NaN or infinities",
 TESTS + "only the default stop settings are used, no event is looked at and no class ever fails.",
 "single model shared gmm1 hmm1 events", [("train, emAlgorithmHasConverged, emAlgorithmTerminate", "src/core/model/xmmModelSingleClass.cpp"), ("onTrainingEvent, joinTraining", "src/core/model/xmmModel.hpp")], ["train", "training_events", "em_algorithm_min_iterations", "em_algorithm_max_iterations", "em_algorithm_percent_chg", "toJson"],
 "The rule is recomputed from the reported log-likelihoods (whose values C11 and C12 decide); exact comparison with a training of a fixed number of iterations and with a training without the failing classes. HMMs of several components per state are not compared with a fixed number, because the mixtures that start their states follow the same settings.")

prop("C29", "What is written to a file is read back from it, and a file that cannot be read or written is reported",
 "For every object that can be written (phrase, training set, Gaussian, shared, class and model parameters, GMM, hierarchical HMM, k-means, single classes), writing it to a file, over whatever the file held before, gives a file that holds the object's JSON document and nothing else; reading it into any object of the kind gives the same object as loading that document (content, answers, and the file it writes in turn), whatever bytes its labels and names hold; the printed form is that document too, and neither writing, printing nor reading changes the object written or the file read. A file that is absent, cut short at any byte or otherwise no document is refused with an exception and leaves the object exactly as it was, and a file that cannot be written is reported with an exception.",
 "inputs faults", "every object reachable by recording, configuring and training, every target object, every earlier content of the file, every cut and every lost structural character, missing and full devices",
 TESTS + "JSON values are converted in memory only; no file is written or read and the file interface of the bindings is not even compiled.",
 "json jsoncpp phrase ts single shared conf", [("writeFile, readFile, __str__", "src/core/common/xmmJson.hpp"), ("Reader::parse(std::istream &)", "dependencies/jsoncpp/src/json_reader.cpp")], ["writeFile", "readFile", "__str__", "toJson", "fromJson"],
 "The file interface is compiled in (SWIGPYTHON) for this harness only. Cuts and missing characters are generated, faults of the device are a missing directory, a directory and a full device. Configurations and class parameters of HMMs are not writable to files.",
 technique="property-based testing with generated faults: round trip through files and differential against loading the document, cut and damaged files, under ASan/UBSan")

prop("C30", "Objects used in different threads do not disturb each other, and threads can read one set or model together",
 "Whatever objects of the library several threads use at once (models being configured, trained in any mode, filtered, copied, saved and loaded; k-means; distributions; training sets and phrases being recorded, edited and measured; JSON documents being written and read; attributes, buffers, matrices), each thread that uses only objects of its own sees exactly what it sees when it runs alone: there is no state behind the objects that they share. Any number of threads may at once read the same training set or trained model that none of them changes (copying it, saving it, asking for its classes, statistics, values, densities and regressions, training models of their own from it), each with the answers it gets alone, and reading changes nothing.",
 "schedules", "2 to 4 threads with generated programs over every kind of object; k-means with a random start excepted (it draws from the process's generator)",
 TESTS + "the multithreading test trains one model at a time.",
 "model single ts phrase gmm gmm1 hmm hmm1 gauss km jsoncpp json", [("train, filter, copy", "src/core/model/xmmModel.hpp"), ("SingleClassGMM", "src/models/gmm/xmmGmmSingleClass.cpp"), ("SingleClassHMM", "src/models/hmm/xmmHmmSingleClass.cpp"), ("Reader::parse", "dependencies/jsoncpp/src/json_reader.cpp")], ["train", "filter", "toJson", "fromJson", "TrainingSet", "Phrase", "KMeans", "GaussianDistribution"],
 "Differential: the same generated program alone and beside others; each case under ASan and under ThreadSanitizer, which reports a shared access whether or not it changed an answer. Schedules are sampled, not enumerated.",
 technique="property-based testing of generated concurrent programs: differential against running alone, under ASan and ThreadSanitizer")

prop("C31", "Objects give back all their memory, and using a living object over and over does not make it grow",
 "Whatever is done with the objects of the library (phrases and sets recorded, edited, copied, saved, loaded from good and refused documents; models trained in any mode on good and failing sets, cancelled, filtered, copied, assigned, reconfigured, edited; distributions, k-means, buffers and matrices used, also where an operation is refused with an exception), once the objects are destroyed all the memory taken is given back, so that doing the same again and again takes no more memory than doing it once. A model filtering an endless stream of frames, and an object put through the same cycle of uses any number of times, does not grow either.",
 "histories", "generated lives and cycles of every kind of object, including refused documents, failing and cancelled trainings, singular matrices",
 TESTS + "no test looks at memory, and a leak leaves every answer right.",
 "model single ts phrase gmm gmm1 hmm hmm1 gauss km matrix", [("pinv, gauss_jordan_inverse", "src/core/common/xmmMatrix.hpp"), ("train, joinTraining", "src/core/model/xmmModel.hpp"), ("~Phrase, operator=, reallocate", "src/core/trainingset/xmmPhrase.cpp"), ("updateInverseCovariance", "src/core/distributions/xmmGaussianDistribution.cpp")], ["Model", "TrainingSet", "Phrase", "GaussianDistribution", "KMeans", "Matrix", "CircularBuffer"],
 "The measure is the allocator's count of bytes in use (AddressSanitizer's). A use is judged by repetition: the count must not rise at every one of several repetitions, so that caches and buffers that reach a final size are not alarms; a leak that happens only every few repetitions can be missed.",
 technique="property-based testing of generated life histories: invariant on the bytes in use over repetitions, under ASan/UBSan")

prop("C32", "Recognition stays well-formed whatever observations arrive, and recovers from bad ones",
 "For every trained model, whatever stream of observations it filters (ordinary frames mixed in any order with outliers, values up to the largest float, denormal values, NaN and infinities, in one dimension or in all), after every frame the instantaneous, smoothed and log-likelihoods of every class are finite, the normalised likelihoods lie in 0..1 and sum to 1, the likeliest class is one of largest smoothed log-likelihood, responsibilities and state probabilities lie in 0..1 and sum to 1, time progression lies in 0..1 and exit likelihoods are numbers; and whenever the frame itself is finite and of ordinary or large size, the outputs and covariances predicted by a bimodal model are finite, however unlikely any class has become. Bad frames leave no trace: after a reset a model answers as a copy that never saw them, a mixture model already once its smoothing window has passed.",
 "inputs histories", "every trained GMM and HMM (flat, hierarchical, any estimator, covariance mode, window), streams of up to 30 frames of which a third are spoilt",
 TESTS + "only a few ordinary frames are filtered.",
 "gmm gmm1 hmm hmm1 gauss single", [("likelihood, likelihood_input", "src/core/distributions/xmmGaussianDistribution.cpp"), ("filter, forward_update, updateResults", "src/models/hmm/xmmHierarchicalHmm.cpp"), ("regression, updateAlphaWindow, updateResults", "src/models/hmm/xmmHmmSingleClass.cpp"), ("filter, updateResults", "src/models/gmm/xmmGmm.cpp")], ["filter", "likelihood", "regression", "updateResults", "forward_update"],
 "Values of the outputs for frames that are no numbers are not specified (they are not finite). The exact values for ordinary frames are those of C13 to C17.",
 technique="property-based testing with generated faulty observation streams: invariants after every frame, differential against copies that saw no bad frame, under ASan/UBSan")

prop("C33", "A configuration keeps its default settings and each class's own settings, which start as the defaults of the moment",
 "Through any history of editing, resetting, copying and assigning, the configuration of a model (GMM, HMM, k-means) holds exactly its default settings, its modes and the settings of the classes edited: the settings of a class not edited before start as the defaults of that moment, keep their values when the defaults or other classes change later, and are the defaults again after being reset; an accepted setting is read back and marks only what was edited, a refused one changes nothing anywhere; it knows which classes have settings of their own, and asking does not give them any; copies and assigned configurations are equal and independent.",
 "histories", "configurations of GMMs, HMMs and k-means with up to five classes, every setting and invalid values",
 TESTS + "only default configurations are used.",
 "conf gmmp hmmp km", [("operator[], reset, includes", "src/core/model/xmmModelConfiguration.hpp"), ("ClassParameters", "src/models")], ["operator[]", "includes", "reset", "set", "get"],
 "A model of every configuration is compared after every operation. What training does with the settings is C21's.",
 technique="property-based testing of generated histories against a reference model, under ASan/UBSan")
