#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the lines stay well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

p("C01", "Bounded settings never leave their allowed range",
  "Every user-settable numeric setting of a phrase, training set, distribution, model or configuration always holds a value inside its documented limits, whatever sequence of assignments, copies or related changes produced it. "
  "An assignment outside the limits (including not-a-number) is reported by an exception and changes nothing; an accepted assignment is read back exactly. "
  "Observers of a setting belong to its owner: copying or assigning the value never transfers the observer, and the owner's observer hears of each accepted change exactly once.",
  ["inputs", "histories"], "all values at, inside and outside each limit; all interleavings of assignment, copy and limit-changing operations on every setting",
  "the tests only set a handful of legal values; no test sets an illegal value, a boundary, or copies a setting with an observer",
  ["src/core/common/xmmAttribute.hpp", "src/core/common/xmmAttribute.cpp", "src/core/model/xmmModelSharedParameters.cpp", "src/models/gmm/xmmGmmParameters.cpp", "src/models/hmm/xmmHmmParameters.cpp", "src/models/kmeans/xmmKMeansParameters.cpp"],
  [("checkLimits before every store", "xmmAttribute.hpp set()"), ("onAttributeChange dispatch", "xmmAttribute.hpp")],
  [("value", "current value of a setting", "Attribute::value_"), ("limits", "current closed range", "Attribute::limit_min_/limit_max_")])

p("C02", "Recorded frames come back exactly, in order",
  "After any sequence of recording (joint, input-only, output-only), clearing and re-dimensioning, a phrase reports exactly the frames recorded since the last clear, in order and value for value, through every accessor, with its length, per-modality lengths and emptiness consistent with them. "
  "Calls that do not fit the phrase (wrong frame dimension, wrong modality, wrong memory mode, index or dimension out of range, joint recording on uneven modalities) are reported by an exception and change nothing.",
  ["histories", "inputs"], "all sequences of recording/clearing/re-dimensioning/reading operations on unimodal and bimodal phrases of every dimension, across buffer growth",
  "the tests record fixed 100-frame phrases before a JSON round trip; no test interleaves clears, modality-wise recording, growth past the allocation block or illegal calls",
  ["src/core/trainingset/xmmPhrase.cpp", "src/core/trainingset/xmmPhrase.hpp"],
  [("reallocation in blocks", "Phrase::reallocateLength"), ("trim to the shortest modality", "Phrase::trim"), ("guards at each entry", "Phrase::record*, getValue, getPointer*")],
  [("frames", "recorded values per modality", "Phrase::data_"), ("length", "frames usable jointly", "Phrase::length_"), ("lengths", "per modality", "Phrase::input_length_/output_length_")])

p("C03", "A phrase owns its data and never touches memory it borrowed",
  "A copied or assigned phrase that owns its memory holds the same frames, label and column names as the original at that moment, and later changes to either are never seen in the other. "
  "A phrase bound to caller-provided buffers reads exactly those buffers, never grows or frees them, writes them only when it is explicitly rescaled, and refuses to record or clear; an owning phrase refuses to be bound. "
  "Creating, copying, assigning, re-dimensioning and destroying phrases in any order and state (empty, recorded, connected) neither leaks into another phrase's data nor corrupts memory.",
  ["histories", "programs"], "all sequences of construct/copy/assign/connect/disconnect/record/re-dimension/destroy over several phrases, empty ones included",
  "no test copies or assigns an empty or shared-memory phrase, and none runs with memory checking",
  ["src/core/trainingset/xmmPhrase.cpp", "src/core/trainingset/xmmPhrase.hpp"],
  [("deep copy", "Phrase(Phrase const&), operator="), ("own_memory_ guards", "connect/disconnect/record/clear/~Phrase")],
  [("own memory flag", "who frees the buffers", "Phrase::own_memory_")])

p("C04", "Class views of a training set always agree with its phrases",
  "At every moment, whatever was added, replaced, relabelled, removed, cleared, loaded or copied before, the set of labels of a training set is exactly the set of labels of its phrases, and the view of each class contains exactly the phrases carrying that label, under their original indices. "
  "Looking up an absent index or label yields nothing, and iteration visits the phrases once each in increasing index order. "
  "Copying a training set gives an equal set whose later evolution is independent of the original.",
  ["histories"], "all edit histories over a few indices and labels, including label edits through phrases obtained from the set or handed to it, and copies of the set",
  "the tests build a set once and serialise it; label changes after insertion, removal and copy are never exercised",
  ["src/core/trainingset/xmmTrainingSet.cpp", "src/core/trainingset/xmmTrainingSet.hpp", "src/core/trainingset/xmmPhrase.cpp"],
  [("label notifications", "TrainingSet::onEvent"), ("rebuild of labels and subsets", "TrainingSet::update")],
  [("phrases", "index to phrase", "TrainingSet::phrases_"), ("labels", "set of labels", "TrainingSet::labels_"), ("class views", "label to subset", "TrainingSet::sub_training_sets_")])

p("C05", "A training set and all its phrases keep one common shape",
  "All phrases and class views of a training set always share its modality, dimension, input dimension and column names, whatever order these are changed and phrases are added in. "
  "Changing the dimensions or column names reaches every contained phrase (whose frames are discarded when a dimension changes), and so does adding a phrase later; a dimension below the minimum, or an input dimension that does not leave room for the output, is rejected with an exception and changes nothing.",
  ["histories", "configurations"], "all orders of dimension / input-dimension / column-name changes and phrase insertions, unimodal and bimodal",
  "the tests fix the dimension before adding phrases and never change it afterwards",
  ["src/core/trainingset/xmmTrainingSet.cpp", "src/core/trainingset/xmmPhrase.cpp"],
  [("propagation", "TrainingSet::onAttributeChange"), ("limit coupling dimension / input dimension", "Phrase::onAttributeChange")])

p("C06", "Set statistics and scaling cover every frame exactly once",
  "The mean and standard deviation reported for a training set are those of all its complete recorded frames, each counted once, and the per-dimension minimum and maximum those of all its recorded values, for empty, single-frame and uneven phrases alike. "
  "Rescaling a set or phrase by given offset and gain, or normalising it (to zero mean and unit deviation), transforms each frame of each dimension exactly once and nothing else.",
  ["inputs", "histories"], "all training sets over small dimensions and phrase lengths, including empty phrases and constant columns",
  "no test calls any statistics or rescaling operation",
  ["src/core/trainingset/xmmTrainingSet.cpp", "src/core/trainingset/xmmPhrase.cpp"],
  [("accumulation over phrases", "TrainingSet::mean/standardDeviation/minmax"), ("in-place scaling", "rescale/normalize")])

p("C07", "Smoothed likelihoods average exactly the latest window of frames",
  "For each class of each model, the reported log-likelihood after a frame is the average of the instantaneous log-likelihoods of the most recent frames, as many as the configured window but never more than were filtered since the last reset. "
  "Changing the window takes effect from the next reset without ever mixing in stale or uninitialised values.",
  ["histories", "inputs"], "all window lengths, frame sequences, reset points and window changes, on single-class, flat and hierarchical models",
  "the tests compare sums of likelihoods across two models with one fixed window and no reset",
  ["src/core/common/xmmCircularbuffer.hpp", "src/models/gmm/xmmGmmSingleClass.cpp", "src/models/hmm/xmmHmmSingleClass.cpp", "src/models/hmm/xmmHierarchicalHmm.cpp", "src/core/model/xmmModelSingleClass.cpp"],
  [("circular buffer", "CircularBuffer::push/mean/resize/clear"), ("updateResults", "SingleClass*::updateResults")],
  [("window", "pending instantaneous likelihoods", "likelihood_buffer_")])

p("C08", "Training reports every class once and always comes to rest",
  "Under every thread schedule and in every threading mode, a training run reports for each class exactly one outcome (done, error or cancelled), then exactly one notice that everything is finished, after all outcomes. "
  "Once that notice is given (or a blocking call has returned) the model is at rest: not training, containing exactly the classes that succeeded, and ready to filter with results sized for them. "
  "The trained parameters do not depend on the threading mode.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of one worker per class with the caller, the joining thread and event listeners; all subsets of classes failing; all three threading modes",
  "the multithreading tests are racy and excluded; each samples one schedule with sleeps and asserts only the final size",
  ["src/core/model/xmmModel.hpp", "src/core/model/xmmModelSingleClass.cpp", "src/core/common/xmmEvents.hpp"],
  [("one thread per class plus join", "Model::train, joinTraining"), ("completion count", "models_still_training_"), ("event mutex", "Model::onEvent")],
  [("still-running count", "classes whose outcome is pending", "models_still_training_"), ("training flag", "model busy", "is_training_")],
  ["training_events of the model", "training(), trained(), size()"])

p("C09", "Cancelling or removing classes during training is safe",
  "Cancelling training (one class or all), removing a class, clearing, destroying or retraining while training is in progress never crashes, deadlocks or leaves the model busy for ever. "
  "When a cancel-all call returns nothing is training any more and cancelled classes are gone; classes that had already finished, or were not cancelled, keep their trained state. "
  "While training, operations that need the model at rest (filtering, reset) are refused with an exception instead of racing with it.",
  ["schedules", "histories"], "all interleavings of cancel / remove / clear / destroy / retrain calls with the phases of one to several training classes",
  "one excluded test cancels at a single wall-clock instant; no test removes, destroys or retrains during training",
  ["src/core/model/xmmModel.hpp", "src/core/model/xmmModelSingleClass.cpp"],
  [("cancellation flag polled per iteration", "SingleClassProbabilisticModel::train"), ("join of class threads", "Model::cancelTraining/joinTraining")])

p("C10", "Classes are trained, retrained and removed in isolation",
  "A model's classes after any sequence of training everything, training one class, removing classes and clearing are exactly those trained and not removed since, in label order, with names, indices and lookups agreeing. "
  "Training or removing one class leaves every other class's parameters untouched, and a class trained alone equals the same class trained together with others. "
  "Unknown labels and mismatched data are refused with an exception that leaves the model as it was.",
  ["histories", "inputs"], "all sequences of train-all / train-one / remove / clear / bad call over a few labels and changing training sets, for mixture, hidden-Markov and k-means models",
  "the tests only train once per model; incremental training and removal are never executed",
  ["src/core/model/xmmModel.hpp", "src/models/hmm/xmmHierarchicalHmm.cpp", "src/models/gmm/xmmGmm.cpp"],
  [("label-keyed class map", "Model::models"), ("addModelForClass / removeClass overrides", "Model, HierarchicalHMM")])

p("C11", "Filtering yields well-formed, mutually consistent results",
  "After each filtered frame the results have one entry per class in label order, likelihoods are non-negative and finite, normalised likelihoods sum to one and are proportional to the likelihoods, and the reported likeliest class is the one with the highest smoothed likelihood. "
  "For bimodal models the predicted output is the likeliest class's prediction or the likelihood-weighted mixture of all class predictions, according to the configured estimator. "
  "Frames of the wrong size never corrupt the model.",
  ["inputs", "histories", "configurations"], "all observation sequences, including far outliers, over models with one to several classes, both estimators, both covariance modes, unimodal and bimodal",
  "the tests only compare the outputs of two models against each other, never against the meaning of the results",
  ["src/models/gmm/xmmGmm.cpp", "src/models/hmm/xmmHierarchicalHmm.cpp", "src/core/model/xmmModelResults.hpp"],
  [("updateResults", "GMM::updateResults, HierarchicalHMM::updateResults"), ("estimator", "filter() in both models")],
  None, ["results", "models[label].results"])

p("C12", "Reset makes filtering repeatable; copies are twins that part ways",
  "After a reset, the results of filtering a given sequence of frames depend only on the trained model and configuration, not on anything filtered before. "
  "A copied, assigned or reloaded model starts from the reset state and gives exactly the results that the original gives after a reset on the same frames, and from then on training, filtering, reconfiguring or destroying one never affects the other.",
  ["histories", "programs"], "all sequences of filter / reset / copy / assign / retrain / destroy over several models of every type",
  "the tests copy a model only as part of one comparison and never reuse one after reset or divergence",
  ["src/core/model/xmmModel.hpp", "src/core/model/xmmModelSingleClass.cpp", "src/models/gmm/xmmGmmSingleClass.cpp", "src/models/hmm/xmmHmmSingleClass.cpp", "src/models/hmm/xmmHierarchicalHmm.cpp", "src/models/kmeans/xmmKMeans.cpp"],
  [("reset", "reset() of each model"), ("copy constructors and assignments", "Model, SingleClass*, KMeans")])

p("C13", "Hidden Markov classes keep a valid topology and follow it",
  "Every trained hidden Markov class has initial-state probabilities and transition rows that are probability distributions, and with the left-right topology it starts in its first state and never moves backwards or skips a state. "
  "(When classes are decoded on their own, a fixed small weight from the last state back to the first is added for decoding.) On each filtered frame its state probabilities are the previous ones propagated through the transitions and weighted by the observation densities, normalised; the reported likelihood, progress (0 to 1) and likeliest state agree with them.",
  ["inputs", "histories", "configurations"], "all small training sets, state and mixture counts, both transition modes, and all frame sequences",
  "the tests check that two hidden Markov models agree; a common error in topology or recursion is invisible to them",
  ["src/models/hmm/xmmHmmSingleClass.cpp", "src/models/hmm/xmmHmmSingleClass.hpp"],
  [("normalizeTransitions", "SingleClassHMM"), ("forward_init/forward_update", "SingleClassHMM"), ("updateAlphaWindow / progress", "SingleClassHMM")])

p("C14", "Hierarchical decoding keeps class-level probabilities coherent",
  "However classes are added, retrained, removed or loaded, a hierarchical model has one prior, one exit and one row of transitions per class, in label order. "
  "During hierarchical filtering the class and state probabilities of all classes together always form one distribution obtained from the previous one by staying in, or exiting and re-entering, classes; switching hierarchical mode off decodes every class by itself.",
  ["histories", "inputs", "configurations"], "all class add/remove histories and all frame sequences over small hierarchical models",
  "the tests never add or remove a class after training and never look at class-level probabilities",
  ["src/models/hmm/xmmHierarchicalHmm.cpp", "src/models/hmm/xmmHierarchicalHmm.hpp"],
  [("updateTransitionParameters/updateExitProbabilities", "HierarchicalHMM"), ("forward_init/forward_update/likelihoodAlpha", "HierarchicalHMM")],
  [("class-level prior/transition/exit", "probabilities between classes", "HierarchicalHMM::prior, transition, exit_transition")])

p("C15", "Saving and loading preserves everything that matters",
  "A phrase, training set, distribution, configuration or trained GMM or hierarchical HMM written to JSON and read back, into a new or an existing object, equals the original in every setting, label, complete frame and trained parameter, and writing it again gives the same document. "
  "A reloaded model filters exactly as the original, without needing a reset or retraining, and can be retrained, extended, reduced and copied like it.",
  ["inputs", "configurations", "histories"], "all reachable objects over small dimensions: unimodal/bimodal, full/diagonal covariances, all class counts, class-specific configuration, empty objects, then all follow-up operations",
  "the tests round-trip one fixed object per type and compare a hand-picked list of fields; reloaded models are never used afterwards",
  ["src/core/common/xmmJson.hpp", "src/core/trainingset/xmmPhrase.cpp", "src/core/trainingset/xmmTrainingSet.cpp", "src/core/distributions/xmmGaussianDistribution.cpp", "src/core/model/xmmModel.hpp", "src/core/model/xmmModelConfiguration.hpp", "src/core/model/xmmModelSharedParameters.cpp", "src/core/model/xmmModelSingleClass.cpp", "src/models/gmm/xmmGmmSingleClass.cpp", "src/models/gmm/xmmGmmParameters.cpp", "src/models/hmm/xmmHmmSingleClass.cpp", "src/models/hmm/xmmHmmParameters.cpp", "src/models/hmm/xmmHierarchicalHmm.cpp"],
  [("toJson/fromJson/Json constructor of each type", "all of the above")])

p("C16", "Unusable JSON is refused and leaves objects as they were",
  "Reading a document in which a member is mistyped, outside its documented limits, of a size that does not fit the others, contradicted by another (two classes of one label, two phrases of one index) or missing though the object needs it raises an exception with a readable message and leaves the object that was to be loaded exactly as it was; a member may be absent only if the object read is well formed without it. A document that is accepted gives an object that can be used. Reading never crashes, hangs or corrupts memory. "
  "This holds for any corruption of a valid phrase, training set, distribution, shared parameters, class or model configuration, GMM or hierarchical HMM; a scalar that the JSON library itself converts to the expected type may be accepted or refused.",
  ["inputs"], "all single-member corruptions (removal, type change, range violation, size mismatch, null) of valid documents of every serialisable type",
  "no test loads anything but documents written by the same program",
  ["src/core/common/xmmJson.hpp", "src/core/common/xmmJson.cpp", "src/core/trainingset/xmmPhrase.cpp", "src/core/trainingset/xmmTrainingSet.cpp", "src/core/distributions/xmmGaussianDistribution.cpp", "src/core/model/xmmModel.hpp", "src/core/model/xmmModelConfiguration.hpp", "src/models/gmm/xmmGmmSingleClass.cpp", "src/models/hmm/xmmHmmSingleClass.cpp"],
  [("build a temporary, then assign", "fromJson methods"), ("assertType and range checks", "xmmJson.hpp")])

p("C17", "Class-specific configuration overrides defaults, and only for its class",
  "A class is trained with its own configuration if one was requested for its label and with the current defaults otherwise; a class-specific configuration starts as a copy of the defaults at the time it is first requested and later changes to either do not affect the other. "
  "Configuration changes never alter already trained classes, and resetting or copying a configuration yields exactly the defaults or the copied values for all classes.",
  ["histories", "configurations"], "all sequences of default changes, class-specific changes, resets, copies and trainings over a few labels",
  "the tests only change the default configuration before the only training",
  ["src/core/model/xmmModelConfiguration.hpp", "src/core/model/xmmModel.hpp", "src/core/model/xmmModelParameters.hpp"],
  [("operator[] creating from the defaults", "Configuration"), ("addModelForClass lookup", "Model")])

p("C18", "Training stops when its criteria say so and reports true progress",
  "Iterative training of a class performs at least the configured minimum number of iterations and stops exactly at the configured maximum if one is set (not below the minimum), otherwise at the first iteration past the minimum whose relative likelihood improvement does not exceed the configured threshold, and never more than the built-in cap. "
  "It reports every iteration once, numbered consecutively, with progress equal to the iterations done relative to the expected number (the maximum if set, else the minimum), and a numerical failure ends it with an error report.",
  ["inputs", "configurations"], "all combinations of minimum, maximum and threshold over training sets with and without convergence or failure",
  "the tests never observe progress events nor change stop criteria",
  ["src/core/model/xmmModelSingleClass.cpp", "src/core/model/xmmModelSharedParameters.hpp"],
  [("EM loop", "SingleClassProbabilisticModel::train"), ("stop test", "emAlgorithmHasConverged")])

p("C19", "K-means centres are means and frames go to the nearest centre",
  "Training a k-means model leaves exactly as many centres as configured. Once training has converged every centre is the mean of the training frames nearest to it (a centre that no frame is nearest to is the origin); stopped earlier, every centre is the mean of some of the frames, or the origin. With the biased initialisation the centres are those that the published iteration reaches from the segment means of the first phrase under the configured number of iterations and threshold, a function of the data and configuration alone. Training without data changes nothing. "
  "Filtering a frame reports its distance to every trained centre and the index of the nearest one, whatever is configured after the training; an untrained model, or a frame of a wrong size, is refused. Copies and assigned models have the same centres, settings and answers and are independent.",
  ["inputs", "configurations"], "all small integer data sets, cluster counts and iteration limits, and all histories of settings, training, copying and filtering",
  "no test touches k-means at all",
  ["src/models/kmeans/xmmKMeans.cpp", "src/models/kmeans/xmmKMeansParameters.cpp"],
  [("assignment/update loop", "KMeans::train, updateCenters"), ("filter", "KMeans::filter")])

p("C20", "Gaussian densities, conditionals and ellipses follow the parameters",
  "A distribution's likelihood of an observation, joint or of the input alone, is the normal density given by its current mean and covariance, and its regression is the corresponding conditional mean, in full and diagonal mode. "
  "Changing covariance mode or dimensions, converting the covariance, or copying keeps mean, covariance, inverse and determinant mutually consistent and correctly sized; invalid dimensions are refused.",
  ["inputs", "histories", "configurations"], "all dimension and mode-switch histories with small well-conditioned parameters and observations",
  "the tests compare diagonal against full distributions on fixed data, never against the normal density",
  ["src/core/distributions/xmmGaussianDistribution.cpp", "src/core/distributions/xmmGaussianDistribution.hpp", "src/core/common/xmmMatrix.hpp"],
  [("updateInverseCovariance", "GaussianDistribution"), ("onAttributeChange", "GaussianDistribution")])

p("C21", "Mixture classes weigh their components correctly",
  "The likelihood of a frame under a mixture class is the weight-averaged density of its components, weights are non-negative and sum to one, and the reported component responsibilities are the normalised weighted densities. "
  "The class's regression output is the responsibility-weighted sum of the components' predictions.",
  ["inputs", "configurations"], "all small trained mixtures and observation sequences including outliers, unimodal and bimodal, both covariance modes",
  "the tests compare two mixtures with each other on one data set",
  ["src/models/gmm/xmmGmmSingleClass.cpp"],
  [("obsProb, likelihood, regression", "SingleClassGMM")])

p("C22", "Mixture training performs expectation-maximisation on the class's frames",
  "Training a mixture class starts from an initial guess derived only from the class's own phrases and configuration, and each iteration replaces weights, means and covariances by their responsibility-weighted estimates over all frames of the class, plus the configured regularisation on the variances. "
  "The result does not depend on other classes, on phrase index values or on earlier trainings.",
  ["inputs", "configurations"], "all small training sets (uneven phrases included), component counts, iteration counts and regularisation settings, unimodal and bimodal",
  "the tests never compare trained parameters against data; only two trainings of the same code against each other",
  ["src/models/gmm/xmmGmmSingleClass.cpp", "src/core/model/xmmModelSingleClass.cpp", "src/core/distributions/xmmGaussianDistribution.cpp"],
  [("initParametersToDefault/initMeansWithAllPhrases/initCovariances", "SingleClassGMM"), ("emAlgorithmUpdate", "SingleClassGMM")])

p("C23", "Events reach each current subscriber exactly once",
  "Every notification reaches each subscriber registered at that moment exactly once and with its content intact; a subscriber that was removed, or whose owner was registered twice, is never called more than that. "
  "Objects that outlive or precede the object they are attached to in destruction never receive or cause a call on a dead object.",
  ["histories", "programs"], "all sequences of subscribe / unsubscribe / copy / destroy / notify over several sources and subscribers, including phrases held beyond their training set",
  "the tests subscribe at most one listener and never unsubscribe or destroy one side early",
  ["src/core/common/xmmEvents.hpp", "src/core/trainingset/xmmTrainingSet.cpp", "src/core/model/xmmModel.hpp"],
  [("owner-keyed listener map", "EventGenerator")])

p("C24", "JSON text is written and parsed faithfully",
  "Any JSON value built in memory, written to text in compact or styled form and parsed back, equals the original in structure, strings, integers and real numbers. "
  "Malformed text is reported as failure and never crashes.",
  ["inputs"], "all small document trees over nulls, booleans, integers at the type limits, reals, strings with escapes and control characters, arrays and objects, and all single-character truncations of their text",
  "the tests exercise only documents of the library's own types",
  ["dependencies/jsoncpp/src/json_reader.cpp", "dependencies/jsoncpp/src/json_writer.cpp", "dependencies/jsoncpp/src/json_value.cpp"],
  [("Reader / writers / Value", "bundled jsoncpp")])

p("C25", "Hidden Markov training performs Baum-Welch on the class's phrases",
  "Training a hidden Markov class starts from a segmentation of its own phrases into equal parts, and each iteration replaces transition and observation parameters by their expectation under the current model over all phrases of the class, counting each phrase's state sequence separately. "
  "The result does not depend on other classes, on phrase index values or on earlier trainings.",
  ["inputs", "configurations"], "all small training sets (uneven phrases included), state counts, topologies and regularisation settings",
  "the tests never compare trained parameters against data; only two trainings of the same code against each other",
  ["src/models/hmm/xmmHmmSingleClass.cpp"],
  [("initMeans/initCovariances/emAlgorithmUpdate/baumWelch*", "SingleClassHMM")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
