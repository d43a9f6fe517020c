"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))
S = "pure_sklearn/"
EST = [S+"linear_model/_base.py", S+"linear_model/_logistic.py", S+"linear_model/_stochastic_gradient.py", S+"svm/_classes.py",
       S+"tree/_classes.py", S+"ensemble/_bagging.py", S+"ensemble/_gb.py", S+"ensemble/_gb_losses.py", S+"xgboost/_classes.py",
       S+"naive_bayes.py", S+"dummy.py"]
TRF = [S+"preprocessing/_data.py", S+"preprocessing/_encoders.py", S+"impute/_base.py", S+"feature_extraction/text.py",
       S+"feature_extraction/_hash.py", S+"feature_extraction/_dict_vectorizer.py", S+"pipeline.py"]

p("C01", "Prediction needs nothing but the standard library",
  "Importing the packages, unpickling a converted model and calling any of its prediction or transformation methods works in a Python environment that contains only pure-predict and the standard library of every supported Python version. No code that runs at import time or while predicting imports, or looks up by name, any other package.",
  ["programs","configurations"], "every module of both packages, every import statement and dynamic import reachable at import time or from a prediction method",
  "Every test environment has numpy, scipy, scikit-learn, xgboost and setuptools installed, so an accidental dependency is invisible to the tests.",
  ["pure_sklearn/utils.py","pure_sklearn/map.py","pure_sklearn/__init__.py","pure_fasttext/FastText.py"],
  [("only standard-library imports at module level","all non-test modules"),("dynamic import restricted to the converter table","pure_sklearn/map.py:_instantiate_class")], ["import","pickle.loads","predict*","transform"])
p("C02", "Converted models hold only built-in Python data",
  "Everything reachable from a successfully converted model is built-in Python data (numbers, strings, booleans, None, built-in types, lists, tuples, dictionaries of these) or another converted model: never an array, an array-library scalar, or a reference to the source estimator. If any other kind of object would end up at any depth of the converted model's state, conversion raises an error instead of returning a model.",
  ["inputs","configurations"], "every supported estimator class, every fitted attribute and hyper-parameter value, at any nesting depth and position",
  "Tests convert a handful of estimators fitted with Python-scalar hyper-parameters and never look at the types inside the converted object; a stray array-library scalar is a subclass of float and behaves like one.",
  [S+"utils.py"]+EST+TRF, [("final type gate in every constructor","pure_sklearn/utils.py:check_types"),("array to list conversion","every __init__(estimator)")], ["convert_estimator"])
p("C03", "Conversion is a snapshot and leaves the source estimator alone",
  "Converting a fitted estimator never modifies it, and the converted model shares no mutable container with it. Later changes to the source estimator's fitted attributes or list/dict hyper-parameters are therefore never visible in the converted model, and vice versa.",
  ["histories","configurations"], "every supported estimator class and every attribute copied from it; every later in-place change to the source",
  "Tests convert and compare once; none mutates the source estimator after conversion or re-checks it.",
  EST+TRF, [("fresh containers built from estimator attributes","every __init__(estimator)")], ["convert_estimator"])
p("C04", "Prediction never changes the model",
  "Calling any prediction, scoring or transformation method on a converted model leaves everything that can influence later results unchanged. Repeating a call, interleaving it with calls on other data, or running calls from several threads therefore gives the same result as calling it first on a fresh model.",
  ["histories","schedules","inputs"], "every call sequence and interleaving over every public method of every converted model",
  "Tests call each method once or twice in a fixed order on one input; state left behind by a call with other data is never observed.",
  EST+TRF+["pure_fasttext/FastText.py"], [("methods only read attributes set by the constructor","all predict*/transform/decision_function methods")], ["predict*","transform","decision_function"])
p("C05", "Caller's input is never modified",
  "No prediction, transformation, normalisation or pairwise function modifies the data passed to it, whether given as nested lists or as the package's sparse container, and at any nesting depth.",
  ["inputs","histories"], "every public entry point and every dense or sparse input",
  "Tests pass an input once and never compare it with its value before the call.",
  TRF+EST+[S+"metrics/pairwise.py", S+"base.py"], [("results are built in fresh containers","all transform methods, normalize_pure")], ["transform","predict*","normalize_pure","pairwise functions"])
p("C06", "Results belong to the caller",
  "A value returned by a prediction or transformation method shares no mutable object with the model, and no two rows of one result are the same mutable object. Editing a returned result in place never changes later predictions or another row.",
  ["histories","inputs"], "every public method of every converted model and every in-place edit of its result",
  "Tests only read results.",
  [S+"dummy.py","pure_fasttext/FastText.py",S+"pipeline.py",S+"ensemble/_gb.py"]+TRF, [("a fresh row is built per input row","all predict_proba/transform methods")], ["predict_proba","predict_log_proba","transform","get_word_vector"])
p("C07", "Batches are independent rows, in order",
  "For a batch of n rows, every prediction, scoring and transformation method returns exactly n results in input order, and the result for a row depends only on that row and the fitted model, never on the other rows, their number, or the row's position (a method may instead reject the whole batch with an exception).",
  ["inputs"], "every fitted model, every batch size and every composition of the batch",
  "Tests predict one fixed batch in one order and never compare single-row with batch results.",
  EST+TRF, [("per-row comprehension or index-aligned accumulation","all predict*/transform/decision_function methods")], ["predict*","transform","decision_function"])
p("C08", "Predicted labels are fitted labels of the winning class",
  "Every label returned by a classifier is one of the class labels seen in training, of the original type, and is the label of the class with the largest score for that row, the lowest-numbered class winning ties. Two-class linear classifiers return the second label exactly when the decision score is strictly positive.",
  ["inputs","configurations"], "every classifier, every label set (strings, non-contiguous integers, booleans) and every row including exact ties",
  "Tests use labels 0..n-1 only, so an index returned instead of a label goes unnoticed, and never hit ties.",
  EST, [("argmax by first maximal position, then lookup in the class list","predict methods")], ["predict"])
p("C09", "predict, predict_proba and predict_log_proba agree",
  "For every classifier with probability estimates, the log-probabilities are the elementwise natural logarithm of the probabilities (minus infinity at zero, never an exception), and the predicted label is the label with the largest log-probability score. The two views never come from different computations that can disagree beyond rounding.",
  ["inputs"], "every probabilistic classifier and every finite row",
  "Tests compare each method separately with scikit-learn on well-behaved data and skip zero probabilities.",
  EST, [("log probabilities derived from probabilities or conversely","predict_log_proba methods"),("zero-safe logarithm","pure_sklearn/base.py:safe_log")], ["predict","predict_proba","predict_log_proba"])
p("C10", "Probabilities are valid distributions for every finite input",
  "For every row whose class scores are finite, predict_proba returns one probability per class, each between 0 and 1, summing to 1 up to rounding. Scores of large magnitude never produce NaN, infinity, values above 1 or an overflow/zero-division exception. (The one exception is shared with the source library: a one-vs-rest model all of whose class probabilities underflow to zero reports NaN for that row.)",
  ["inputs"], "every probabilistic classifier and every row with finite scores, including scores far outside the range of exp",
  "Test inputs are iris rows whose scores are within [-20, 20]; overflow, underflow and out-of-range values never occur.",
  [S+"base.py",S+"naive_bayes.py",S+"ensemble/_gb_losses.py",S+"linear_model/_base.py",S+"linear_model/_logistic.py",S+"xgboost/_classes.py",S+"dummy.py",S+"ensemble/_bagging.py",S+"tree/_classes.py","pure_fasttext/FastText.py"],
  [("softmax","pure_sklearn/base.py:sfmax"),("logistic function","pure_sklearn/base.py:expit"),("log-sum-exp normalisation","naive_bayes, _gb_losses")], ["predict_proba","fastText predict"])
p("C11", "Linear classifiers compute the fitted linear score",
  "A converted linear classifier's decision score for each class is the dot product of the row with that class's fitted coefficients plus that class's fitted intercept, one score per row for two-class models. Its probabilities are the logistic function of the score (normalised over classes when there are more than two) for one-vs-rest models, or the softmax of the scores for multinomial models, as selected by the fitted estimator's settings.",
  ["inputs","configurations"], "every linear classifier class, every multi_class/solver/loss setting, number of classes and row",
  "Tests cover three label encodings of one data set and two of the settings; other solver and class-count combinations are not sampled.",
  [S+"linear_model/_base.py",S+"linear_model/_logistic.py",S+"linear_model/_stochastic_gradient.py",S+"linear_model/_ridge.py",S+"linear_model/_perceptron.py",S+"linear_model/_passive_aggressive.py",S+"svm/_classes.py",S+"base.py"],
  [("decision function","linear_model/_base.py"),("probability scheme selection","linear_model/_logistic.py:predict_proba")], ["decision_function","predict_proba"])
p("C12", "Trees route every row to the right leaf",
  "A scikit-learn tree sends a row to the left child exactly when the tested feature is less than or equal to the node's threshold; an XGBoost tree sends it to the yes child exactly when it is strictly less, and sends a missing (NaN) feature to the node's missing child; traversal stops exactly at leaves, and features absent from a sparse row count as zero. The result is that leaf's fitted value: class fractions for classifiers, the leaf value for regressors and boosted trees, whatever the number of features.",
  ["inputs","configurations"], "every fitted tree, every feature index (also two-digit ones) and every row, including values equal to a threshold",
  "Tests use four features and continuous data, so values never equal thresholds, feature indices stay below ten and values are never missing.",
  [S+"tree/_classes.py",S+"xgboost/_classes.py"], [("node walk","tree/_classes.py:_get_leaf_node"),("booster dump decoding","tree/_classes.py:__init__")], ["predict","predict_proba"])
p("C13", "Ensembles combine every member exactly once",
  "Bagging, random-forest and extra-trees probabilities are the mean of all members' probabilities, each member seeing its own feature subset and each member's probabilities assigned to the classes it was trained on. Gradient boosting adds to the initial prediction the learning rate times the sum of all stages per class and applies the loss's link; XGBoost applies the link to the base score plus the sum of all trees the model predicts with.",
  ["inputs","configurations"], "every ensemble class, number of members, number of classes, feature subset, loss, learning rate and base score",
  "Tests use dense data, default base score and members that all saw every class, and never compare exponential-loss probabilities.",
  [S+"ensemble/_bagging.py",S+"ensemble/_gb.py",S+"ensemble/_gb_losses.py",S+"xgboost/_classes.py",S+"base.py"], [("aggregation loops","predict_proba/_raw_predict/_predict"),("loss links","ensemble/_gb_losses.py")], ["predict_proba","predict"])
p("C14", "Naive Bayes and prior-dummy scores match their fitted model",
  "For every row, the joint log-likelihood used by a converted naive Bayes classifier equals the class log-prior plus the row's log-likelihood under the fitted per-class parameters (for complement naive Bayes, the weighted feature sum, with the prior only for a single class), and probabilities are these scores normalised over classes. A prior dummy classifier returns the fitted class priors for every row.",
  ["inputs"], "every fitted naive Bayes or dummy model and every row",
  "Tests check one data set; a term that vanishes or is constant on it is not observed.",
  [S+"naive_bayes.py",S+"dummy.py",S+"base.py"], [("joint log likelihoods","naive_bayes.py")], ["predict_proba","predict_log_proba"])
p("C15", "Scalers and normalisers apply the fitted affine map or unit norm",
  "Each scaler maps feature j of a row using only that feature and its fitted parameters: standardising subtracts the mean if centring is on and divides by the scale if scaling is on, min-max multiplies by the fitted scale and adds the fitted minimum, max-abs divides by the fitted scale. Normalisation divides each row by its l1, l2 or max norm and leaves rows of zero norm unchanged.",
  ["inputs","configurations"], "every scaler setting, norm, feature count and row, including all-zero rows",
  "The scaler tests compute a comparison but never assert it; zero rows are not sampled.",
  [S+"preprocessing/_data.py",S+"base.py"], [("per-feature maps","preprocessing/_data.py:transform"),("row norms","preprocessing/_data.py:normalize_pure")], ["transform","normalize_pure"])
p("C16", "Imputation replaces missing entries and nothing else",
  "A converted imputer replaces exactly the entries equal to the missing-value marker (NaN, number or string) by the fitted statistic of their own feature, leaves every other entry untouched, and drops exactly the features whose statistic is undefined unless the strategy is constant. The missing-indicator columns flag exactly the missing entries of the fitted features, and newly missing features are rejected only when so configured.",
  ["inputs","configurations"], "every strategy, marker, indicator setting and row",
  "Tests use one numeric matrix with missing values in all columns and never disable the tolerant indicator mode or use non-numeric markers.",
  [S+"impute/_base.py"], [("marker test","impute/_base.py:_to_impute"),("statistics lookup","impute/_base.py:SimpleImputerPure.transform"),("feature selection","impute/_base.py:MissingIndicatorPure")], ["transform"])
p("C17", "Encoders give each feature its own codes and columns",
  "Ordinal encoding maps each value to its position in that feature's fitted categories. One-hot encoding puts a single one for each feature with a known value at the column obtained by counting all categories of all earlier features plus that position, so different features never share a column; unknown values raise an error or, when configured to be ignored, yield all zeros for that feature only.",
  ["inputs","configurations"], "every number of features, category list and row, including unknown values",
  "Tests use two features only, for which a wrong column offset coincides with the right one, and no unknown values.",
  [S+"preprocessing/_encoders.py",S+"preprocessing/_label.py"], [("cumulative column offsets","preprocessing/_encoders.py:OneHotEncoderPure.transform"),("category lookup","preprocessing/_label.py")], ["transform"])
p("C18", "Vectorisers count exactly the vocabulary terms",
  "A count vectoriser's output for a document holds, for each vocabulary term occurring in it, the number of occurrences (or 1 in binary mode) at that term's fitted column and nothing else; tf-idf replaces each count by its optional sublinear value, times the term's idf when enabled, then normalises the row. A dictionary vectoriser stores each known feature's value (1 at the name-separator-value column for string values) and ignores unknown features.",
  ["inputs","configurations"], "every vocabulary, document, and binary/sublinear/idf/norm setting",
  "Tests use six short documents and default settings; binary, sublinear and idf-free modes are never run.",
  [S+"feature_extraction/text.py",S+"feature_extraction/_dict_vectorizer.py"], [("counting loop","feature_extraction/text.py:_count_vocab"),("tf-idf weighting","feature_extraction/text.py:TfidfTransformerPure.transform")], ["transform"])
p("C19", "Feature hashing is signed MurmurHash3 with accumulation",
  "Every token contributes plus or minus one, by the sign of its 32-bit MurmurHash3 (always plus one when alternate signs are off), to the column given by the hash's absolute value modulo the configured number of features. Contributions of repeated or colliding tokens add up, and the column is always inside the configured range.",
  ["inputs","configurations"], "every document, token (any byte length) and number of features",
  "Test documents have no repeated tokens and few collisions, so overwriting instead of adding is not observed.",
  [S+"feature_extraction/_hash.py"], [("hash","feature_extraction/_hash.py:_hash"),("accumulation","feature_extraction/_hash.py:_hashing_transform")], ["transform"])
p("C20", "Text analysis matches the configured analyser",
  "For each document the sequence of terms is the one defined by the fitted settings: decoding, lower-casing then accent stripping as configured, tokenising by the token pattern, removal of stop words before n-grams are formed, and all word, character or word-boundary character n-grams with lengths in the configured range. No setting copied from the fitted vectoriser is ignored or swapped for another.",
  ["inputs","configurations"], "every document and every analyser, n-gram range, accent, case and stop-word setting",
  "Tests only use default settings (word unigrams).",
  [S+"feature_extraction/text.py"], [("analyser construction","feature_extraction/text.py:_VectorizerMixinPure")], ["transform"])
p("C21", "Pipelines and unions compose their steps faithfully",
  "A converted pipeline feeds the input through every transforming step once, in order, and applies the requested method of the final step to the result. A converted feature union places the (optionally weighted) outputs of its transformers side by side in order without overlap, for dense, sparse and mixed outputs; disabled steps are skipped.",
  ["inputs","configurations"], "every list of steps, weights, and dense/sparse mix",
  "Tests cover one two-step pipeline and two unweighted unions.",
  [S+"pipeline.py"], [("step iteration","pipeline.py:PipelinePure._iter"),("column offsets","pipeline.py:FeatureUnionPure.transform")], ["predict*","transform"])
p("C22", "Sparse and dense inputs give the same result",
  "For every model that accepts the package's sparse container, the result for a sparse input equals the result for the same data as nested lists (up to container type), absent entries counting as zero. A model that does not support sparse input rejects it with an explicit error instead of crashing or computing something else.",
  ["inputs"], "every model and every sparsity pattern, including empty rows",
  "Sparse tests use matrices in which almost every entry is stored, so code that only works when all entries are present passes.",
  EST+[S+"preprocessing/_data.py",S+"base.py",S+"utils.py"], [("dict rows handled per access","base.py:dot, tree/_classes.py:_get_leaf_node, preprocessing/_data.py"),("explicit rejection","utils.py:check_array")], ["predict*","transform"])
p("C23", "Sparse outputs are well-formed sparse containers",
  "Every transformer that yields sparse output returns the package's sparse container on every path and setting, with the number of columns of the corresponding dense output as its width, only column keys inside that width, and convertible to dense form.",
  ["inputs","configurations"], "every sparse-producing transformer, setting and input",
  "Tests convert a few default-setting outputs to dense form; other settings are not run.",
  [S+"utils.py"]+TRF, [("container construction with explicit width","sparse_list(...) call sites")], ["transform"])
p("C24", "Malformed input is rejected, not mispredicted",
  "Input that is not a list or the package's sparse container, an empty batch, or rows whose number of features differs from the fitted model makes feature-matrix models raise an explicit error; it is never silently truncated, padded or ignored. Vectorisers likewise raise an explicit error for a bare string or an empty list in place of the list of documents or records, and for a missing (NaN) document.",
  ["inputs"], "every model with a fitted feature count and every wrong width, type or empty batch",
  "No test passes malformed input.",
  [S+"utils.py"]+EST+[S+"preprocessing/_data.py",S+"impute/_base.py",S+"preprocessing/_encoders.py",S+"feature_extraction/text.py"], [("input check","utils.py:check_array"),("feature-count guards","decision_function, transform, _raw_predict_init")], ["predict*","transform"])
p("C25", "Unsupported fitted settings are rejected at conversion",
  "Converting an estimator whose settings the pure implementation does not implement (dummy strategies other than prior, XGBoost boosters or objectives other than the supported ones, other gradient-boosting losses, encoders that drop categories, fastText losses other than softmax, fastText sub-word models and supervised word n-grams, estimator classes without a counterpart) raises an explicit error. Conversion never yields a model that silently predicts with different semantics: named stop-word lists, which the package does not contain, are rejected at the latest when documents are transformed.",
  ["configurations"], "every unsupported setting value of every supported class",
  "Tests convert supported settings only.",
  [S+"dummy.py",S+"xgboost/_classes.py",S+"ensemble/_gb.py",S+"preprocessing/_encoders.py",S+"map.py","pure_fasttext/FastText.py"], [("constructor guards","__init__ methods")], ["convert_estimator","FastText"])
p("C26", "Every supported estimator converts to its own counterpart",
  "Each supported scikit-learn/XGBoost class name is converted to the pure implementation of that same estimator, for top-level estimators and for estimators nested in pipelines, unions and ensembles alike; the requested minimum version is honoured. Every public pure estimator is reachable through the converter.",
  ["programs","configurations"], "every entry of the converter table and every nesting",
  "Tests convert most classes once; a wrong entry for similar classes gives the same numbers on the test data.",
  [S+"map.py"], [("converter table","map.py:MAPPING"),("recursive conversion","ensemble, pipeline, text constructors")], ["convert_estimator"])
p("C27", "Supported models never fail on internal errors",
  "For every supported setting, a converted model's public methods never fail because of the implementation itself: no undefined name or attribute, no operation applied to the wrong kind of object, no missing import. Exceptions raised are deliberate, explicit rejections of the caller's data or settings.",
  ["inputs","configurations"], "every public method of every model under every supported setting, on every path",
  "Names used only on untested paths (sub-linear tf, list inputs, stop-word warnings) are never evaluated by the tests.",
  EST+TRF+["pure_fasttext/FastText.py"], [("definite definition of every name and attribute read","all modules")], ["all public methods"])
p("C28", "Prediction is deterministic and free of ambient influence",
  "Results depend only on the fitted model and the input: never on time, randomness, hash seeds or set ordering, environment variables, locale, object identity or global mutable state. Prediction performs no input/output other than reading documents the caller explicitly passed as files.",
  ["programs","schedules","configurations"], "every function reachable from a prediction method",
  "Tests run in one process with a fixed hash seed, and would see the same value twice.",
  EST+TRF+["pure_fasttext/FastText.py"], [("no ambient reads on prediction paths","all predict*/transform methods")], ["predict*","transform"])
p("C29", "fastText vectors match the model",
  "A word's vector is a copy of its row of the model's input matrix, or zeros of the model's dimension if the word is unknown. A sentence vector always has the model's dimension: for supervised models the mean of the vectors of the known words plus end-of-sentence, for unsupervised models the mean of the unit-normalised vectors of known words with non-zero norm, and zeros if there are none.",
  ["inputs"], "every model and every single-line text, including texts with no known words",
  "Tests use four sentences that always contain a known word.",
  ["pure_fasttext/FastText.py"], [("averaging","FastText.py:get_sentence_vector")], ["get_word_vector","get_sentence_vector"])
p("C30", "fastText predict returns the top labels above the threshold",
  "For every single line of text, predict returns the labels whose softmax probability reaches the threshold, at most k of them (all of them for k = -1), sorted by decreasing probability and paired with their probabilities. A list of texts yields the list of the individual results; text containing a newline, and a k that is neither positive nor -1, are rejected.",
  ["inputs"], "every supervised model, text, k and threshold, single text or list",
  "Tests use two labels, k of at least one and single texts only.",
  ["pure_fasttext/FastText.py"], [("ranking and filtering","FastText.py:_predict")], ["predict"])
p("C31", "Converted models survive pickling",
  "Every converted model, and every sparse container, can be pickled and unpickled, and the copy has the same type, contents, width and data type and predicts exactly like the original. Nothing a converted model stores depends on objects that cannot be pickled or on code that is not importable by name.",
  ["histories","configurations"], "every converted model and sparse container",
  "No test pickles a converted model.",
  [S+"utils.py"]+EST+TRF, [("plain attributes, importable classes, no custom reduction","all classes")], ["pickle.dumps/loads"])
p("C32", "Estimators from too-old library versions are flagged",
  "Converting an estimator fitted with a library version below a required minimum raises an error, below the generally tested version or without version information issues a warning, and otherwise proceeds silently. Versions are compared numerically component by component.",
  ["inputs","configurations"], "every version string, including multi-digit components",
  "Tests only ever see the one installed version.",
  [S+"utils.py",S+"ensemble/_gb.py"], [("version gate","utils.py:check_version")], ["convert_estimator"])
p("C33", "Pairwise metrics follow their definitions",
  "The linear kernel of two row sets is the matrix of dot products, cosine similarity is the dot product of the rows after scaling each to unit l2 length, and cosine distance is one minus the similarity clipped to [0, 2], exactly zero on the diagonal when a set is compared with itself. Mismatched widths and non-2-D inputs are rejected.",
  ["inputs"], "every pair of row sets, including zero rows and sparse first arguments",
  "Tests use one random dense shape.",
  [S+"metrics/pairwise.py",S+"preprocessing/_data.py",S+"base.py"], [("kernels","metrics/pairwise.py")], ["pairwise functions"])
p("C34", "Results equal the source library's up to rounding",
  "For every fitted supported model and every input, each converted method returns the same values as the source library's method up to floating-point tolerance.",
  ["inputs","configurations"], "every fitted model and input",
  "Tests sample one data set per estimator.",
  EST+TRF, [("reimplementation of each method","all modules")], ["all public methods"])
p("C35", "Conversion and unpickling make models smaller and single predictions faster",
  "Converted models are smaller when pickled and faster to load and to evaluate on single records than their source for small models.",
  ["configurations"], "typical small models",
  "Performance is not tested.",
  [S+"utils.py"], [("plain Python containers","all modules")], ["performance_comparison"])

p("C36", "A converted model answers only what its source answers",
  "A prediction, probability, log-probability or transform method that the fitted estimator itself does not have (probabilities of hinge-type SGD losses, linear SVMs, ridge, perceptron, passive-aggressive and regression models; a pipeline method that the pipeline's final step lacks) never returns a result from the converted model: it is absent or raises. A converted classifier's classes_ lists the fitted labels in the fitted order, as built-in values, and a pipeline reports those of its final step. A pipeline has as many steps as its source.",
  ["configurations"], "every supported estimator class, setting and pipeline layout, every method name",
  "Tests call only the methods that exist; asking a model for what its source cannot give, or reading classes_ of a pipeline, is never tried.",
  EST+TRF, [("loss-dependent probabilities","linear_model/_stochastic_gradient.py:_check_proba"),("delegation to the final step","pipeline.py:_IffHasAttrDescriptor, transform, classes_")], ["hasattr","classes_","len"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
    print(len(P), "properties")
