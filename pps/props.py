"""Texts and global rules per property."""
GLOBAL = {"C01": ("import_graph", "cycles", "language"), "C27": ("undefined_names",), "C31": ("containers",), "C32": ("versions", "every_estimator")}

_VG = "Every listed call is summarised from the source as a gated value graph over symbolic sizes, inputs and fitted parameters. "
_REF = _VG + "The graph is compared with the graph of the definition (pps/spec/ref.py, analysed by the same interpreter). "
EXPLAIN = {
    "C01": "Import statements and dynamic imports of every module reachable at import time, at unpickling or from a prediction method are resolved statically, with the conditions and handlers around them; import cycles are followed in execution order; syntax is matched against the oldest supported Python.",
    "C02": "The heap built by every constructor is walked from the returned model. Then each configuration is converted again with each source attribute replaced by a foreign object, an array-library scalar or an array of objects (also as a single element or key): every path must end in an explicit rejection or leave only built-in data.",
    "C03": "Region analysis of the constructor: no write event on an object of the source estimator's region, and no mutable object of that region (or mutable hyper-parameter) reachable from the model.",
    "C04": "Effect analysis of every prediction method: write events on objects of the model's or a global region. A write that exists is followed into the next calls: their value graphs after the write are compared with those on a fresh model; scratch attributes that hold data of a call and are read back are reported.",
    "C05": "Effect analysis: write events on objects of the argument's region, at any depth, on any feasible path.",
    "C06": "Alias analysis of the returned heap: no mutable object of the model's region is reachable, and an object returned per row is allocated inside the row's iteration.",
    "C07": _VG + "A result that is one map over the rows whose body reads the input at the row's own index only is independent by construction; any other graph is compared with the graph restricted to each single row.",
    "C08": _VG + "predict's graph is compared with the arg-max of the score graph over the fitted label table (ties included).",
    "C09": _VG + "The graphs of predict_proba, predict_log_proba and predict of one model are related on the same leaves.",
    "C10": _VG + "The probability graph is checked for the shape of a distribution, with scores of any magnitude, and for arithmetic exceptions.",
    "C11": _REF, "C12": _REF, "C13": _REF, "C14": _REF, "C15": _REF, "C16": _REF, "C17": _REF, "C18": _REF, "C19": _REF, "C20": _REF, "C21": _REF, "C29": _REF, "C30": _REF, "C33": _REF,
    "C22": _VG + "The graph for the package's sparse container is compared with the graph for the densified rows; models without sparse support must end in an explicit raise on every path.",
    "C23": _VG + "The returned heap object must be the package's container, of the fitted width and a built-in element type, with keys inside the width.",
    "C24": "Each kind of malformed argument (wrong type, empty, too narrow, too wide, ragged, wrong rank) is given to the abstract interpreter: every feasible path must end in an explicit raise.",
    "C25": "Each unsupported setting is converted abstractly: every path must end in an explicit raise before a model is returned.",
    "C26": "The converter table and the minimum-version argument are followed from the class name of every supported estimator, at top level and nested.",
    "C27": "Failing operations (unbound names and attributes, wrong kinds of operands, wrong arity, missing imports, index and key failures) are events of the abstract interpretation; one that is feasible for a supported setting is reported. Names are also resolved in every function of both packages.",
    "C28": "Effect analysis: reads of time, randomness, environment, locale, object identity, hash or set order, mutable globals, and I/O, on the paths of every prediction method.",
    "C31": "The pickle protocol is followed over the model's abstract heap (reduce/getstate/setstate/new hooks, list and dict subclasses); the rebuilt heap must have the same content and every method of the copy the same value graph.",
    "C32": "The version gate is analysed for symbolic installed and required versions; every constructor must pass through it with its own estimator.",
}
_RV = "value graph of the call = value graph of the definition, on every path on which the definition gives a value"
EXPLAIN["C36"] = "Every question a fitted estimator cannot answer is put to the converted model abstractly: no feasible path may return a value. classes_ and len are read abstractly and compared with the source."
RULE = {
    "C01": "no import outside the standard library of the oldest supported Python on a path that is not guarded against its absence",
    "C02": "reachable(model) contains built-in data and models only, for every content of every source attribute, or conversion raises",
    "C03": "no write to, and no mutable object shared with, the source estimator's region",
    "C04": "no write to the model or to shared state that a later (or simultaneous) call can observe",
    "C05": "no write to an object reachable from the argument",
    "C06": "every mutable object reachable from the result is allocated by the call, once per row",
    "C07": "result = [f(row) for row in rows] with f independent of the other rows, their number and the position",
    "C08": "predict = label[first arg-max of the scores] (second label iff score > 0 for two-class linear models)",
    "C09": "log-probabilities = ln(probabilities), -inf at 0; label = label of the largest probability",
    "C10": "one probability per class in [0, 1], summing to 1, no NaN, no arithmetic exception",
    "C22": "value graph of the sparse call = value graph of the dense call, or explicit rejection on every path",
    "C23": "result is a sparse container of the fitted width with keys in range(width)",
    "C24": "every feasible path of a call with malformed input raises explicitly",
    "C25": "every path of the conversion of an unsupported setting raises explicitly",
    "C26": "convert_estimator(E) is the class that implements E, the version requirement reaches the gate",
    "C27": "no feasible failing operation on a supported configuration; no unresolvable name in any function",
    "C28": "no ambient read and no I/O on any path of a prediction method",
    "C31": "unpickle(pickle(model)) rebuilds the same heap and the same value graphs; nothing stored is unpicklable",
    "C32": "installed < required: raise; installed < tested or unknown: warn; otherwise silent; numeric component-wise comparison",
}
for _p in ("C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C29", "C30", "C33"):
    RULE[_p] = _RV
RULE["C36"] = "no path of a method the source lacks returns a value; classes_ and len as in the source"
_T = "abstract interpretation of the source: "
TECH_ = _T + "gated value graphs, heap regions, effect and exception events"
TECH = {
    "C01": "import-graph analysis with handler and reachability context; syntax lint against the oldest supported Python",
    "C02": _T + "foreign-kind taint over the constructors' heap", "C03": _T + "heap regions, alias and write effects of constructors",
    "C04": _T + "write effects on the model's region", "C05": _T + "write effects on the argument's region", "C06": _T + "escape/alias analysis of results",
    "C07": _T + "dependence of the value graph on the row index", "C24": _T + "must-raise path analysis", "C25": _T + "must-raise path analysis of constructors",
    "C26": _T + "constant propagation through the converter table", "C27": _T + "failing-operation events and name resolution", "C28": _T + "ambient-read effects",
    "C36": _T + "attribute resolution and must-raise path analysis", "C31": _T + "pickle protocol over the abstract heap", "C32": _T + "path conditions of the version gate",
}
for _p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C29", "C30", "C33"):
    TECH[_p] = "value-graph equivalence (gated value numbering with loop summaries; random interpretation refutes, identity proves)"
NOTE_ = "All configurations of the supported estimator classes are analysed from the source with symbolic sizes and data; an alarm needs a feasible path or a separating valuation of the value graphs. Trusted: the analyser's models of Python built-ins and of the fitted estimators' attributes (pps/lib.py, pps/world.py, pps/cases*.py)."
_GV = " Obligations reported as 'proved' have identical normal forms; 'agreed' ones differ in form and no valuation of the graphs' leaves separates them (one-sided: a difference can be missed, never invented)."
NOTE = {p: NOTE_ + _GV for p in ("C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C27", "C29", "C30", "C31", "C33")}
NOTE["C10"] += " Rounding of the sum is not analysed; only magnitude effects (overflow, underflow, division by zero) are."
NA = {
    "C34": "Taken whole it quantifies over floating-point results of another library's numerical code; no static argument over this repository's source bounds them. Its structural clauses are claimed as C11-C21, C29, C30.",
    "C35": "Sizes and timings of pickles and predictions are run-time measurements.",
}
