"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "the unit tests pin a handful of concrete calls; "

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, na=na, state=state))


prop("C01", "Type acceptance is a sound ordering of types",
     "Schema A accepting schema B is reflexive, and transitive among types without field defaults, and whenever A accepts B every value of B is usable as a value of A with the same content. "
     "Promotion follows int < long < float < double only, containers and functions are variance-correct, and unions accept exactly the types each of whose alternatives some member accepts.",
     ["inputs", "configurations"], "all pairs/triples of schemas up to the stated nesting, all values of them up to the stated size",
     T + "the order laws quantify over all pairs and triples of schemas and all values.",
     ["titus/datatype.py"], [("accepts on each AvroType/FcnType/ExceptionType", "titus/datatype.py Type.accepts and overrides"), ("value check against a type", "titus/datatype.py checkData, jsonDecoder")])
prop("C02", "Input checking and JSON decoding accept exactly the values of the schema",
     "Decoding JSON against a schema succeeds exactly when the JSON is an Avro-JSON rendering of a value of that schema (integer ranges, union tags, fixed sizes, enum symbols, required fields) and yields that value; anything else is refused with an error. "
     "Encoding any value and decoding the result gives back the same value, and checking a native input value accepts and normalises exactly the conforming values.",
     ["inputs", "configurations"], "all JSON values and native values up to the stated depth against a family of schemas covering every type constructor",
     T + "conformity must hold for every value shape, including boundary integers and wrong-kind values.",
     ["titus/datatype.py", "titus/genpy.py"], [("jsonDecoder / jsonEncoder / checkData", "titus/datatype.py")])
prop("C03", "Values have one total order shared by every comparing operation",
     "Comparison of two values of a type that contains no maps is a total order: antisymmetric, transitive, total and consistent with equality. "
     "The operators ==, !=, <, <=, >, >=, cmp, max, min and array sorting all agree with it, numbers order numerically, strings and bytes lexically, arrays elementwise then by length, records by field order honouring ascending, descending and ignore.",
     ["inputs"], "all pairs and triples of values up to the stated size of every comparable schema in the family",
     T + "order laws relate triples of values.", ["titus/datatype.py", "titus/lib/core.py", "titus/lib/array.py", "titus/genpy.py"],
     [("compare", "titus/datatype.py compare/jsonCompare"), ("operators", "titus/lib/core.py"), ("sort/max/min", "titus/lib/array.py")])
prop("C04", "Schemas survive a round trip through their JSON form",
     "Writing a schema as JSON and reading it back gives a schema that is equal to and mutually accepting with the original, for every combination of constructors, names, namespaces, aliases of named types and recursive references. "
     "Reading a schema that was written in any declaration order gives the same types as reading it in dependency order.",
     ["configurations"], "all schemas buildable from the constructor grammar up to the stated depth, with symbolic names, sizes and symbols",
     T + "a schema grammar is infinite; tests list a few schemas.", ["titus/datatype.py"], [("ForwardDeclarationParser, AvroTypeBuilder, jsonNode", "titus/datatype.py")])
prop("C05", "Control flow and scoping follow the language semantics",
     "A document's action computes what the language defines for if/cond/while/do-until/for/foreach/for-each-pair/do/let/set/cast-cases/ifnotnull/unpack/try/error and user function calls: each executes its bodies in order, in the right scope, the right number of times, and yields the right value. "
     "Variables declared in a block are invisible outside it, inner declarations and assignments never leak, and user-defined errors carry their message code to the caller.",
     ["inputs", "programs"], "all inputs of a family of programs covering every special form, with symbolic loop bounds and branch conditions",
     T + "programs and the data steering them are unbounded.", ["titus/genpy.py", "titus/pfaast.py"], [("code generation per form", "titus/genpy.py GeneratePython"), ("scopes", "titus/genpy.py DynamicScope; titus/pfaast.py SymbolTable")])
prop("C06", "Path access and update address exactly one place and never alias",
     "Reading attr/cell/pool at a path returns the value at that path, and an update returns a structure that differs from the old one at that path only, with the old value still intact wherever it is held. "
     "Out-of-range indexes and missing keys raise the documented runtime error instead of being ignored or silently extended.",
     ["inputs", "programs"], "all arrays, maps and records up to the stated size, all in-range and out-of-range indexes and keys",
     T + "indexes, keys and aliasing patterns are unbounded.", ["titus/genpy.py", "titus/pfaast.py"], [("get, update", "titus/genpy.py"), ("Cell, Pool", "titus/genpy.py")])
prop("C07", "Failed actions roll back exactly the cells and pools marked for it",
     "If an action ends with any exception, every cell and pool with rollback enabled holds afterwards exactly the value it had before the action, and every one without it keeps the updates made so far. "
     "If the action succeeds nothing is rolled back, and the engine keeps working for the following inputs.",
     ["crash_points", "histories"], "all inputs and failure points in sequences of actions mixing cell and pool updates, removals and failures",
     T + "the failure point and history vary.", ["titus/genpy.py"], [("maybeSaveBackup/maybeRestoreBackup", "titus/genpy.py Cell, Pool, PFAEngine"), ("generated action", "titus/genpy.py PFAEngine.fromAst")])
prop("C08", "Shared cells and pools are updated atomically under concurrency",
     "Read-modify-write updates of a shared cell or pool item by several engine instances behave as if executed one after another, for every interleaving of their steps. "
     "A failing update releases whatever it holds, so the other instances still make progress.",
     ["schedules", "fault_sequences"], "all interleavings of two or three instances performing updates, with failing updates at any point",
     T + "tests run threads once and see one schedule.", ["titus/genpy.py"], [("Cell.update/Pool.update with lock", "titus/genpy.py")])
prop("C09", "Engine methods, counters and lifecycle follow the document",
     "map returns one output per input, emit calls the listener once per emit in order, and fold threads the running tally from the zero value, returning each new tally, with merge combining two tallies and continuing from the result. "
     "begin runs before, end after all actions; actionsStarted counts every started action and actionsFinished only successful ones, as seen both by the document and the host.",
     ["histories", "inputs"], "all sequences of inputs (some failing) up to the stated length",
     T + "histories are unbounded.", ["titus/genpy.py"], [("PFAEngine.action/begin/end/merge", "titus/genpy.py")])
prop("C10", "Arithmetic is exact or reports overflow, per numeric type",
     "Addition, subtraction, multiplication, negation, power, integer division and both moduli on int and long return the exact mathematical result when it fits and the documented overflow or domain error when not, and on float/double the IEEE result. "
     "Logical operators have their truth tables (including Kleene unknown handling) with short-circuit evaluation, and bitwise operators and rounding act on exact two's-complement or real values.",
     ["inputs"], "all operand values of each numeric type",
     T + "overflow and rounding boundaries are single points in 2^64-sized spaces.", ["titus/lib/core.py", "titus/lib/pfamath.py"], [("arithmetic functions with range checks", "titus/lib/core.py")])
prop("C11", "Numeric casts are exact, wrap modulo 2^n, or fail as documented",
     "Casting a number to int, long, float or double yields the rounded value when representable and the documented error otherwise; cast to signed/unsigned n-bit wraps modulo 2^n for every width. "
     "fanout functions produce exactly one true (or 1) position, bits equal the two's-complement digits, and cast from array/enum/avro/json round-trips.",
     ["inputs"], "all values of each numeric type, all bit widths", T + "boundary values are rare.", ["titus/lib/cast.py"], [("cast functions", "titus/lib/cast.py")])
prop("C12", "String functions satisfy their sequence specifications",
     "len, substr, substrto, concat, repeat, join, split, contains, count, index, rindex, startswith, endswith, replace*, strip family, case mapping, translate, and number formatting return what their definition over code-point sequences says, with negative indexes counting from the end and no index ever raising an undocumented error. "
     "split and join are inverse, replaceall leaves no occurrence it could replace, and concat/substr decompose.",
     ["inputs"], "all strings up to the stated length over all Unicode code points, all indexes", T + "index corner cases and string contents are unbounded.", ["titus/lib/pfastring.py"], [("string functions", "titus/lib/pfastring.py")])
prop("C13", "Array functions satisfy their sequence specifications",
     "Every array function (element access, slicing, insertion, removal, replacement, search, set operations, sorting, ranking, statistics of elements, grouping, rotation, chunking and padding) returns what its definition over sequences says, with documented errors for out-of-range arguments. "
     "Results are fresh: no input array is modified.",
     ["inputs"], "all arrays up to the stated length with arbitrary items, all indexes and sizes", T + "lengths, duplicates and index corner cases are unbounded.", ["titus/lib/array.py"], [("array functions", "titus/lib/array.py")])
prop("C14", "Higher-order array and map functions apply the callback as specified",
     "map, filter, fold, reduce, zip, corresponding, any/all, flatMap, filterMap, groupby, sort with comparator and the indexed variants call the given function on the right arguments, in the right order, the right number of times, and combine the results as specified. "
     "They propagate errors from the callback and do not modify their inputs.",
     ["inputs", "programs"], "all arrays and maps up to the stated size and uninterpreted or affine callbacks", T + "callbacks and data vary.", ["titus/lib/array.py", "titus/lib/map.py"], [("higher-order functions", "titus/lib/array.py, titus/lib/map.py")])
prop("C15", "Map functions satisfy their finite-map specifications",
     "Map functions (len, keys, values, containsKey, add, remove, only, except, update, split, join, argmax/argmin, toset/fromset and set operations) return what their definition over finite maps says, with later entries winning on conflicts. "
     "Inputs are never modified.",
     ["inputs"], "all maps up to the stated size with arbitrary keys and values", T + "key collisions and sizes vary.", ["titus/lib/map.py"], [("map functions", "titus/lib/map.py")])
prop("C16", "Bytes, fixed, enum and parse functions encode and decode exactly",
     "Encoding checks and conversions between bytes and strings (ascii, latin-1, utf-8, utf-16) and base64 agree with the encodings and are inverse where both directions exist; malformed input gives the documented error. "
     "Parsing text as numbers accepts exactly the documented syntax within range, fixed and enum conversions preserve bytes and positions.",
     ["inputs"], "all byte strings and strings up to the stated length", T + "malformed inputs are unbounded.", ["titus/lib/bytes.py", "titus/lib/parse.py", "titus/lib/fixed.py", "titus/lib/enum.py"], [("functions", "titus/lib/bytes.py, parse.py, fixed.py, enum.py")])
prop("C17", "Running statistics equal their batch definitions",
     "After any sequence of updates, the incremental count/mean/variance/covariance accumulators equal the weighted batch statistics of all data seen, exponentially weighted and window accumulators equal theirs, histograms count each datum in exactly the right bin, and top-N holds exactly the N largest. "
     "Updates return a new accumulator and leave the old one unchanged.",
     ["histories", "inputs"], "all data and weights in histories up to the stated length", T + "histories are unbounded.", ["titus/lib/stat/sample.py", "titus/lib/stat/change.py"], [("update functions", "titus/lib/stat/sample.py")])
prop("C18", "Tree models descend to the leaf their predicates select",
     "simpleTest, compoundTest and surrogateTest decide exactly the comparison their operator denotes on the named field, with errors for invalid operators or mismatched types, and missing values handled by the missing-value functions as documented. "
     "simpleTree, missingTree and simpleWalk style descent reach exactly the leaf obtained by following pass/fail/missing branches.",
     ["inputs", "configurations"], "all data and symbolic tree thresholds/operators of trees up to the stated depth", T + "trees and data vary.", ["titus/lib/model/tree.py"], [("tree functions", "titus/lib/model/tree.py")])
prop("C19", "Cluster and nearest-neighbour models choose by distance",
     "cluster.closest and closestN return the clusters with the smallest distances in order, k-means iteration moves each center toward the mean of exactly the points nearest to it, and nearest-neighbour functions return the N nearest (or all within the radius) and their mean. "
     "Distances are those of the configured metric; ties and empty inputs give the documented result or error.",
     ["inputs", "configurations"], "all points and centers up to the stated sizes and dimensions", T + "geometry varies.", ["titus/lib/model/cluster.py", "titus/lib/model/neighbor.py", "titus/lib/metric.py"], [("functions", "titus/lib/model/cluster.py, neighbor.py, metric.py")])
prop("C20", "Regression, SVM, neural and naive-Bayes scores equal their formulas",
     "Linear regression (array, map, multi-output) and its variance, Gaussian-process prediction, residuals, pulls and chi-squared updates, support vector machine score, feed-forward network layers, and naive-Bayes likelihoods equal their defining formulas for every model and datum. "
     "Structural mismatches raise the documented errors and nothing else.",
     ["inputs", "configurations"], "all models and data up to the stated sizes", T + "models vary.", ["titus/lib/model/reg.py", "titus/lib/model/svm.py", "titus/lib/model/neural.py", "titus/lib/model/naive.py"], [("functions", "titus/lib/model/*.py")])
prop("C21", "Interpolation, metric, kernel and link functions match their definitions",
     "Binning and interpolation (nearest, linear, flat, missing) select the right bin or blend neighbouring points as defined; metrics are the stated norms with missing values handled; kernels and links equal their formulas, with softmax-type links summing to one. "
     "Bad parameters and shapes give the documented errors and nothing else.",
     ["inputs"], "all inputs up to the stated sizes", T + "inputs vary.", ["titus/lib/interp.py", "titus/lib/metric.py", "titus/lib/kernel.py", "titus/lib/link.py", "titus/lib/impute.py"], [("functions", "titus/lib/interp.py, metric.py, kernel.py, link.py")])
prop("C22", "Static call analysis predicts run-time behaviour",
     "callGraph, calledBy, callDepth, isRecursive, hasRecursive and hasSideEffects report exactly what the call graph of the document implies, including calls hidden in cell and pool updates and function references. "
     "A document that could call a cell/pool update from inside another update's function is refused, and only such documents.",
     ["programs"], "all call graphs over the stated number of functions with symbolic edges", T + "graphs vary.", ["titus/genpy.py", "titus/pfaast.py"], [("call graph queries", "titus/genpy.py PFAEngine"), ("checks", "titus/pfaast.py")])
prop("C23", "Documents survive a round trip through their JSON form",
     "Reading a document into its syntax tree and writing it back yields JSON that reads into an equal tree, for every expression form, literal, type declaration and top-level section. "
     "Two trees are equal only if every component is equal, and an engine built from the rewritten document computes the same outputs.",
     ["programs"], "all expression forms with symbolic literal values", T + "documents vary.", ["titus/reader.py", "titus/pfaast.py"], [("jsonToAst", "titus/reader.py"), ("toJson/jsonNode", "titus/pfaast.py")])
prop("C24", "Options and time limits are honoured",
     "Host options override document options and document options override defaults, for every option; invalid values are refused. "
     "With a time limit, a begin, action, end or merge that runs past it stops with a timeout error at the next loop iteration and not before it, wherever the loop stands; without one they never time out.",
     ["configurations", "schedules"], "all option values and clock readings", T + "clock values are free.", ["titus/options.py", "titus/genpy.py"], [("EngineOptions", "titus/options.py"), ("ExecutionState.checkTime", "titus/genpy.py")])
prop("C25", "Library functions return values of their inferred type",
     "If a document passes semantic checking, evaluating a call on any values of the argument types yields a value of the inferred result type or a documented runtime error. "
     "The most specific matching signature is chosen and its result type does not depend on which equal alternative is tried first.",
     ["inputs", "programs"], "all argument values of the finite family of argument types for each function", T + "types times values are unbounded.", ["titus/signature.py", "titus/fcn.py", "titus/pfaast.py", "titus/lib"], [("Sig/Sigs.accepts", "titus/signature.py")])
prop("C26", "PrettyPFA text and its JSON document mean the same",
     "Every PrettyPFA construct compiles to the document its syntax denotes: operators with the documented precedence and associativity, statements, function literals, declarations and sections. "
     "Running the compiled document on any input gives the result of the equivalent JSON document.",
     ["programs", "inputs"], "all inputs to a family of texts covering each construct; operator combinations up to three operators", T + "precedence interactions multiply.", ["titus/prettypfa.py"], [("grammar and tree builder", "titus/prettypfa.py")])
prop("C27", "Chaining documents computes their composition",
     "The chained document behaves on every input sequence as feeding each engine's outputs to the next: same outputs, same per-step state, begin and end actions run, whatever names, cells, pools, functions and types the steps use. "
     "Steps whose output and input types differ are refused.",
     ["programs", "histories"], "all inputs to a family of chains mixing map and emit steps with state", T + "compositions multiply.", ["titus/producer/chain.py"], [("ast", "titus/producer/chain.py")])
prop("C28", "Time functions agree with the calendar",
     "Year, month, day, weekday, hour, minute, second extraction and timestamp construction agree with the proleptic Gregorian calendar in the given zone for every timestamp, and out-of-range inputs give the documented error. "
     "The range predicates, isWeekend and isWorkHours are true exactly on the times they describe.",
     ["inputs"], "all timestamps in the supported range", T + "dates are unbounded.", ["titus/lib/pfatime.py"], [("functions", "titus/lib/pfatime.py")])
prop("C29", "Random functions only return values in their stated range, for every draw",
     "Whatever the underlying generator returns, rand.int/long/float/double respect their bounds, choice and sample return members (without replacement where stated), histogram draws only bins with positive weight, and string/bytes draws use only the allowed characters and length. "
     "Invalid parameters give the documented error.",
     ["inputs", "fault_sequences"], "all generator outputs and arguments up to the stated sizes", T + "tests fix one seed.", ["titus/lib/rand.py"], [("functions", "titus/lib/rand.py")])
prop("C30", "Probability distributions behave as distributions on their whole domain",
     "Density functions are non-negative, cumulative functions lie in [0,1], are monotone and hit 0 and 1 outside the support, quantiles invert them; out-of-range parameters and probabilities raise exactly the documented errors, including at boundary and non-finite arguments. "
     "Special functions satisfy their defining domain rules.",
     ["inputs"], "all arguments (closed-form cases exactly; iterative ones up to their guards)", T + "domains are continuous.", ["titus/lib/prob/dist.py", "titus/lib/spec.py"], [("distributions", "titus/lib/prob/dist.py")])
prop("C31", "Linear algebra functions match matrix algebra",
     "Elementwise, product, transpose, trace, symmetric and related operations on array and map matrices equal their textbook definitions for every shape, and ragged, empty or mismatched shapes raise the documented errors only. "
     "Array and map forms agree.",
     ["inputs"], "all matrices up to the stated dimensions", T + "shapes vary.", ["titus/lib/la.py"], [("functions", "titus/lib/la.py")])
prop("C32", "A snapshot resumes the engine exactly",
     "Taking a snapshot after any history and building an engine from it gives an engine whose cells and pools hold the same values and whose future outputs equal those of the original. "
     "Taking a snapshot changes nothing in the running engine.",
     ["histories", "crash_points"], "all histories up to the stated length over cells and pools of every type", T + "histories vary.", ["titus/genpy.py", "titus/pfaast.py"], [("snapshot", "titus/genpy.py PFAEngine.snapshot")])
prop("C33", "Binary pack and unpack are inverse",
     "Unpacking what was packed with the same format returns the packed values for every format item (padding, integers of each width, signedness and byte order, floats, counted, terminated and raw byte strings), and malformed input takes the else branch. "
     "Packing a value that does not fit is a documented error.",
     ["inputs"], "all values and byte strings up to the stated length", T + "byte contents vary.", ["titus/genpy.py", "titus/pfaast.py"], [("pack/unpack", "titus/genpy.py; titus/pfaast.py BinaryFormatter")])
prop("C34", "Expression and JSON rewriting tools keep meaning",
     "Python expressions and statements converted to PFA compute what Python computes on the same values (short of integer overflow and of dividing negative integers, where the two languages differ), and Python without an equivalent is refused; index assignment and removal on documents change exactly the addressed place, in place or on a copy as named, and pattern matching finds exactly the matches. "
     "Inputs of the copying variants are never modified.",
     ["programs", "inputs"], "all numeric inputs to a family of expressions; all small JSON structures", T + "expressions vary.", ["titus/producer/expression.py", "titus/producer/tools.py"], [("pfa", "titus/producer/expression.py"), ("get/assign/remove/getmatch", "titus/producer/tools.py")])
prop("C35", "Regular-expression functions agree with POSIX matching", "Regular-expression search, split and replace return the POSIX leftmost-longest matches. Results and group positions are consistent with the haystack.",
     ["inputs"], "all patterns and haystacks", T + "patterns are unbounded.", ["titus/lib/regex.py"], [("ctypes binding to libc regcomp/regexec", "titus/lib/regex.py")],
     na="every decision is made by the C library's regcomp/regexec reached through ctypes; that code is machine code outside the repository, so there is no implementation here to encode, only marshalling")
prop("C36", "Model producers: k-means and tree training, and the documents exported",
     "Training is right for every dataset: a k-means step assigns each point to a closest center under the chosen metric, moves each center to the (weighted) mean of its points and replaces a center without points; initial centers are distinct points of the dataset; stopping conditions mean what their names say; exported clusters keep their identifiers, order and populations. "
     "A decision or regression tree splits each node at the division with the highest decrease of entropy or n-times-variance, reports that gain, leaves pure nodes alone, and its leaves partition the rows and score them with their mean or most frequent class. "
     "The exported documents are valid and score every input like the trained clusters or tree.",
     ["inputs"], "all datasets (symbolic numbers, all small combinations of categories and classes), all inputs of the exported documents", T + "datasets vary.", ["titus/producer/kmeans.py", "titus/producer/cart.py"], [("KMeans.iterate, closestCluster, pfaDocument", "titus/producer/kmeans.py"), ("TreeNode.splitOnce, *GainTerm, pfaDocument", "titus/producer/cart.py")])
prop("C37", "Transformations compute the same on Numpy data and in documents",
     "An expression given to Transformation computes, on every row of a Numpy table, dictionary of columns or record array, the value its PFA expression (as new, let or expr) computes on the same fields in a scoring engine. "
     "Columns come out in the order of the expressions, missing columns are refused, and literal strings are not mistaken for fields.",
     ["inputs"], "all numeric rows, for a family of expressions over every supported function", T + "rows vary.", ["titus/producer/transformation.py"], [("Transformation.functions, toNumpyExpr, transform, new/let/expr", "titus/producer/transformation.py")])


def registered():
    sys.path.insert(0, HERE)
    import importlib
    r = importlib.import_module("harness.registry")
    return r.PROPERTIES


def main():
    reg = registered()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None)
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=anchors)) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in reg:
            e = reg[p["id"]]
            checks.append(dict(property=p["id"], quick_cmd="python3-vt sx/run.py %s quick" % p["id"], thorough_cmd="python3-vt sx/run.py %s thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the real Python source with z3 (counterexamples replayed on PyPy)",
                               level="model_checking",
                               level_note="Bounded: " + e.get("note", "every path within the stated bounds is decided by z3; bounds are in the evidence file.")))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "not claimed: no harness has been built for it yet"))
    json.dump(dict(version=1, setup_cmd="python3-vt sx/selftest.py", checks=checks, not_applicable=na,
                   notes="Known findings: known_findings.jsonl. Design: DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]


main()
