"""The table of properties and how each is decided (rendered by build_docs.py)."""
PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, quant, why, files, mech, technique, design, bounds, cost, note, level="model_checking", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, design=design, bounds=bounds, cost=cost, note=note, level=level, **kw))


S = "src/modssc/"
DIRECT = "Runs the real code on every element of the bounded space; complete inside the bound, silent outside it. "

P("C01", "A sampled split partitions the data and honours official splits",
  "For every dataset and sampling plan that is accepted, train, validation and test are disjoint, together with any official test cover exactly the rows "
  "(less those a train-level imbalance removes), and labelled/unlabelled partition train. Official test sets and official graph masks are used exactly when the "
  "policy says so, and index references name the split they point into. A result with any single inconsistency is rejected by validation.",
  ["inputs", "configurations"], "every label vector, dataset form (inductive, official test, graph, official masks), split/labelling/imbalance/policy combination and seed",
  "Tests sample a few plans on one or two label vectors; the interactions of policy x official split x imbalance x fraction rounding on small or degenerate classes are not visited.",
  [S + "sampling/services/*", S + "sampling/splitters.py", S + "sampling/result.py"],
  [("split construction", "sampling/splitters.py"), ("policy and official splits", "sampling/services"), ("validation", "sampling/result.py: SamplingResult.validate")],
  "bounded exhaustive enumeration of inputs and plans on the real code",
  "All label vectors up to class renaming are crossed with every plan of the grid and every policy; a set-algebra oracle judges each result, and every single-cell corruption of a "
  "valid result must be rejected. Tests visit tens of points; this visits every combination, which is where rounding, empty classes and policy fall-through meet.",
  "n<=5, <=3 classes, 6 label types, 8 policies, all 4^n mask assignments for n<=4", "about 45 s on 8 cores",
  DIRECT + "Seeds are a small set.")

P("C02", "Stratified splits keep class proportions; k-folds tile the data",
  "A stratified holdout gives every class its share of each part up to rounding and never starves a part of a class it could hold. For every k the k folds are disjoint and cover the data, "
  "fold sizes (and, when stratified, per-class fold sizes) differ by at most one. Non-stratified fractions give the rounded size.",
  ["inputs", "configurations"], "every class-count vector, fraction, k, fold and seed",
  "The guarantee is about every class-count vector, including singletons and classes smaller than k; tests use balanced toy labels.",
  [S + "sampling/splitters.py"], [("holdout and k-fold index computation", "sampling/splitters.py")],
  "bounded exhaustive enumeration of class-count vectors and plans",
  "All class-count vectors over three classes are enumerated in several arrangements; per-class counts of each part are compared with exact rational bounds, folds are unioned over the whole k.",
  "n<=9, 6x6 fractions, k<=4", "about 27 s", DIRECT + "Seeds are a small set.")

P("C03", "Labelled budgets and class-imbalance caps are met exactly",
  "Count, fraction and per-class labelling give exactly the requested number of labelled rows subject to the per-class minimum and the class sizes, drawn from train only; a fixed index list is used as is or rejected. "
  "Imbalance never leaves a class above its cap, never drops a row it need not drop and never invents rows. Impossible requests are rejected.",
  ["inputs", "configurations"], "every class-count vector, labelling mode, value, minimum and strategy; every imbalance kind and cap",
  "Budget arithmetic interacts with class sizes (largest-remainder, minima, exhausted classes); tests fix one class distribution.",
  [S + "sampling/labeling.py", S + "sampling/imbalance.py"], [("labelled selection", "sampling/labeling.py"), ("imbalance", "sampling/imbalance.py")],
  "bounded exhaustive enumeration against a counting reference",
  "Every class-count vector is crossed with every labelling and imbalance specification and judged by an independent counting oracle.",
  "n<=9 over <=3 classes, per-class minimum 0..3, caps 1..4", "about 10 s", DIRECT)

P("C04", "A split depends only on data, plan and seed, stage by stage",
  "The same labels, plan and seed give the same split in any process and after any sequence of other calls or global reseeding, and sampling neither mutates its inputs nor consumes global random state. "
  "Changing the labelling or labelled-imbalance part of a plan never changes train/validation/test, and changing imbalance never changes which rows were eligible before it.",
  ["histories", "inputs", "configurations"], "every history of preceding operations up to the bound, every pair of plans that differ in one stage",
  "Tests call sample twice in a row; hidden state and stream coupling only show after particular sequences or between plans that differ in one stage.",
  [S + "sampling/services/*", S + "utils/seed.py"], [("per-stage seed derivation", "utils/seed.py"), ("orchestration", "sampling/services")],
  "exhaustive exploration of operation histories; differential between plans",
  "All operation sequences up to the depth are executed before the call under test and the result is compared with the one computed first; all labelling x imbalance pairs are compared on their common stages; fresh interpreters under several hash seeds.",
  "histories of length <=3 over 9 operations; label vectors n<=6", "about 33 s", DIRECT)

P("C05", "A saved split loads back exactly; a kill mid-save is never misread",
  "Loading a saved split returns exactly what was saved. If a save is killed or fails at any point, loading afterwards returns the previous split or the new one in full or raises, never a mixture, and saving again repairs it.",
  ["crash_points", "fault_sequences", "inputs", "histories"], "every file-system event of a save (fresh or overwriting), every torn prefix class of the file in flight, every injected I/O error",
  "Unit tests never kill a save; the states between two file-system events are unreachable for them.",
  [S + "sampling/storage.py"], [("write ordering and atomic metadata", "sampling/storage.py: save_split")],
  "exhaustive crash-point and torn-write enumeration on the real code",
  "An audit hook turns every mutating file-system call into an event; for each event the process is killed just before it (os._exit in a forked child), the file in flight is torn, and the survivor is loaded and compared with the two legal outcomes; then the save is repeated.",
  "6x6 ordered pairs of splits, every event, 4 torn patterns, an OSError at every event; round trip for all label vectors n<=5 x 12 plans", "about 5 s",
  "Every kill point at the granularity of Python file-system audit events; data handed to the OS survives the kill (no power-loss reordering).", level="fault_enumeration")

P("C06", "Declarative plans and registries mean what they say",
  "A sampling plan, preprocessing plan or graph spec written out and read back (JSON, YAML, any key order) is the same plan with the same fingerprint; different ones differ in both; a missing key takes its documented default; an unknown key, an unknown choice, a section of the wrong kind or a step without an id is refused. "
  "validate() accepts exactly the graph specs and view plans that satisfy the documented constraints. A registry lists exactly what was registered, sorted, resolves each id to its class and metadata, and refuses conflicts and unknown ids without changing; every built-in id listed is there under that id.",
  ["configurations", "operation histories"], "every plan over small value sets, every pair of graph-spec deviations, every registry history of 3 operations",
  "A field dropped on the way to disk, a default that differs between reader and writer, or a constraint checked for one scheme only shows for a few of thousands of configurations.",
  [S + "sampling/plan.py", S + "preprocess/plan.py", S + "graph/specs.py", S + "views/plan.py", S + "utils/registry.py", S + "*/registry.py"],
  [("sampling plans", "src/modssc/sampling/plan.py"), ("preprocessing plans", "src/modssc/preprocess/plan.py"), ("graph specs", "src/modssc/graph/specs.py"), ("view plans", "src/modssc/views/plan.py"), ("registries", "src/modssc/utils/registry.py")],
  "bounded exhaustive enumeration of plans and registry histories on the real code",
  "Every plan of the bound is written, read back through each format and compared with itself and with an independently written form, kinds of leaves included; validity is compared with independent predicates; every registry history is run against a dictionary model.",
  "value sets of 2-6 per field; pairs of deviations; histories of 3", "about 10 s", DIRECT)
P("C07", "Search spaces enumerate exactly their points; patches merge exactly",
  "Grid search yields every combination of the declared values exactly once per declared occurrence in a deterministic order; random search yields values inside the declared range, type and support, as a pure function of seed and index, and a longer run extends a shorter one. "
  "Malformed spaces are rejected when declared. Merging a patch changes exactly the patched leaves and mutates neither input.",
  ["inputs", "configurations"], "every nesting and order of leaves, every distribution, every pair of small trees",
  "Combinatorial in nesting, order and leaf kind; tests check one or two flat spaces.",
  [S + "hpo/space.py", S + "hpo/samplers.py", S + "hpo/patching.py"], [("space parsing", "hpo/space.py"), ("grid/random samplers", "hpo/samplers.py"), ("patch algebra", "hpo/patching.py")],
  "bounded exhaustive enumeration against a reference model",
  "Every space with up to three leaves over 8 key paths and 9 leaf kinds in every insertion order is compared with an independent product; all pairs of trees of depth two are merged and compared leaf by leaf.",
  "3 leaves, 5 seeds x n<=8, depth-2 trees over 2 keys", "about 47 s", DIRECT + "Random values are judged by support, not distribution.")

P("C08", "Reported metrics equal their definitions for every prediction",
  "Accuracy, balanced accuracy and macro-F1 equal their textbook definitions for every pair of label vectors, in every accepted representation (labels, scores, one-hot, lists, tensors), independent of label values and row order. The evaluation command reports the same numbers as the library.",
  ["inputs"], "every pair of truth/prediction vectors including classes missing from either side, every representation",
  "A metric is a function of all contingency tables; tests check a handful.",
  [S + "evaluation/metrics.py", S + "cli/evaluation.py"], [("metrics", "evaluation/metrics.py"), ("command", "cli/evaluation.py")],
  "bounded exhaustive enumeration against exact rational definitions",
  "Every truth/prediction pair is evaluated in every representation and compared with metrics computed in exact rationals; the command line is run in-process on saved arrays.",
  "n<=5, <=3 true classes plus one unseen, 6 label alphabets", "about 12 s", DIRECT + "Macro averages run over the classes present in the truth.")

P("C09", "Feature views select exactly the declared columns and keep rows and labels",
  "Each generated view contains exactly the declared columns of the source features, in order, for train and test alike, with rows, labels, edges and masks unchanged; a random view has the declared size and depends only on seed and plan, and a complement is the exact complement. "
  "Source data and metadata are never modified; malformed view plans are rejected.",
  ["inputs", "configurations"], "every view plan over the feature menu, every dataset form and seed",
  "Complement-of-complement, overlapping references and mutation of shared metadata appear only in particular plans.",
  [S + "views/services/*", S + "views/plan.py"], [("column resolution", "views/services"), ("plan validation", "views/plan.py")],
  "bounded exhaustive enumeration of view plans",
  "All two-view plans and a third of the three-view plans over every index subset, random fraction and complement are run on six dataset forms and compared with set algebra on columns.",
  "1..5 features, 6 dataset forms, 2 seeds", "about 17 s", DIRECT)

P("C10", "An augmentation depends only on its input, plan, seed, epoch and sample id",
  "Applying an augmentation or pipeline gives the same result for the same input, plan and context whatever was computed before and however global random state was seeded, and neither mutates its input nor consumes global random state. "
  "Different seeds, epochs and samples get different randomness, and augmenting a batch gives each row what augmenting it alone would.",
  ["histories", "inputs", "configurations"], "every registered operation, input form, context and history of preceding calls; every order and subset of a batch",
  "Hidden global generators only show when the call is preceded by other draws; tests reseed and compare once.",
  [S + "data_augmentation/api.py", S + "data_augmentation/ops/*", "bench/orchestrators/augmentation.py"],
  [("context to generator", "data_augmentation/utils.py"), ("pipeline", "data_augmentation/api.py"), ("operations", "data_augmentation/ops"), ("batch application", "bench/orchestrators/augmentation.py")],
  "exhaustive exploration of call histories",
  "Every operation is applied after every history of length two over six disturbing actions and its result hashed per context; all same-modality pipelines of two steps; every permutation of every subset of four rows through the batch path.",
  "18 operations x contexts x histories of length 2; batches of <=4 rows", "about 6 s", DIRECT)

P("C11", "Augmentations stay within their declared semantics for every random outcome",
  "For every outcome of the random source each operation does only what it declares: dropped or masked positions are the only change, swaps permute, crops and shifts are windows of the input, edges keep their weights, padding tokens never move, probability zero is the identity and one is total. "
  "Shape and type are kept, array and tensor inputs agree, and out-of-range parameters are rejected.",
  ["inputs", "schedules", "configurations"], "every answer sequence of the random source, every operation, parameter and small input",
  "A seeded test sees one random outcome; off-by-one windows or padding moves need a specific draw.",
  [S + "data_augmentation/ops/*"], [("operations", "data_augmentation/ops")],
  "stateless exploration of every answer of the random source (choice-point replay)",
  "The generator passed to the operation is replaced by one whose every draw is a choice point; depth-first replay enumerates all answer sequences, each judged by a per-operation relation and replayed on the tensor form.",
  "all answer sequences up to 4000 per case (cap hit in 2 of 313 cases, reported)", "about 10 s",
  DIRECT + "Uniform draws are abstracted to three representatives around the thresholds used.")

P("C12", "The dataset cache behaves like a map from dataset request to its content",
  "A dataset that is cached loads without contacting its provider and equals what was stored; one that is not cached is fetched once, or reported as not cached when downloading is off. "
  "Refresh, purge and keep-latest affect exactly the entries they name, the index lists exactly what is cached, different requests never share an entry, and a failed fetch never leaves wrong data behind.",
  ["histories"], "every history of loads, refreshes, purges, reindexing, upstream changes and provider outages up to the bound",
  "State accumulates on disk across operations; tests exercise single operations on a fresh directory.",
  [S + "data_loader/*"], [("cache and index", "data_loader/cache.py"), ("load/download", "data_loader/services/service.py"), ("storage", "data_loader/storage/files.py")],
  "exhaustive exploration of operation histories against a reference model",
  "A stub provider with controllable content is registered; every operation history over a 22-letter alphabet is run on a fresh cache and after every step results, provider calls, index and presence are compared with a map-based model.",
  "length 3 over 22 operations, length 4 over 9", "about 22 s", DIRECT)

P("C13", "A killed or failing cache operation never leaves a dataset that reads wrong",
  "If the process dies or an I/O error strikes at any point of a download, refresh, purge, keep-latest or reindex, later loads return the previous content or the new content in full or report the dataset as not cached; "
  "the next download succeeds at once and other cached datasets are untouched.",
  ["crash_points", "fault_sequences", "histories"], "every file-system event of every cache operation, every torn prefix class of the file in flight, every injected I/O error",
  "Tests never kill the process between two file-system accesses.",
  [S + "data_loader/cache.py", S + "data_loader/services/service.py", S + "data_loader/storage/*"],
  [("ordering of manifest and data", "data_loader/services/service.py: _download_and_store"), ("purge", "data_loader/cache.py: purge_fingerprint")],
  "exhaustive crash-point, torn-write and I/O-error enumeration on the real code",
  "As C05: every audit event of the operation is a kill point; the surviving directory is then loaded offline, online, offline again and force-refreshed, and each answer compared with the legal contents.",
  "7 operations x 4 dataset forms x every event x 4 torn patterns; ENOSPC at every event; second kill during recovery", "about 15 s",
  "Every kill point at Python file-system audit events; the sqlite index file is trusted to be atomic.", level="fault_enumeration")

P("C14", "Concurrent loads of a dataset never corrupt it or download it twice at once",
  "When several processes load, download or refresh the same dataset at the same time, at most one of them talks to the provider at any moment, each gets the complete dataset or an explicit error, at least one succeeds, "
  "and afterwards the entry is complete, indexed once and unlocked. Loads of different datasets never block or disturb each other.",
  ["schedules"], "every interleaving, up to the preemption bound, at file-system access granularity",
  "Needs a specific interleaving of lock file, manifest and data accesses; tests run one loader at a time.",
  [S + "data_loader/cache.py", S + "data_loader/services/service.py"], [("entry lock", "data_loader/cache.py: cache_lock"), ("double-checked load", "data_loader/services/service.py: _download_and_store")],
  "stateless preemption-bounded schedule exploration of the real code under a controlled scheduler",
  "Each participant stops before every file-system access (audit events and stat calls); all schedules with at most the bounded number of preemptions are executed by replay from the start, accesses that commute with all others being merged.",
  "2 participants: all pairs of load/offline/force, <=2 preemptions; 3 participants: <=1 preemption", "about 110 s (33,000 schedules)",
  "Participants are threads of one process with separate file descriptions. A reader overlapping a refresh may fail but not read wrong data.")

P("C15", "Stored datasets load back exactly and stored paths never escape the cache",
  "Whatever arrays a dataset holds, the cached copy has the same values, types, shapes, split structure, masks and metadata as what was stored. Requests that resolve to different data never share a cache entry. "
  "Class filters and sample limits keep rows and labels aligned and are exact. A path recorded in a cache manifest is followed only if it stays inside its entry.",
  ["inputs", "configurations"], "every pair of array forms, every short path over a tree with links, every label vector x filter x limit, every pair of option sets",
  "The guarantee is over all array kinds and all manifest contents; tests store a few arrays and try one '..' path.",
  [S + "data_loader/storage/*", S + "data_loader/providers/*", S + "utils/io.py", S + "preprocess/cache.py"],
  [("array formats", "data_loader/storage/files.py"), ("path containment", "utils/io.py: resolve_relative_path"), ("limits", "data_loader/providers/common.py"), ("identity", "data_loader/types.py: DatasetIdentity.fingerprint")],
  "bounded exhaustive enumeration against reference results",
  "All 38x38 pairs of array forms are stored and compared; all paths of up to three components over names including '..', links leading in and out and absolute prefixes are resolved and read through the dataset and preprocess caches and compared with the kernel's own resolution.",
  "38 forms, 584 paths x 4 prefixes, label vectors n<=5, 72 option sets", "about 5 s", DIRECT)

P("C16", "Preprocessing results never depend on the state of the step cache",
  "For every dataset, plan, seed and fit subset, preprocessing with the cache gives exactly what it gives without it, value for value and type for type, whatever runs filled the cache before: "
  "other plans, other datasets, other seeds, other fit rows, a step cached for one split only. Every value a step can produce either comes back unchanged or is not cached. Results depend on the preprocess seed only, never on global random state.",
  ["histories", "inputs", "configurations"], "every pair and sequence of plans sharing one cache directory, every kind of value a step can produce",
  "A wrong cache key shows only when two particular runs meet in the same cache; tests run one plan twice.",
  [S + "preprocess/cache.py", S + "preprocess/fingerprint.py", S + "preprocess/services/*", S + "preprocess/steps/*"],
  [("step fingerprints", "preprocess/fingerprint.py"), ("cached step execution", "preprocess/services/pipeline.py"), ("value storage", "preprocess/cache.py")],
  "exhaustive exploration of run histories on a shared cache against cache-free runs",
  "All plans up to three steps per modality run cold and warm in one cache directory shared with all plans of the same last step, by two datasets, two seeds and two fit subsets; each result is compared bit for bit with a run without cache. "
  "33 kinds of artifact values (nested lists, tuples, sparse, tensors, object arrays, dictionaries) pass through a probe step.",
  "plans of <=3 steps over 22/15/15/12 configured steps", "about 80 s", DIRECT + "Datasets carry the content fingerprint the loader gives them.")

P("C17", "A killed, damaged or concurrently used step cache never changes a result",
  "If a preprocessing run dies or hits an I/O error at any point, or cached files are later missing, empty or cut, or several runs share the cache at the same time, then every run that completes returns exactly the cache-free result.",
  ["crash_points", "fault_sequences", "schedules"], "every file-system event of a run with torn writes and I/O errors, every damaged file or pair of files, every interleaving of runs up to the preemption bound",
  "Needs a kill between two writes, a particular damaged file or a particular interleaving.",
  [S + "preprocess/cache.py", S + "preprocess/services/*"], [("entry publication", "preprocess/cache.py"), ("recompute on failure", "preprocess/services/pipeline.py")],
  "exhaustive crash-point, damage and schedule enumeration on the real code",
  "As C13/C14: every audit event of a run is a kill point and an ENOSPC point; each surviving directory is used by the same and by a sharing plan; every file and pair of files of a complete cache is removed, emptied or cut; two and three runs are interleaved at file-system access granularity.",
  "14 plans, all events x 4 torn patterns, 5000 schedules", "about 55 s",
  "Kill points are Python file-system audit events; a bare JSON number cut at rest is not covered.", level="fault_enumeration")

P("C18", "Preprocessing learns from the fit rows only and keeps rows aligned",
  "What a step does to a row depends on that row and the fit rows of the training split alone: changing other training rows or any test row changes nothing else, test rows are transformed one by one, row order is kept, "
  "and the same label has the same code in training and test whatever labels each split contains.",
  ["inputs", "configurations"], "every fit subset, every single-row replacement, every permutation and subset of the test rows, every pair of train and test label vectors",
  "Leakage of statistics and misaligned rows give plausible values; a test has to compare perturbed runs.",
  [S + "preprocess/steps/*", S + "preprocess/services/*"], [("fit subset", "preprocess/services/pipeline.py"), ("label codes", "preprocess/steps/labels"), ("statistics", "preprocess/steps")],
  "bounded exhaustive enumeration of fit subsets and row perturbations (non-interference by comparison of runs)",
  "For every plan and fit subset each single row is replaced in turn and the other rows of the result must not move; test rows are transformed alone, permuted and as subsets; all label vector pairs are encoded and codes compared across splits.",
  "5 train and 3 test rows; labels train n<=4, test n<=3 over 4 labels in 4 encodings", "about 15 s", DIRECT)

P("C19", "A preprocessing plan does exactly its applicable steps, in order",
  "The result of a plan equals running, in order and by hand, exactly the steps that are enabled, match the modality and find their required fields; steps that do not apply change nothing. "
  "The output key selects the named artifact, purging unused artifacts changes no output, input datasets are not modified and caller arrays not written.",
  ["configurations", "inputs"], "every plan up to three steps over the registered steps and every combination of conditions",
  "Plan resolution, artifact flow and purging interact; tests run a few plans.",
  [S + "preprocess/services/*", S + "preprocess/registry.py", S + "preprocess/api.py"], [("resolution", "preprocess/services/pipeline.py: resolve_plan"), ("purging", "preprocess/services")],
  "bounded exhaustive enumeration of plans against a reference interpreter",
  "All plans up to the bound run through the pipeline with purging on and off and four output keys; a 40-line interpreter runs the same steps by hand. All condition combinations are resolved and compared.",
  "plans of <=2 steps in full and of 3 steps over reduced alphabets", "about 8 s", DIRECT)

P("C20", "Each preprocessing step computes its documented function",
  "Imputation, scaling, projection, whitening, one-hot encoding, tokenisation, tf-idf, resizing, channel conversion, normalisation, casting and edge sparsification give, for every input, what their definition says, "
  "including missing values, constant columns, empty texts, single rows and repeated edges, and keep declared types and shapes.",
  ["inputs", "configurations"], "every small matrix with missing values and every fit subset, every small corpus, image shape and edge list with every random outcome",
  "Definitions must hold for degenerate inputs that tests do not list; sparsification only goes wrong for particular draws.",
  [S + "preprocess/steps/*"], [("step implementations", "preprocess/steps")],
  "bounded exhaustive enumeration of inputs (and random answers) against reference implementations",
  "Every small input is passed through every step and compared with an independent implementation written from the documentation; all answers of the random source are explored for sparsification.",
  "matrices <=3x3, corpora of 3 texts of <=3 tokens, images up to 6x6 to 7x7, <=3 edges", "about 35 s", DIRECT)

P("C21", "Neighbour graphs contain exactly the neighbours their definition names",
  "For every set of points a kNN graph gives each node exactly min(k, n-1) distinct other nodes, none farther than any node left out; an epsilon graph has exactly the pairs within the radius; an anchor graph links "
  "nodes through their nearest anchors. All backends (numpy, sklearn, faiss) and all chunk sizes agree, the reported distances are the true ones, and a build resumed after part of its chunks were lost gives the same graph.",
  ["inputs", "configurations", "crash_points"], "every small point sequence (coinciding points and zero vectors included), every k and radius, every subset of saved chunks lost",
  "Coinciding points, ties, chunk borders and k >= n are where neighbour searches go wrong; tests use well-separated random points.",
  [S + "graph/construction/*"], [("backends", "graph/construction/backends"), ("schemes", "graph/construction/schemes"), ("resume", "graph/construction/builder.py")],
  "bounded exhaustive enumeration of point sets and configurations against brute force",
  "Every point sequence over a small lattice runs through every backend, chunking, metric and k or radius; edges and distances are compared with a brute-force search that accepts any tie breaking. Resume is explored over all subsets of lost chunks.",
  "n<=5 points on {0,1,3}, n<=4 in the plane; anchors n<=6", "about 50 s", DIRECT + "Large coordinates (single-precision cancellation) are not judged.")

P("C22", "Graph post-processing is the matrix operation it names",
  "Edge weighting, symmetrisation (and, or, mutual, none), self loops, normalisation (row, symmetric) and the adjacency formats equal the corresponding operations on the dense weight matrix, for every edge list including "
  "loops, repeated edges and isolated nodes; a built graph is exactly the composition of the requested operations, and masks built from indices mark exactly these nodes.",
  ["inputs", "configurations"], "every edge list up to the bound and every combination of builder options",
  "Repeated edges, loops and isolated nodes behave differently per operation; tests use one or two simple graphs.",
  [S + "graph/construction/ops/*", S + "graph/featurization/ops/*", S + "graph/masks.py", S + "graph/construction/api.py"],
  [("operations", "graph/construction/ops"), ("adjacency", "graph/featurization/ops/adjacency.py"), ("masks", "graph/masks.py")],
  "bounded exhaustive enumeration of graphs and options against dense-matrix references",
  "All edge lists and weightings go through each operation and are compared with a dense computation; all option combinations are built on several point sets and compared with the composition of the references.",
  "3 nodes, <=3 edges in sequence and all edge sets; thorough 4", "about 8 s", DIRECT)

P("C23", "Graph and view caches never change a result",
  "For every history of graph, view and bench graph requests on one cache directory, each request gives exactly what it gives without a cache: another spec, seed, dataset, feature matrix, edge weighting, "
  "edge shard size or train/test setting never gets a result made for something else, and re-saving an entry in another layout leaves nothing of the old one.",
  ["histories", "configurations"], "every ordered pair (and triple) of requests on one cache directory",
  "A wrong cache key needs two particular requests in one directory; tests repeat one request.",
  [S + "graph/cache.py", S + "graph/fingerprint.py", S + "graph/construction/api.py", S + "graph/featurization/api.py", "bench/orchestrators/graph.py"],
  [("graph keys", "graph/fingerprint.py"), ("entries", "graph/cache.py"), ("bench keys", "bench/orchestrators/graph.py")],
  "exhaustive exploration of request histories on a shared cache against cache-free results",
  "All ordered pairs of 42 graph, 37 view and 36 bench requests (each differing from a base in one or two fields) and all triples of a subset run on one directory; every answer is compared bit for bit with the cache-free one.",
  "42/37/36 requests, pairs in full, triples of 9 (42 thorough)", "about 20 s", DIRECT + "A dataset fingerprint given by the caller identifies the features.")

P("C24", "Killed, damaged or concurrent graph builds never yield a wrong graph",
  "If a graph or view build dies or meets an I/O error at any point, or cached files are later missing, empty or cut, or several builders share the cache at the same time, every build that completes returns exactly the "
  "graph a clean build returns, and a damaged entry is rebuilt, not reported as an error for ever.",
  ["crash_points", "fault_sequences", "schedules"], "every file-system event of a build with torn writes and I/O errors, every damaged file or pair, every interleaving of builders up to the preemption bound",
  "Needs a kill between two writes, a particular damaged file or a particular interleaving.",
  [S + "graph/cache.py", S + "graph/construction/*", S + "graph/featurization/api.py"],
  [("entry publication", "graph/cache.py"), ("chunk files", "graph/construction/builder.py"), ("rebuild", "graph/construction/api.py")],
  "exhaustive crash-point, damage and schedule enumeration on the real code",
  "As C13/C14/C17, for nine kinds of build on a cold cache and over an entry of another shard size: all kill points with torn writes, all ENOSPC points, all damaged files and pairs, all schedules of two and three builders.",
  "9 operations, all events x 4 torn patterns, about 4700 schedules", "about 25 s",
  "Kill points are Python file-system audit events; participants of a schedule are threads.", level="fault_enumeration")

P("C25", "Graph views compute what they are named for",
  "The attribute view is the features, the diffusion view is the stated recurrence on the stated normalised adjacency, and the structural view is the embedding of co-occurrences of walks that follow existing edges only, "
  "with the stated length, number, window and bias; the PyTorch Geometric data carries the same edges, weights, labels and masks.",
  ["inputs", "configurations"], "every small graph x weighting x parameters; for random walks every possible outcome of the walks as reference",
  "Walks along missing edges, off-by-one windows and wrong normalisation give plausible embeddings; tests check shapes.",
  [S + "graph/featurization/*", S + "graph/adapters/*"],
  [("diffusion", "graph/featurization/views/diffusion.py"), ("walks", "graph/featurization/node2vec.py"), ("adapter", "graph/adapters/pyg.py")],
  "bounded exhaustive enumeration of graphs and parameters; every possible walk outcome enumerated as the reference set",
  "All small graphs run through the diffusion view against a dense recurrence; for graphs with forced walks the structural embedding must equal the reference, for all other graphs it must be among the embeddings of all possible sets of walks.",
  "3 nodes <=3 edges (4 thorough), walks on <=4 nodes", "about 25 s", DIRECT)

P("C26", "Supervised classifiers keep the caller's labels and depend on last fit and seed",
  "For every registered classifier: predictions are among the labels it was fitted on, score columns follow its class list and agree with predict, each row's answer does not depend on the other rows asked, "
  "refitting leaves nothing behind, the same data and seed give the same model whatever the global random state, and inputs are not modified. k-nearest-neighbours equals brute force on all backends. "
  "The registry reports and creates exactly what is installed.",
  ["inputs", "configurations", "histories"], "every label vector and label encoding on few rows, every short sequence of fits and predictions, every small point set for kNN, every classifier, backend and set of extras",
  "Tests fit one classifier once on labels 0..K-1; gaps in labels, a class seen once, refits with other labels and other global random states are not visited.",
  [S + "supervised/*"],
  [("classifiers", "supervised/backends"), ("label encoding", "supervised/utils.py"), ("registry", "supervised/registry.py, supervised/api.py")],
  "bounded exhaustive enumeration of inputs and of operation sequences on the real code",
  "All label vectors over three classes in eight encodings run through every classifier; every sequence of fit A/B/C and predict is compared with a fresh object; kNN is compared with brute force on every small point set.",
  "n<=4 rows, 8 encodings, sequences of 3 operations (4 thorough)", "about 46 s", DIRECT)

P("C27", "Iterative semi-supervised methods add exactly the pseudo-labels they should",
  "Pseudo-label, self-training (with group propagation), co-training, tri-training, democratic co-learning, SETRED and S4VM train each classifier, round by round, on the labelled rows plus exactly the unlabelled rows and labels "
  "their algorithm accepts, stop when it says so, and answer with the final classifiers in the caller's labels. The numpy and torch implementations agree.",
  ["inputs", "histories", "configurations"], "every answer a base classifier can give in every round, for each method and spec variant",
  "A loop that adds a row twice, to the wrong learner, under a column index or after the stop rule is wrong only for particular sequences of classifier answers; tests run one real classifier.",
  [S + "inductive/methods/pseudo_label.py", S + "inductive/methods/self_training.py", S + "inductive/methods/co_training.py", S + "inductive/methods/tri_training.py",
   S + "inductive/methods/democratic_co_learning.py", S + "inductive/methods/setred.py", S + "inductive/methods/s4vm.py", S + "inductive/methods/helpers/classifier_bridge.py"],
  [("selection", "inductive/methods/helpers/classifier_bridge.py"), ("loops", "inductive/methods"), ("voting and intervals", "inductive/methods/democratic_co_learning.py")],
  "stateless exploration of the real loops under every behaviour of a scripted base classifier, against a reference state machine",
  "The base classifier is registered as an arbitrary function of (seed, training set, row); every value is a choice point, so depth-first replay enumerates every run of the loop. A reference state machine asked the same table must end with the same training sets, on numpy and torch.",
  "<=3 unlabelled rows, <=3 classes, about 500000 executions", "about 150 s", DIRECT + "Ties between equal confidences are not judged.")

P("C28", "Propagation, cut, walk and PDE methods compute the solution they define",
  "Label propagation and spreading, dynamic label propagation, Laplace and p-Laplace learning, lazy random walks, graph mincuts, Poisson learning and Poisson MBO return, for every graph and labelled set, the scores their "
  "definition gives (each iterate, fixed point, harmonic function, minimum cut or hitting score), with labelled nodes clamped where defined, one column per known class, and numpy and torch in agreement. "
  "The sparse operators and conjugate-gradient solver under them equal their dense matrices.",
  ["inputs", "configurations"], "every small graph, weighting, labelled set and label vector, step by step and to convergence",
  "Tests run one or two toy graphs and compare shapes or argmax; isolated nodes, unlabelled components, parallel edges, missing classes and early iterations are not visited.",
  [S + "transductive/methods/classic/*", S + "transductive/methods/pde/*", S + "transductive/methods/utils.py", S + "transductive/operators/*", S + "transductive/solvers/*", S + "transductive/backends/*"],
  [("methods", "transductive/methods/classic, transductive/methods/pde"), ("operators", "transductive/operators"), ("solvers", "transductive/solvers")],
  "bounded exhaustive enumeration of graphs and labellings on the real code against dense references",
  "All graphs on few nodes with three weightings, all labelled sets and labellings up to renaming run through every method; a dense float64 reference gives each iterate, the converged solution and, for cuts, the enumeration of all cuts.",
  "n<=4 nodes (5 thorough), iterations 0..4 and converged", "about 120 s", DIRECT + "Ties and near-zero margins are not judged; symmetric normalisation is judged on symmetric graphs.")

P("C29", "Transductive methods ignore hidden labels and depend only on the data and seed",
  "For every registered transductive method: changing the labels of nodes outside the training and validation sets never changes a prediction; equal data and seed give equal results whatever the global random state, "
  "earlier fits of the object or edits of the data since; inputs are not modified. Neural methods compute the propagation their definition gives and keep the parameters of the best validation epoch within the patience. "
  "Edge order and node numbering do not matter. Malformed datasets are refused.",
  ["inputs", "histories", "configurations"], "every graph and hidden labelling on few nodes, every short history of one object, every malformed dataset built from each defect, every method",
  "Label leakage, seed escapes, stale caches and off-by-one early stopping leave shapes and toy accuracies intact; tests fit each method once on one graph.",
  [S + "transductive/methods/*", S + "transductive/validation.py", S + "transductive/registry.py", S + "transductive/adapters/pyg.py"],
  [("training loop and data preparation", "transductive/methods/gnn/common.py"), ("methods", "transductive/methods"), ("validation", "transductive/validation.py")],
  "bounded exhaustive enumeration of graphs, labellings and operation sequences on the real code",
  "Each method is refitted for every hidden labelling of every small graph under scrambled global random states and must answer bit for bit the same; every operation sequence on one object is compared with fresh objects; "
  "forward passes are compared with dense references; the epoch selected is compared with the reference rule applied to per-epoch reruns.",
  "4-node graphs, 3-node digraphs, sequences of 4 operations (5 thorough)", "about 160 s", DIRECT + "Poisson learning and dynamic label propagation answer with unnormalised scores; only finiteness is judged for them.")

P("C30", "Deep SSL methods take exactly the optimiser steps their losses define",
  "Every deep inductive method (FixMatch, DeFixMatch, AdaMatch, FlexMatch, FreeMatch, SoftMatch, Pi-Model, Mean Teacher, Temporal Ensembling, UDA, Noisy Student, ADSH, CoMatch, DASO, MixMatch, VAT, Deep Co-Training, Meta Pseudo Labels, SimCLRv2, Tri-Net) "
  "moves the model at every step by the gradient of its documented loss, with confidence masks, distribution alignment, queues, running statistics, teachers, warm-ups and stop-gradients as configured. "
  "Weak and strong versions of one row stay paired, an epoch visits every row before repeating one, stages follow the configured epochs, and predictions are the softmax of the final model whatever its training mode.",
  ["inputs", "histories", "configurations"], "every combination of the loss settings, each confidence pattern of a few rows, several epochs of batches, all deep methods",
  "A wrong normaliser, a missing detach, a misaligned pair or a stale statistic still trains and still returns probabilities; tests run one epoch and check shapes.",
  [S + "inductive/methods/*", S + "inductive/deep/*"],
  [("deep methods", "inductive/methods"), ("model bundles", "inductive/deep")],
  "bounded exhaustive enumeration of training histories on the real code with a step-by-step reference",
  "A table model on unit vectors with logged plain gradient descent makes every batch and every gradient observable; each optimiser step of each enumerated history is compared with the gradient of an independently written loss that carries its own state (queues, averages, teachers).",
  "2-3 classes, up to 3 labelled and 5 unlabelled rows, up to 3 epochs, all loss settings", "about 250 s", DIRECT + "The Meta Pseudo Labels feedback is taken as implemented (it scales the entropy of the teacher); architectures and real augmentations are out of scope.")

P("C31", "Inductive methods share one contract: validated, fresh, seed-only, batch-free",
  "For all 28 inductive methods: a malformed dataset, model bundle or setting is refused with InductiveValidationError; predicting before fit raises; a fit depends only on specification, data and seed - not on earlier fits or predictions of the object, "
  "nor on global random state - and leaves its inputs unchanged. predict_proba rows are probabilities and predict is their arg max in the sorted labels seen; a row's prediction does not depend on batch size, other rows, or the models' training mode, which is left as found. "
  "Data helpers (slicing and joining graphs, batching, selecting confident rows) keep rows, edges, weights and labels together.",
  ["inputs", "histories", "configurations"], "every short operation sequence of one object, every combination of field defects, every small graph and index, every batch size, all methods",
  "State carried over between fits, escapes to global generators, batch-dependent predictions and lost edge weights show only in particular sequences, batch sizes or graphs, not in one fit-and-predict test.",
  [S + "inductive/validation.py", S + "inductive/adapters/*", S + "inductive/methods/*", S + "inductive/registry.py", S + "inductive/seed.py", S + "inductive/deep/validation.py"],
  [("data helpers", "inductive/methods/helpers/torch_support.py"), ("selection and validation helpers", "inductive/methods/helpers/classifier_bridge.py"), ("adapters", "inductive/adapters/torch.py")],
  "bounded exhaustive enumeration of operation sequences, datasets and graphs on the real code",
  "Every operation sequence up to the bound is run on one object and compared with fresh objects under other global random states; every combination of field defects goes through each adapter against a predicate; every small graph, index and batch schedule goes through the helpers against set-level definitions.",
  "3 operations (4 thorough), 86400 datasets per adapter, graphs of 3 nodes", "about 60 s", DIRECT)

P("C32", "The benchmark trains, predicts and scores exactly the rows it says it does",
  "Every metric the benchmark reports is computed on the rows of the named split, pairing each row's true label with what the method predicts for that row, whatever the container (NumPy, torch, graph, views), label form or official test split. "
  "A method sees the labels of labelled training rows only, and its unlabelled data are the unlabelled training rows in order. Selecting rows of arrays, mappings and graphs keeps features, edges, edge weights and per-node data together; "
  "augmented weak/strong copies stay aligned with their rows; labels missing from the labelled set do not shift columns. Impossible requests are refused.",
  ["inputs", "configurations"], "every dealing of 5-6 rows to the splits, every truth and prediction of 3 rows, every small graph and index list, every container",
  "An index taken from the wrong partition, a shifted test offset or a column number used as a label only shows for particular orders, splits and labelled sets; the reported score stays plausible.",
  ["bench/orchestrators/evaluation.py", "bench/orchestrators/slicing.py", "bench/orchestrators/method_inductive.py", "bench/orchestrators/method_transductive.py", "bench/orchestrators/augmentation.py", "bench/orchestrators/graph.py", "bench/orchestrators/preprocess.py", "bench/main.py"],
  [("evaluation", "bench/orchestrators/evaluation.py"), ("row selection", "bench/orchestrators/slicing.py"), ("method inputs", "bench/orchestrators/method_inductive.py")],
  "bounded exhaustive enumeration of split dealings, predictions and small graphs on the real orchestrators",
  "Probe methods registered through the public registries record what they are given and return scripted scores; every dealing of rows to splits is driven through the real orchestrators and compared with a row-by-row definition of who may see and be scored on what.",
  "5 rows (6 thorough), 3 labels, graphs of 3 nodes (4 thorough)", "about 50 s", DIRECT)

P("C33", "Benchmark runs obey their configuration and record exactly what happened",
  "A malformed configuration is refused with BenchConfigError. Limits never raise a setting and leave none above its limit, in the run and in every search trial. Benchmark mode refuses every automatic, downloading or under-specified choice before any work. "
  "A search tries each setting with its own seeds, picks the first trial with the best mean (NaN loses), and the final run uses it. A sweep runs each seed in turn and aggregates exactly the successful runs. Any failure leaves a failed record with the traceback and the finished stages' artifacts, and is raised iff fail_fast. "
  "Runs never touch earlier runs' files; the same configuration gives the same run id, metrics and artifacts, also from its saved config.yaml; a section's explicit seed changes that section only.",
  ["configurations", "faults", "histories"], "every pair of limited settings, contract breaches and faulty stages; every small score table; every failing subset of a sweep; every unknown, missing or wrong-typed key",
  "A tie broken the wrong way, a trial outside the limits, or a failed run counted as a success needs a particular combination of settings, scores and failures that a few example configurations do not meet.",
  ["bench/schema.py", "bench/limits.py", "bench/main.py", "bench/context.py", "bench/seed_sweep.py", "bench/report_schema.py", "bench/orchestrators/hpo.py", "bench/orchestrators/reporting.py", "bench/orchestrators/dataset.py", "bench/orchestrators/sampling.py", "bench/orchestrators/views.py", "bench/utils/*"],
  [("configuration", "bench/schema.py"), ("limits", "bench/limits.py"), ("orchestration", "bench/main.py"), ("search", "bench/orchestrators/hpo.py"), ("run and sweep records", "bench/orchestrators/reporting.py")],
  "bounded exhaustive enumeration of configurations, score tables and stage faults, end to end on the real code",
  "Whole experiments run end to end on the toy dataset with a scripted method and metric (registered through the public registries); every combination of faulty stages, score tables, failing runs and limited settings in the bound is executed and its run.json, trials, aggregate and directories compared with an independent definition. Placeholders and limits are compared with reference functions.",
  "pairs of settings, breaches and faults; 4 trials; 3-run sweeps", "about 25 s", DIRECT)
P("C34", "The command line does what the library does",
  "Every command exits 0 exactly when the library call it stands for succeeds and prints that call's result; a refused command prints no result and changes nothing. "
  "Every flag, and every key of a plan or spec file, reaches the library; unknown keys and unreadable files are refused with exit 2. "
  "Commands read and write only the cache folder they were given (or the configured default); --no-cache writes nothing; listings show exactly what is stored and purging removes exactly what it names, and nothing for a name that is empty or a path. "
  "A missing optional dependency is reported as such: skipped or refused as asked, never stored. "
  "The innermost --log-level given wins over the environment, and never changes what is printed. doctor reports exactly the bricks that cannot be imported, and the others keep working.",
  ["histories", "configurations", "faults"], "every history of commands, every combination of flags, every set of missing bricks",
  "A flag that is dropped, a nested option that is reset, or a purge that reaches too far only shows for particular combinations and histories of commands that single-command tests do not run.",
  ["src/modssc/cli/*", "src/modssc/runtime/logging.py", "src/modssc/data_loader/services/service.py", "src/modssc/data_loader/cache.py", "src/modssc/graph/cache.py"],
  [("commands", "src/modssc/cli/app.py"), ("graph commands", "src/modssc/cli/graph.py"), ("dataset commands", "src/modssc/cli/datasets.py"), ("split commands", "src/modssc/cli/sampling.py"), ("log level", "src/modssc/runtime/logging.py")],
  "bounded exhaustive enumeration of command histories and flag combinations on the real command line",
  "Commands run through typer's runner against scratch caches. Flag combinations (every pair), spec files, command histories up to a depth and all 2^9 sets of missing bricks are executed; exit code, printed result, stored files and what was fetched are compared with the library call and with a dictionary model of the cache. Some commands also run as processes.",
  "pairs of flags; histories of 3-4 commands; 2^9 missing bricks", "about 35 s", DIRECT)
