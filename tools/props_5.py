prop("P03", "Every accepted setting takes effect, and takes effect everywhere",
     "Every keyword setting an estimator class accepts (k, norm, bandwidth, kernel, alpha, q, base, noise, history lengths, offset, step size, embedding dimension, ...) influences its global and local values; two different values "
     "of an option with a finite set of values (kernel, ksg_id) give different expressions; the entropies a composite measure is built from receive the settings the user gave, unchanged, in every term; and every nearest-neighbour search "
     "of one estimator uses the given Minkowski norm. Exempt: workers (it must not), undersampled (the threshold of a warning), cond_hist_len for unconditional transfer entropy, base of Tsallis entropy.",
     ["configurations", "inputs"],
     "every registered estimator class, every accepted setting, global and local values",
     "Tests pin values for a few combinations of settings; a setting that is accepted but forwarded to three of four terms, or not at all, still gives a plausible number.",
     ["infomeasure/estimators"],
     [("constructors and _calculate of each class", "infomeasure/estimators"), ("generic entropy combinations", "infomeasure/estimators/base.py")],
     "dependence (influence) analysis on value graphs with symbolic settings",
     "Whether the influence has the right form is left to P04, P21, P29 and P32.")
prop("P10", "Configuration behaves as documented, and defaults follow it",
     "Config: the defaults are base 'e', the permutation test, 200 tests; set_logarithmic_unit accepts every documented unit identifier in any letter case and sets the documented base; unit and description queries follow the configured base; set(), "
     "get() and reset() read, write and restore exactly the named setting; an unknown name raises KeyError, a value the setting does not allow TypeError and an unknown unit ValueError, in which case no setting changes; set_log_level sets the named level, an unknown name raises ValueError. "
     "An estimator created without an explicit base uses the base configured at that moment in all of its values, also if the configuration changes later; with an explicit base the configuration is irrelevant.",
     ["configurations", "histories"],
     "all sequences set/reset/unit changes over all settings (as a transition system), every estimator class",
     "Tests change one setting at a time around one discrete estimator; that a frozen default argument, a lost restore, or one class that reads the configuration late gives another result in some order of calls is not sampled.",
     ["infomeasure/utils/config.py", "infomeasure/estimators/base.py", MIX],
     [("Config", "infomeasure/utils/config.py"), ("default base", "infomeasure/estimators/base.py")],
     "abstract interpretation of the configuration store as a transition system; value-graph equality between configured and explicit base",
     "The table of units and descriptions is taken from the documentation.")
prop("P12", "All ways of asking for a measure give the same estimator with the same settings",
     "For every measure and approach: the estimator class, get_estimator_class, estimator() with every documented measure name, the functions (entropy, mutual_information, conditional_mutual_information, transfer_entropy, "
     "conditional_transfer_entropy, cross-entropy) and their short names, every alias of the approach and any letter case compute the same value with every setting passed on unchanged. Unknown measures or approaches, missing data or misplaced conditions raise ValueError. "
     "Aliases mean the same approach in every measure, and a composite measure named after an entropy approach uses the entropy class registered under that name.",
     ["configurations", "inputs"],
     "every registered class x every alias x every interface, with all settings symbolic",
     "Tests compare interfaces for a few approaches with default settings; a keyword dropped or renamed for one approach, or an alias that selects a sibling, goes unnoticed.",
     ["infomeasure/estimators/functional.py", "infomeasure/estimators/mutual_information/__init__.py", "infomeasure/__init__.py"],
     [("interfaces and registries", "infomeasure/estimators/functional.py"), ("aliases", "infomeasure/__init__.py")],
     "value-graph equality of each interface with the class, exit analysis of invalid requests",
     "One graph per (class, option variant, interface); settings that an interface documents as unavailable are not given.")
prop("P18", "The number of workers does not change results",
     "For every estimator that accepts workers, the global and local values, cross-entropy included, are the same for every number of workers (-1 = all processors) and any amount of data: divided query points cover all points once, "
     "the density is always that of all observations, partial results are put together in the order of the points, and no setting depends on the number of workers.",
     ["schedules", "inputs", "configurations"],
     "every class with workers; box and Gaussian kernel; any data size, dimension and number of workers",
     "Work is only divided above 20000 samples, where tests do not go; with equal pieces or symmetric data a lost remainder or a density built from one piece is not visible.",
     [E + "utils/kde.py", MIX],
     [("parallel_kde_evaluate, query_chunk", E + "utils/kde.py"), ("WorkersMixin", MIX)],
     "value-graph equality after undoing the division into consecutive pieces",
     "Pool.map is modelled as an ordered map; a difference is only reported if a small valuation with two or three pieces separates the graphs.")
prop("P32", "Nearest-neighbour information measures use the documented neighbour counts",
     "KSG mutual information, conditional mutual information, transfer entropy and conditional transfer entropy: the radius is the distance to the k-th other point in the full joint space with the given norm; type 1 counts marginal neighbours strictly "
     "closer, type 2 those within or at the distance; the point itself and duplicates at distance zero are treated alike in all marginal spaces; type 2 has the 1/k term, type 1 does not; and each psi term carries the documented coefficient.",
     ["inputs", "configurations"],
     "all nearest-neighbour MI/CMI/TE/CTE classes, 2 to 4 variables, both types, all k, norms and data",
     "Tests pin values for continuous data; ties, duplicates, k = 1 or a self-count taken off in one of the spaces only shift some values slightly.",
     [E + "mutual_information/kraskov_stoegbauer_grassberger.py", E + "transfer_entropy/kraskov_stoegbauer_grassberger.py", MIX],
     [("_calculate of the KSG classes", E + "mutual_information/kraskov_stoegbauer_grassberger.py"), ("ksg radius and counts", E + "utils")],
     "decoding of radius, counts and coefficients from the value graph, compared with the documented formula",
     "The -1/k term of type 2 is taken as documented in the package for any number of variables; psi(N) offsets of three and more conditional variables are not decided.")
