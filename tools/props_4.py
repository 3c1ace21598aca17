prop("P21", "Cross-entropies evaluate their documented formulas",
     "The cross-entropy H_Q(P) of two data sets evaluates the documented formula for all data: discrete, Bayesian and ordinal: -sum p log q over the common support; Miller-Madow: that plus its bias term; "
     "kernel: minus the mean log density of the second data set at the points of the first; Kozachenko-Leonenko, Renyi and Tsallis: the documented nearest-neighbour expressions with the k-th neighbour of "
     "each point of the first data set among the points of the second (not among itself), for every k >= 1. P and Q are not interchanged, and settings (k, norm, bandwidth, alpha, q, base) are those given.",
     ["inputs", "configurations"],
     "every estimator that offers cross-entropy, 1 and several dimensions, all data, parameters and bases",
     "Tests check a few pinned numbers and non-negativity; two data sets of the same size and support, or k = 4 only, hide an interchanged P and Q or a neighbour off by one.",
     [E + "entropy", E + "utils"],
     [("_cross_entropy of each estimator", E + "entropy")],
     "structural equality, after normalisation to canonical sums, of the value graph with the graph of the documented formula",
     "Documented formulas are written as value graphs over the same inputs; both are normalised (per-observation sums to sums over distinct values, canonical axes, domain facts). A difference is only reported if a small valuation of the two expressions separates them, otherwise it is undecided.")
prop("P23", "Divergences are the documented combinations of entropies",
     "For every estimator that supports it: the Kullback-Leibler divergence is H_Q(P) - H(P) with the same settings for both terms; the Jensen-Shannon divergence of 2 or more data sets is the entropy of the averaged "
     "distribution minus the average of the entropies (kernel: entropy of all observations together minus the average), where equal outcomes - including ordinal patterns, whose labels denote the same order of values for every "
     "series - are identified with each other. Other estimators are rejected with ValueError. The distribution an entropy estimator reports (dist_dict) is the one whose entropy it returns.",
     ["inputs", "configurations"],
     "every estimator, 2 to 4 data sets, embedding dimensions 2 to 6, all data without ties, all settings",
     "Tests use two data sets with the same outcomes or look at non-negativity only; a label that means another pattern, or a setting that reaches only one term, keeps all of that.",
     ["infomeasure/composite_measures", E + "entropy", E + "utils/ordinal.py", MIX],
     [("kullback_leiber_divergence", "infomeasure/composite_measures/kld.py"), ("jensen_shannon_divergence", "infomeasure/composite_measures/jsd.py"), ("dist_dict", E + "entropy")],
     "structural equality of the value graphs of the divergence and of the documented combination",
     "Compared as value graphs; differing graphs are reported only if a valuation separates them.")
prop("P29", "Entropy estimators evaluate their documented formulas",
     "For every data set, parameter and base the entropy of one variable is the documented formula: discrete plug-in, Miller-Madow, Grassberger, shrinkage, Chao-Shen, Chao-Wang-Jost, ANSB, Zhang, Bonachela, Bayes "
     "(numeric and named concentration, given and observed alphabet size), Renyi and Tsallis (orders 1 and other), Kozachenko-Leonenko (all Minkowski norms), kernel (box and Gaussian). NSB is exempt.",
     ["inputs", "configurations"],
     "every entropy estimator but NSB, all data and parameter values, also those with separate branches (alpha = 1, q = 1, norm = inf, zero singletons)",
     "Tests pin values for a few samples and parameters; branches reached by rare count patterns (no singletons, no doubletons, all singletons) and rare norms are not among them.",
     [E + "entropy", E + "utils"],
     [("_simple_entropy of each estimator", E + "entropy"), ("nearest-neighbour entropies", E + "utils/exponential_family.py"), ("kernel densities", E + "utils/kde.py")],
     "structural equality, after normalisation to canonical sums, of the value graph with the graph of the documented formula",
     "As for P21: documented formulas as value graphs, domain facts (counts at least one, sums of counts), valuations only to confirm a difference.")
prop("P31", "Ordinal patterns are those of the documented embedding",
     "For every series, embedding dimension m and step: a series of N observations has N - (m-1)*step ordinal patterns, each of the m observations spaced by step, the last ending at the last observation, and each is the sorting "
     "order of its own observations (a stable one if requested); different patterns get different integer codes which fit their storage type up to m = 20; and the ordinal entropy, single or joint, is that of the relative "
     "frequencies of the patterns. All ordinal measures (entropy, MI, CMI, TE, CTE) use these patterns for each variable.",
     ["inputs", "configurations"],
     "every series without ties, every embedding dimension and step, every ordinal measure",
     "Tests use dimensions 2 to 5 with step 1 and short series; a lost last window, a step that is used only partly or codes that collide in a large dimension do not show.",
     [E + "utils/ordinal.py", E + "entropy/ordinal.py", E + "mutual_information/ordinal.py", E + "transfer_entropy/ordinal.py"],
     [("symbolize_series, reduce_joint_space", E + "utils/ordinal.py"), ("shortcuts for dimensions 2 and 3", E + "entropy/ordinal.py")],
     "index-form analysis of strided windows, injectivity check of the extracted code expression, and graph equality with the documented formula",
     "The window index forms are compared as polynomials; the code expression extracted from the source is evaluated over all permutations of 2 to 6 elements; sorting direction with ties is not decided.")
