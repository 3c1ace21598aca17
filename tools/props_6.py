prop("P13", "Series of different lengths are never analysed together",
     "Constructing a joint entropy, a mutual information, conditional mutual information, transfer entropy or conditional transfer entropy from variables where any one (the condition included) is longer or shorter than the others raises ValueError, "
     "for every approach, with an offset, propagation time, normalisation or lists as well: no silent truncation, broadcasting or pairing of unrelated observations.",
     ["inputs", "configurations"],
     "every registered class of several variables, 2 to 4 variables, any lengths N and N + D, the odd one at every position",
     "Tests try one pair of lengths for a few classes; the third variable or the condition, or an order of checks after trimming, is not tried.",
     [BASE, E + "mutual_information", E + "transfer_entropy", MIX],
     [("length checks of the constructors", BASE), ("joint data checks", BASE)],
     "exit (exception path) analysis of the constructors with symbolic lengths")
prop("P14", "Inadmissible settings and unsupported requests raise the documented exception",
     "Every documented inadmissible value (k not a positive integer, order not a positive number, unknown kernel, bandwidth not a positive number, minkowski_p < 1, negative noise, unknown KSG type, embedding dimension, step size or history length not a positive integer, "
     "a series too short for a pattern or history, propagation time together with offset or for conditional transfer entropy, an offset for more than two variables, a missing condition, a single variable, no data or data that is no array, "
     "normalising two-dimensional data, unknown Bayes prior, a number of tests that is not a positive integer, an unknown test method) raises ValueError (TypeError for multi-dimensional ordinal data), and a request without meaning (cross-entropy or local values where not defined, a statistical test of more than two variables) "
     "raises the documented unsupported/inconsistency error, in every class that has the setting; none is silently accepted.",
     ["inputs", "configurations"],
     "every registered class x every documented inadmissible setting or request",
     "Tests try each bad value for one class of a family; a sibling that inherits another check order accepts it and returns a number.",
     [BASE, MIX, E + "entropy", E + "mutual_information", E + "transfer_entropy", E + "utils"],
     [("constructors and _calculate of each class", E), ("exceptions", E + "utils/exceptions.py")],
     "exit (exception path) analysis with the inadmissible value as abstract input",
     "Values between the listed ones are not enumerated; representative values of each inadmissible range are given.")
prop("P22", "A discrete data set is what its observations say, however it was made",
     "DiscreteData.from_data(x) has the distinct values of x, their counts, N = number of observations = sum of the counts, K = number of distinct values; from_counts keeps values and counts; probabilities and the distribution are counts/N; "
     "inconsistent tables (different lengths, negative or non-integer counts, only zero counts, counts that do not sum to the number of observations, no observations) raise ValueError, consistent ones never do; fields cannot be assigned afterwards. "
     "Every discrete entropy made from a data set or from counts has the value of the one made from the observations (two or more observations).",
     ["inputs"],
     "all data sets and tables of counts, every discrete entropy class, integer, float and joint data",
     "Tests build a handful of data sets; which of the entry points skips a check, or an estimator that recomputes from something else than the counts, is not compared.",
     ["infomeasure/utils/data.py", BASE, E + "entropy"],
     [("DiscreteData", "infomeasure/utils/data.py"), ("from_counts and data set constructors", BASE)],
     "value graphs of the fields; exit guards evaluated at consistent and inconsistent tables; value-graph equality of the ways of construction",
     "Known finding: Grassberger entropy from counts ends with TypeError.")
prop("P24", "normalize=True is normalising every variable by hand",
     "For every class that offers normalize, global and local values with normalize=True equal those with normalize=False of the variables scaled to [0, 1] one by one, (v - min v)/(max v - min v), the condition included.",
     ["inputs", "configurations"],
     "every class that offers normalize, 2 to 4 one-dimensional variables, no offset",
     "Tests check that a flag is stored or one value; scaling by the joint range, by another variable's minimum, or leaving out the condition only shifts values.",
     [E + "utils/normalize.py", BASE, E + "mutual_information"],
     [("normalisation", E + "utils/normalize.py"), ("constructors", BASE)],
     "value-graph equality of the flag with the transformation by hand")
prop("P25", "Lists, integer arrays and float arrays of the same numbers give the same results",
     "For every measure and approach, through the class, the functions and estimator(), global and local values of data given as lists of numbers or as integer arrays equal those of float arrays with these numbers.",
     ["inputs"],
     "every registered class x interface x container and element type",
     "Tests use arrays of one type per estimator; in-place arithmetic in an integer array truncates silently, a list branch misses a conversion.",
     ["infomeasure/estimators"],
     [("conversion in the constructors", BASE), ("functions", FUN)],
     "value-graph equality under different typing facts of the inputs")
prop("P26", "A tuple of 1-D arrays is the same as the 2-D array with these columns",
     "For every entropy that accepts joint data (not ordinal, where a tuple means joint patterns), global and local values of a tuple of one-dimensional arrays equal those of the array with these columns.",
     ["inputs"],
     "every entropy class with joint data, 2 and 3 columns",
     "Tests use one of the two forms; columns interleaved, transposed or reduced to the first one still give a plausible entropy.",
     [BASE, E + "entropy", E + "utils"],
     [("joint data", BASE), ("reduction of joint data", E + "utils")],
     "value-graph equality of both forms")
prop("P27", "The noise option adds independent Gaussian noise to each series, nothing else",
     "For every estimator with a noise level: the value is that of the series v_i + e_i in place of v_i, with e_i one draw of normal(0, noise_level) per element, the same e_i in every term, and different draws for different series (the condition included); "
     "apart from that nothing changes, and with noise_level=0 nothing is drawn.",
     ["inputs", "configurations"],
     "every class with a noise level, 2 and 3 variables, one- and two-dimensional data, global, local and cross-entropy values",
     "The default noise is 1e-10 to 1e-8, so values of tests do not move when a series is left out, gets noise twice or shares the noise of another, or one term uses a new draw.",
     [BASE, E + "entropy/kozachenko_leonenko.py", E + "mutual_information", E + "transfer_entropy"],
     [("noise in the generic combinations", BASE), ("noise in the KSG/KL classes", E)],
     "decoding of additive draws in value graphs, then value-graph equality with the noise-free graph",
     "Input series are floating point arrays.")
