prop("P15", "A statistical test result reports exactly the documented statistics",
     "For every MI/CMI/TE/CTE class and both methods: the p-value is the fraction of test values greater than the observed value, null mean and null standard deviation (one delta degree of freedom) are those of the test values, "
     "the t-score is (observed - null mean)/null standard deviation (nan if that is zero), percentiles and the symmetric confidence interval are taken from the test values, n_tests values are produced, the observed value is the global value, and "
     "number and method are those requested or, if not given, those configured. An invalid number of tests or method is rejected.",
     ["inputs", "configurations"],
     "every class, any test values and observed value, any number of tests, both methods, explicit and configured settings",
     "Tests check that p lies in [0, 1] and pin a few seeded numbers; ties, zero deviations and the degrees of freedom are not separated by them.",
     [MIX, "infomeasure/utils/data.py", "infomeasure/utils/config.py"],
     [("statistical_test / result construction", MIX), ("percentile, confidence_interval", "infomeasure/utils/data.py")],
     "structural equality of the value graph of each result field with the documented expression",
     "The measure itself is an unknown number per evaluation; each field's graph over (test values, observed value) has the normal form of the documented expression. A differing normal form is reported only if a valuation separates the two expressions, else it is undecided.")
prop("P16", "The global value is the mean of the local values",
     "For every class that offers local values (entropy, MI, conditional MI, TE, conditional TE, 2 or more variables), there is one local value per observation and their mean is the global value, for all data. "
     "Exempt: the shrinkage estimator (documented difference) and the ordinal shortcuts for embedding dimension 2 and 3 in the entropy.",
     ["inputs", "configurations"],
     "every class with local values, univariate, multivariate and joint data, 2 to 4 variables",
     "Tests compare the two on small samples in which a differing branch or variable is not reached; global and local values are computed by separate code for most discrete estimators.",
     [BASE, E + "entropy", E + "mutual_information", E + "transfer_entropy", E + "utils/discrete_interaction_information.py", E + "utils/discrete_transfer_entropy.py"],
     [("separate global and local implementations", E + "utils"), ("mean of the local array", BASE)],
     "rewriting of per-observation look-ups to count-weighted sums, and comparison of linear forms over joint spaces",
     "The mean of the local graph and the global graph have the same normal form in every case of their outer conditions, or (composite measures) the same coefficients over the same joint spaces and data.")
prop("P30", "Occurrence counts are combined without integer overflow",
     "In the discrete measures, for any number of variables and observations, a product of more than two occurrence counts is formed in floating point, and counts are never accumulated in or converted to an integer type that long series overflow.",
     ["inputs"],
     "every class, 2 to 4 variables, any data length (below 3e9)",
     "An overflow needs long series of several variables; tests use at most thousands of observations and check two variables.",
     [E + "utils/discrete_interaction_information.py", E + "utils/discrete_transfer_entropy.py", E + "entropy"],
     [("outer product of marginal counts", E + "utils/discrete_interaction_information.py")],
     "dtype and degree inference over products in value graphs",
     "Every product of numpy-integer counts in the value graphs has degree at most two.")
