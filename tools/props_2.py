prop("P05", "Transfer entropy and offset use exactly the documented time alignment",
     "For every TE/CTE class, each target time used is paired with the values of the source, target and condition exactly step_size, 2*step_size, ..., history-length*step_size samples earlier "
     "(the source additionally prop_time*step_size earlier), with each series' own history length, and the target times run from the first one with complete histories to the end in steps of step_size. "
     "Mutual information with an offset pairs x[i] with y[i+offset] for every possible i. No future value of any series enters a history.",
     ["inputs", "configurations"],
     "every class, all history lengths, step sizes, propagation times and offsets of either sign, univariate and multivariate series",
     "Tests use few combinations of history lengths and steps and compare only values, which barely change when one series is misaligned by a sample or uses another series' history length.",
     [E + "utils/te_slicing.py", BASE, E + "transfer_entropy"],
     [("index arithmetic of the embedding", E + "utils/te_slicing.py"), ("prop_time / offset shifts", BASE)],
     "time-index decoding of the arrays entering each joint space (arithmetic progressions compared as polynomial/max forms)",
     "Index expressions are compared as normal forms; when they differ syntactically, small parameter valuations of the two index expressions separate them or show them equal.")
prop("P06", "Statistical tests resample the first variable and only it",
     "Each test value of a permutation or bootstrap test (and of the effective value) is the same measure recomputed after freshly resampling the observations of the first variable (MI, CMI) or the source history "
     "(TE, CTE): without replacement for the permutation test, with replacement and of the same size for the bootstrap; the configured method if none is given. Every term of the measure sees that one resample, the other variables stay in their original order, and n_tests values are produced.",
     ["inputs", "configurations", "histories"],
     "every MI/CMI/TE/CTE class, both methods, any data and number of tests",
     "Tests check that p-values are in [0, 1] or equal pinned numbers for one seed; resampling data the value does not depend on, or only part of the terms, passes.",
     [MIX, BASE, E + "utils/te_slicing.py", E + "mutual_information", E + "transfer_entropy"],
     [("resampling of data / history rows", MIX + ", " + E + "utils/te_slicing.py")],
     "dataflow from resampling draws to the recomputed value in value graphs",
     "Which uses of each series pass through the resampling draw is read off the value graph of the test values; with the draw undone the graph must be the measure. Conditional transfer entropy violates this and is recorded as a known finding per class.")
