NA = [
 ("N01", "Estimates are consistent and correctly bias-corrected",
  "With growing sample size each estimator converges to the true information quantity, and the bias corrections reduce the bias.",
  ["inputs"], "a statement about probability distributions of numerical results; no source-level argument bounds it"),
 ("N02", "Discrete information measures respect their bounds",
  "Discrete entropies are within [0, log K], mutual information and transfer entropy plug-in values are non-negative, data processing inequalities hold.",
  ["inputs"], "numerical inequality over runtime floating-point values; the structural part (which terms are combined) is decided by P04"),
 ("N03", "Results are invariant under relabelling and affine maps",
  "Discrete measures do not change under a relabelling of symbols, ordinal ones under monotone maps, rank/neighbour based ones under common rescaling.",
  ["inputs"], "relates runtime values of two executions on transformed data through sorting, hashing and distance computations of external libraries"),
 ("N04", "Numerical stability and convergence",
  "Integrals and iterative computations (NSB, density estimates) converge and stay finite for every admissible input.",
  ["inputs"], "depends on floating-point behaviour and on the external quadrature/optimisation routines"),
 ("N05", "Significance tests are calibrated",
  "Under the null hypothesis the p-values of the permutation and bootstrap tests are (close to) uniformly distributed.",
  ["inputs"], "a distributional statement about random resampling; the structural part (what is resampled, with which generator, how p is formed) is decided by P06, P08 and P15"),
 ("N06", "Running time and memory scale as documented",
  "Estimators handle the documented data sizes in time and memory.",
  ["inputs"], "timing is a runtime quantity"),
]
for i, t, s, o, r in NA:
    prop(i, t, s, o, "all data sets", "Tests sample a few data sets.", ALL, [("the estimators", "infomeasure/estimators")], na=r)
