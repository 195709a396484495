#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements are reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
  a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
  if state:
    a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
  if observe:
    a["observe_at"] = observe
  a["hook_needed"] = None
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a})

M, O, D, MO, S, U, V = ("metrics.py", "operations.py", "diversity.py", "models.py",
                        "sql.py", "utils.py", "confidence_interval_display.py")

p("C01", "A sliced result equals the metric computed on each slice's rows alone",
  "Computing any metric split by one or more columns gives, for every combination of values of those columns that occurs in the rows the metric sees, exactly the numbers obtained by computing the same metric unsplit on the rows of that combination alone. No combination that occurs is lost, none that does not occur is invented, and the rows of one slice never influence the result of another.",
  ["inputs", "programs", "configurations"],
  "every metric tree, every table and every list of split columns",
  "The unit tests check one split column on a handful of fixed tables per metric; they do not reach two split columns, slices that are missing groups, trees of several operations, or the interaction with filters.",
  [M, O, D, MO],
  [("grouping and per-slice evaluation", "metrics.py Metric.compute_slices, split_data, group"),
   ("vectorised children over split columns plus the operation's own columns", "operations.py Operation.compute_children; metrics.py compute_on_children"),
   ("per-slice cache keys", "metrics.py wrap_cache_key(slice_val)")],
  ["the DataFrame returned by compute_on(df, split_by)"])

p("C02", "Each base aggregate equals its definition over the rows it is given",
  "Sum, count, distinct count, mean and weighted mean, maximum, minimum, (normalised) dot product, variance, standard deviation, coefficient of variation, covariance, correlation (each with and without the small-sample correction and with weights where offered), quantile(s) and n-th value return the value of their documented formula over the non-missing values of the rows they are given. This holds with and without splitting, for one-row and constant groups, for missing values and for all parameter settings.",
  ["inputs", "configurations"],
  "every table (with repeated, negative, zero and missing values), every variable, weight and parameter choice",
  "The unit tests evaluate each aggregate on one or two small fixed columns; combinations of weights, correction terms, missing values, quantile interpolation modes and slices of one row are not sampled.",
  [M],
  [("leaf aggregates", "metrics.py Count, Sum, Dot, Mean, Max, Min, Nth, Quantile, Variance, StandardDeviation, CV, Correlation, Cov"),
   ("expansion into equivalent elementary aggregates", "utils.py get_fully_expanded_equivalent_metric_tree")],
  ["the value returned by compute_on"])

p("C03", "A filter equals removing the rows it rejects, at every level and only there",
  "A filter given to a metric, to the composite, list or operation around it, or to several of them at once has exactly the effect of computing that part of the metric on the rows that satisfy the conjunction of all filters around it. It never changes the result of a sibling, of an enclosing metric's other parts, or of a later computation, and several filters on one metric may be given in any order.",
  ["inputs", "programs", "configurations"],
  "every metric tree with filters at any subset of its nodes, every filter expression (comparisons combined with and/or/not), every table",
  "The unit tests put one simple filter on one node; nested filters, filters that contain 'or', filters that empty one slice, and filters on siblings that share cached results are not explored.",
  [M, O, U, S],
  [("pre-filtering", "metrics.py Metric.compute_through, where property, add_where"),
   ("filters in cache keys and fingerprints", "utils.py CacheKey; metrics.py get_fingerprint"),
   ("global and local SQL filters", "utils.py get_global_filter; sql.py Filters")],
  ["compute_on", "compute_on_sql"])

p("C04", "Arithmetic on metrics is arithmetic on their values, slice by slice",
  "Adding, subtracting, multiplying, dividing, exponentiating or negating metrics, with other metrics or with numbers on either side, gives for every slice the result of that arithmetic on the operands' values in that slice, and missing where an operand has no value. A list of metrics yields, column by column in the listed order and under the listed or renamed titles, exactly what each member yields when computed on its own, whatever the other members are.",
  ["inputs", "programs"],
  "every expression tree over metrics and constants, every list of metrics, every table and split",
  "The unit tests use single-operator expressions of unsliced sums; nesting, operands with multiple columns or different slices, reflected operators and lists mixing operations that share parts are not explored.",
  [M],
  [("composite evaluation and alignment", "metrics.py CompositeMetric.compute_on_children, to_series_or_number"),
   ("operator overloading", "metrics.py Metric.__add__ ... __rpow__"),
   ("list evaluation", "metrics.py MetricList.compute_slices, to_dataframe, rename_columns")],
  ["compute_on"])

p("C05", "Distributions are shares of the slice total; cumulative ones are running sums",
  "A distribution over one or more columns gives, within every slice, each group's value divided by the slice's total, so the shares of a slice add up to one. A cumulative distribution gives the running sum of those shares in the requested order (natural, given list, by value, ascending or descending), so that it ends at one.",
  ["inputs", "configurations"],
  "every table, child metric, list of columns, split, order and direction",
  "The unit tests use two groups and one column; ties, groups missing from some slices, several columns, multi-column children and custom orders inside splits are not explored.",
  [O],
  [("normalisation", "operations.py Distribution.compute_on_children"),
   ("ordering and accumulation", "operations.py CumulativeDistribution.compute_on_children")],
  ["compute_on"])

p("C06", "Percent and absolute change compare each group to the baseline of its slice",
  "In every slice, absolute change reports for each group other than the baseline its value minus the baseline's value in that same slice, and percent change that difference relative to the baseline in percent. The baseline is reported (as zero) only when asked for, works with one or several comparison columns, and comparisons of comparisons or of multi-column metrics follow the same rule column by column.",
  ["inputs", "programs", "configurations"],
  "every table, child metric, comparison columns, baseline, split and include-baseline choice, including slices without the baseline",
  "The unit tests use two groups without splits; missing baselines in some slices, several comparison columns, zero baselines and nesting are not explored.",
  [O],
  [("baseline lookup and subtraction", "operations.py Comparison, PercentChange.compute_on_children, AbsoluteChange.compute_on_children"),
   ("baseline key normalisation", "operations.py Comparison.__init__")],
  ["compute_on"])

p("C07", "Mantel-Haenszel ratios follow their stratified formula in every slice",
  "The Mantel-Haenszel change of a ratio of two sums or counts equals, in every slice and for every treatment group, 100 times (the sum over strata of treatment numerator times baseline denominator over their total denominator, divided by the sum over strata of baseline numerator times treatment denominator over total denominator, minus one). Only strata of that slice take part, and strata where either group is absent contribute nothing.",
  ["inputs", "configurations"],
  "every table, stratification columns, comparison columns, split, include-baseline choice and pair of numerator and denominator",
  "The unit tests use complete designs with two strata; strata missing one arm, several stratification or comparison columns, and splits with different strata are not explored.",
  [O],
  [("stratified ratio", "operations.py MH.compute_on_children, compute_mh"),
   ("children over condition and strata", "operations.py MH.compute_children")],
  ["compute_on"])

p("C08", "Pre-period adjustments equal the regression adjustment they document",
  "The adjusted absolute change equals, in every slice, the difference from the baseline after subtracting theta times the centred pre-period covariates, theta being the ordinary least-squares slope over the units of that slice; the adjusted percent change equals the treatment coefficient over the intercept of the least-squares fit on treatment, centred covariates and their interactions, in percent. Units are the distinct combinations of the stratification columns, and one, several or no treatment groups beside the baseline are handled alike.",
  ["inputs", "configurations"],
  "every table of units with a full-rank design, one or several covariates, treatment groups, stratification columns and splits",
  "The unit tests refit the same regression library on one fixed random table with two treatment groups; slices, several covariates, unbalanced units and include-baseline combinations are sampled once at most.",
  [O],
  [("regression adjustment", "operations.py PrePostChange.compute_children_postcompute, compute_on_children"),
   ("covariate adjustment", "operations.py CUPED.compute_on_children")],
  ["compute_on"])

p("C09", "Diversity indices are functions of the group shares of each slice",
  "For every slice, the concentration index is the sum of squared shares, the entropy is minus the sum of share times log share, the top-K share is the sum of the K largest shares, and N-xx is the smallest number of groups whose shares reach the requested fraction. All are computed from the shares of the groups of that slice only, whatever the order, number and values of the groups.",
  ["inputs", "configurations"],
  "every table, child metric with positive values, grouping column(s), split, K and fraction",
  "The unit tests use two groups with distinct shares; ties, zero shares, K larger than the number of groups, fraction one, several grouping columns and splits are not explored.",
  [D],
  [("share computation and reduction", "diversity.py DiversityBase, HHI, Entropy, TopK, Nxx compute_on_children")],
  ["compute_on"])

p("C10", "Jackknife is exact leave-one-unit-out, whichever path computes it",
  "For every slice, the jackknife standard error of a metric over a unit column equals sqrt((n-1)/n times the sum of squared deviations of the leave-one-unit-out values from their mean), where n counts the units of that slice and each leave-one-out value is the metric computed on the slice's rows without that unit's rows. The reported value is the metric on all rows, and this holds for every metric tree inside, including units absent from a slice, slices that vanish when a unit is left out, and filters inside or outside.",
  ["inputs", "programs", "configurations"],
  "every table (every pattern of units across slices), every inner metric tree, split and filter",
  "The library takes a precomputed-total shortcut for some metrics and recomputation for others; the tests compare them on dense tables only, so units confined to one slice, single-unit slices, or distribution/comparison/composite inners over sparse data are not explored.",
  [O],
  [("leave-one-out by total minus bucket", "operations.py Jackknife.compute_child, adjust_slices_for_loo, precompute"),
   ("generic leave-one-out", "operations.py Jackknife.get_samples"),
   ("standard error", "operations.py Jackknife.get_stderrs, get_stderrs_or_ci_half_width")],
  ["compute_on", "rows seen by a user-defined inner metric"])

p("C11", "Bootstrap replicates are whole-unit samples with replacement per slice",
  "Each bootstrap replicate of a slice consists of exactly as many draws as the slice has rows, or units when a unit column is given, each draw bringing in all rows of the drawn unit (once per time it was drawn) and no others. The number of replicates is the requested one, the reported standard error is the sample standard deviation of the metric over those replicates, and the reported value is the metric on the original rows.",
  ["inputs", "configurations", "histories"],
  "every table, unit pattern, inner metric, split, number of replicates and random draw",
  "The unit tests pin one random seed and compare with a hand-written loop on dense data; they cannot tell which rows a replicate really saw when data are sparse across slices or when results are shared between replicates.",
  [O],
  [("sampling and sample reuse", "operations.py Bootstrap.get_samples"),
   ("standard error over replicates", "operations.py MetricWithCI.get_stderrs"),
   ("pre-aggregation shortcut", "operations.py get_preaggregated_data, get_preaggregated_metric_tree")],
  ["rows seen by a user-defined inner metric", "compute_on"])

p("C12", "Poisson bootstrap weighs whole units with independent unit-mean counts",
  "Each Poisson-bootstrap replicate includes every row, or every row of every unit when a unit column is given, a non-negative integer number of times, the same number for all rows of a unit wherever they appear in the replicate. The reported standard error is the sample standard deviation over the requested number of replicates, and the shortcut used for sums, counts and their combinations gives the same numbers as replicating rows.",
  ["inputs", "configurations", "histories"],
  "every table, unit pattern, inner metric, split, number of replicates and random draw",
  "The unit tests pin one seed on dense data; replicates in which a slice or unit gets weight zero, and the agreement of the weighted shortcut with row replication, are not explored.",
  [O],
  [("Poisson weights", "operations.py PoissonBootstrap.get_samples"),
   ("weighted shortcut", "operations.py PoissonBootstrap.compute_child")],
  ["rows seen by a user-defined inner metric", "compute_on"])

p("C13", "Confidence intervals are value plus or minus t-quantile times standard error",
  "With a confidence level, every resampling method reports lower and upper bounds equal to the value minus and plus the two-sided Student-t quantile at that level, with that slice's degrees of freedom, times the standard error reported without a confidence level. Bounds are reported for exactly the same slices and columns as the value, in both wide and long form, and are missing only where the standard error is.",
  ["inputs", "configurations"],
  "every resampling method, confidence level strictly between 0 and 1, table, split, inner metric",
  "The unit tests check a level of 0.9 on small dense tables; different levels, slices with different numbers of units and multi-column inners are not explored.",
  [O],
  [("half width", "operations.py MetricWithCI.get_stderrs_or_ci_half_width, compute_on_children, final_compute")],
  ["compute_on"])

p("C14", "Reusing cached results never changes an answer",
  "Whatever was computed before with the same cache (in the same list of metrics, in nested or composite metrics, or through a cache or cache key the caller supplies for one table and split), a computation returns the same numbers and titles as on a fresh metric with an empty cache. In particular metrics that differ in any parameter, filter, split, slice or resample never receive each other's results, and changing a returned result in place changes no later result.",
  ["histories", "programs", "inputs"],
  "every sequence of computations of any metrics over shared caches and cache keys on one table, and every list of metrics with shared parts",
  "The unit tests look up a few expected cache entries after one call; sequences of calls with different splits and filters, different metrics with similar structure, and aliasing of cached frames are not explored.",
  [M, U, O],
  [("cache lookup and store", "metrics.py _compute_with_caching_and_postprocessing, save_to_cache, get_cached"),
   ("keys", "utils.py CacheKey; metrics.py wrap_cache_key, get_fingerprint"),
   ("resample keys", "operations.py Jackknife/Bootstrap get_samples")],
  ["compute_on(cache=..., cache_key=...)"],
  [("cache", "results keyed by metric fingerprint, data key, filters, split, slice", "Metric.cache"),
   ("cache_key", "identity of the data a metric is currently computing on", "Metric.cache_key")])

p("C15", "Computing leaves no trace on inputs or metrics, even when it fails",
  "A computation leaves the caller's table, filters, lists and metric definition unchanged, and a metric object can be computed any number of times, on different tables, with the same answer as a new object, no matter which earlier computations succeeded or raised an error. When one member of a list fails, the other members' results are still reported and correct.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of computations on one metric object over several tables and splits, with an error raised at any inner evaluation",
  "The unit tests compute a metric once per object and provoke one failure at the top; errors raised midway through slices or resamples and later reuse of the same object are not explored.",
  [M, O, MO],
  [("cleanup of cache and keys", "metrics.py clean_up_cache, the finally clause of _compute_with_caching_and_postprocessing, compute_slices"),
   ("copies of definitions", "operations.py compute_util_metric_on, deepcopy sites")],
  ["compute_on on the same object", "the caller's DataFrame after the call"],
  [("cache_key", "must be unset on every node after a call without a caller key", "Metric.cache_key")])

p("C16", "Metrics that compare equal compute equal numbers",
  "Whenever two metric definitions compare equal (or hash equal as keys), they give the same numbers on every table and split; definitions that differ in operator, variable, filter, weights, parameters, baseline, order, units, or nesting and give different numbers on some table compare unequal. Equality is reflexive, symmetric and transitive, agrees with hashing, and survives copying.",
  ["programs", "inputs"],
  "every pair of metric definitions",
  "The unit tests compare a few pairs by hand; the documented identities (a ratio equals the quotient of sums, a mean equals sum over count) make accidental identification of different definitions possible and only enumeration of pairs finds it.",
  [M, O, MO, D, U],
  [("fingerprints", "metrics.py get_fingerprint, __eq__, __hash__; CompositeMetric.get_fingerprint; additional_fingerprint_attrs of every class")],
  ["==, hash, compute_on"])

p("C17", "Wide, long and raw outputs carry the same information",
  "The long form of any result has exactly one entry per slice and metric title holding the same value as the wide form, and converting between the two forms in either direction loses and invents nothing. Asking for a number or a series instead of a table yields the same numbers, and titles and slice labels keep their type, numbers or text.",
  ["inputs", "programs", "configurations"],
  "every metric tree, split and output format",
  "The unit tests compare formats on single-column results; multi-column results, operations with extra index columns, and confidence intervals with several splits are sampled rarely.",
  [M, U, O],
  [("melting", "utils.py melt, unmelt, apply_name_tmpl, remove_empty_level"),
   ("format choice", "metrics.py manipulate, to_dataframe; operations.py final_compute")],
  ["compute_on(melted=..., return_dataframe=...)"])

p("C18", "SQL computation returns the same numbers as in-memory computation",
  "For every metric that can be computed in SQL, running the generated query against a table gives the same slices and the same numbers as computing the metric in memory on the same rows, including filters, splits, compositions, operations over operations and jackknife standard errors. Bootstrap queries draw whole units as often and as independently as documented and report the spread of the metric over the drawn rows.",
  ["programs", "inputs", "configurations"],
  "every metric tree expressible in SQL, every table, split and filter",
  "The unit tests contain no SQL execution at all; only running generated queries on many metric trees can show they mean what the metric means.",
  [M, O, D, S, U],
  [("query generation", "metrics.py to_sql, get_sql_and_with_clause and overrides in operations.py, diversity.py"),
   ("query assembly", "sql.py Sql, Columns, Datasources, Filters")],
  ["compute_on_sql(table, split_by, execute)"])

p("C19", "Mixed SQL and Python evaluation equals in-memory computation",
  "Computing a metric with only its leaves in SQL, or a model from sufficient statistics gathered in SQL, gives the same slices and numbers as computing it in memory on the same rows. This holds for every nesting of lists, composites, operations, jackknife and models, with filters and splits.",
  ["programs", "inputs", "configurations"],
  "every metric tree, table, split, filter, and evaluation mode",
  "The unit tests contain no SQL execution; the mixed mode takes different code paths for every operation.",
  [M, O, MO, S, U],
  [("mixed evaluation", "metrics.py compute_on_sql_mixed_mode, compute_children_sql and overrides"),
   ("sufficient statistics", "models.py get_sufficient_stats_elements, compute_ridge_coefs, fista")],
  ["compute_on_sql(mode='mixed'), compute_on_sql(mode='magic')"])

p("C20", "Assembling SQL never loses, duplicates or confuses expressions",
  "When columns or sub-queries are collected into one query, equal expressions are emitted once and share one title, different expressions always get different titles, no requested expression disappears, and titles keep referring to the expression they were given for. Merging two compatible queries yields a query with the columns of both over the same source, filter and grouping, and sub-queries are defined before they are used. Conditions, however written and however they are put together, let through the rows which satisfy all of them; arithmetic on columns means what it means on their values; a query asked from another query sees that query's result. The query of a metric is the same text every time.",
  ["histories", "programs"],
  "every sequence of additions and merges of columns, filters and sub-queries, including equal titles for different expressions and equal expressions under different titles",
  "The unit tests do not exercise the query builder; collisions need particular sequences of additions.",
  [S],
  [("columns", "sql.py Columns.add, get_alias, Column"),
   ("sub-queries", "sql.py Datasources.add, merge, extend"),
   ("merging", "sql.py Sql.merge, is_compatible, Filters")],
  ["the public query-building classes and their rendered text"],
  [("alias map", "title to expression and back", "sql.Columns"),
   ("with clauses", "ordered named sub-queries", "sql.Datasources")])

p("C21", "Fitted models satisfy the optimality conditions of their documented objective",
  "The coefficients reported by the linear, ridge, lasso, elastic-net and logistic models solve, in every slice, the documented (penalised) estimation problem on the values of the child metrics over the grouping columns: the residuals of the solution satisfy the normal equations, respectively the penalised stationarity conditions, with or without intercept. Each coefficient is reported under the title of the feature it belongs to, whatever the number and order of features and slices.",
  ["inputs", "configurations"],
  "every table with a full-rank design, number of features, penalty, intercept choice, filter and split",
  "The unit tests compare against the same library routine on one fixed table; slices, intercept-free fits, penalties and feature order are sampled once.",
  [MO],
  [("fitting per slice", "models.py Model.compute, compute_on_children"),
   ("penalties and intercept", "models.py LinearRegression, Ridge, Lasso, ElasticNet, LogisticRegression")],
  ["compute_on"])

p("C22", "The display marks a change good or bad exactly when its interval excludes zero",
  "In the rendered table, every experiment cell is coloured as an improvement exactly when its confidence interval lies wholly above zero, as a deterioration exactly when wholly below, reversed for metrics whose colours are flipped, and neutral otherwise; each cell shows the value, ratio and interval of its own slice, experiment and metric. Every slice, experiment and metric of the input is shown once, control rows are shown or hidden and rows and columns sorted as requested, and the caller's table and options are unchanged.",
  ["inputs", "configurations"],
  "every long-format table of results and every combination of display options",
  "The unit tests compare a few rendered strings for single-slice inputs; option combinations with several slices, metrics and controls are not explored.",
  [V, O],
  [("cell formatting and colouring", "confidence_interval_display.py MetricFormatter.__call__"),
   ("row selection and order", "confidence_interval_display.py get_formatted_df, _sorted_long_to_wide, add_control_rows"),
   ("tables of computed results", "operations.py get_display_fn, MetricWithCI.compute_change_base")],
  ["get_formatted_df(...)", "render(...)", "result.display()"])

p("C23", "Row order, row labels and unused columns do not matter",
  "Reordering the rows of the table, relabelling its row index (also with duplicates), renaming columns consistently or adding columns the metric does not mention changes no deterministic result. The only exceptions are the metrics documented to depend on row order.",
  ["inputs", "programs"],
  "every metric tree and table, every permutation of rows and every row index",
  "The unit tests always use the default row index and one row order.",
  [M, O, D, MO],
  [("positional slicing", "metrics.py split_data (iloc), operations.py resampling by position")],
  ["compute_on"])

if __name__ == "__main__":
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
  with open(out, "w") as f:
    for x in P:
      assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
      f.write(json.dumps(x) + "\n")
  print(len(P))
