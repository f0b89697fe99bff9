"""writes properties.jsonl and MANIFEST.json (run after editing this file)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRI, BASE, MACK, BOOT = ("trikit/triangle.py", "trikit/estimators/base.py", "trikit/estimators/mack.py",
                         "trikit/estimators/bootstrap.py")
UT = "trikit/utils.py"
T = []


def prop(id, title, statement, over, text, why, files, mech):
    T.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})


prop("C01", "Tabular losses aggregate into the right incremental triangle",
     "Building an incremental triangle from tabular losses gives, in every cell, the sum of the amounts of the records "
     "with that origin and development period, with origins as rows and development periods as columns in increasing "
     "order. Record order, duplicate records, extra columns, the table's index and custom column names change nothing, "
     "and a cell without records stays missing.",
     ["inputs", "configurations"], "every table of real amounts on a triangular set of cells (first-period totals positive), every record order, duplicates",
     "tests load fixed, sorted sample files and compare a few totals",
     [TRI], [("validate, group and pivot", TRI + " _BaseTriangle.__init__/_validate"), ("conversion front end", TRI + " totri")])
prop("C02", "Cumulative triangles are the running totals of the increments",
     "Every known cell of a cumulative triangle built from incremental losses equals the sum of the increments of its "
     "origin up to and including that development period, whatever order the records come in and whether or not the "
     "amounts are negative. Cells beyond the latest diagonal stay missing.",
     ["inputs"], "every set of real increments on a triangular set of cells, every record order",
     "tests compare one sample triangle", [TRI], [("cumulation", TRI + " _BaseCumTriangle.__init__")])
prop("C03", "All input representations of the same losses give the same triangle",
     "The same losses given as incremental or cumulative amounts, as a table or already shaped as a triangle, produce "
     "the same incremental triangle and the same cumulative triangle. Custom column names, index names and record "
     "order do not matter.",
     ["inputs", "configurations"], "every triangle of real amounts, four representations, two triangle types",
     "tests convert one sample triangle per representation",
     [TRI], [("representation handling", TRI + " totri")])
prop("C04", "Conversions between triangle kinds and tables lose nothing",
     "Converting an incremental triangle to cumulative and back, or a cumulative one to incremental and back, or any "
     "triangle to a table and back, returns the same triangle. The table lists exactly the known cells (or every cell "
     "when asked) in origin and development order.",
     ["inputs", "histories"], "every triangle of real amounts and every chain of conversions up to length three",
     "tests check single conversions of one sample",
     [TRI], [("conversions", TRI + " to_cum / to_incr / to_tbl")])
prop("C05", "Non-positive first-period amounts are floored once, everything else is kept",
     "When the total amount of an origin's first development period is not positive it is replaced by 1 in the "
     "triangle; totals of later periods are never altered, even when negative. The replacement looks at the cell's "
     "total, not at individual records.",
     ["inputs"], "every table of real amounts of any sign, including several records per cell",
     "sample data has no negative amounts", [TRI], [("first-period floor", TRI + " _neg_handler")])
prop("C06", "Gaps inside a cumulative triangle are filled, never beyond the diagonal",
     "When a cell on or before an origin's latest diagonal has no record, the cumulative triangle carries the previous "
     "period's amount forward, and a missing first period becomes 1. Known cells keep their amount and cells beyond the "
     "diagonal stay missing.",
     ["inputs"], "every pattern of missing cells (within stated sizes) and every amount",
     "sample data has no gaps", [TRI], [("gap filling", TRI + " totri")])
prop("C07", "Results never depend on call history and inputs are never modified",
     "Building triangles, reading any of their properties and running any estimator leaves the caller's data, the "
     "triangle and caller-supplied factors unchanged. Repeating a call, in any order with other calls, gives the same "
     "result, and editing a table returned by a method (a conversion, a diagonal, an average table, a result) never "
     "corrupts later results.",
     ["inputs", "histories"], "every amount, with call sequences interleaving triangle properties and estimators",
     "each test calls one method on a fresh triangle",
     [TRI, BASE, MACK], [("cached properties", TRI), ("estimator call", BASE + " __call__")])
prop("C08", "Structural views of a triangle describe its known cells",
     "The latest diagonal, each origin's maturity, the last known period of every origin, the last known origin of "
     "every period, the known-cell count, the forecast indicator, the origins and the development periods are exactly "
     "those of the triangle's known cells, for any labels and any increment between labels.",
     ["inputs", "configurations"], "every triangle of real amounts; year, ordinal, monthly and uneven labels",
     "tests assert a handful of values of one sample",
     [TRI], [("views", TRI + " latest, maturity, rlvi, clvi, triind, nbr_cells")])
prop("C09", "A diagonal lists one cell per origin of the requested calendar period",
     "The diagonal at a non-positive offset returns, for every origin that has it, the cell that lies that many periods "
     "before the origin's latest known cell, with its development period and amount. Offset zero is the latest diagonal.",
     ["inputs", "configurations"], "every triangle, every offset within it",
     "tests read offset 0 and -1 of one sample", [TRI], [("diagonal", TRI + " diagonal")])
prop("C10", "Link ratios are quotients of successive cumulative amounts",
     "The age-to-age factor of an origin and development period is the next period's cumulative amount divided by this "
     "period's, is present exactly where both are known, and every observed factor is included by default.",
     ["inputs", "configurations"], "every cumulative triangle without zero denominators",
     "tests compare one sample", [TRI], [("link ratios", TRI + " a2a, a2aind")])
prop("C11", "Simple, geometric and weighted averages use exactly their window",
     "For every development period and every window length, the simple, geometric and volume-weighted averages equal "
     "the arithmetic mean, geometric mean and ratio of cumulative sums over the most recent that-many observed factors "
     "(all of them when fewer exist or when no window is given).",
     ["inputs", "configurations"], "every positive cumulative triangle, every window length",
     "tests compare a few rows of one sample",
     [TRI], [("averages", TRI + " a2a_avgs, _simple, _geometric")])
prop("C12", "The medial average drops the extremes and averages the rest",
     "For three or more factors the medial average is the mean of the window's factors without the smallest and the "
     "largest; for two it is their mean and for one the factor itself. It lies between the smallest and largest factor "
     "of its window.",
     ["inputs", "configurations"], "every positive triangle with distinct factors per column, every window",
     "tests compare one sample", [TRI], [("medial average", TRI + " _medial")])
prop("C13", "Excluded link ratios leave every average, and come back when restored",
     "Excluding a link ratio removes it, and only it, from every average of its development period and so from every "
     "estimate that uses those averages; excluding and restoring it, through either way of editing the indicator, "
     "returns the original results. Averages of other development periods do not change.",
     ["inputs", "configurations", "histories"], "every positive triangle, every set of exclusions within stated sizes",
     "tests set one exclusion on one sample",
     [TRI, MACK], [("inclusion indicator", TRI + " a2aind"), ("averages", TRI + " a2a_avgs")])
prop("C14", "Chain ladder summary: factors, ultimates, reserves and totals agree",
     "The cumulative factor at a period is the product of the selected factors from there on times the tail; each "
     "origin's ultimate is its latest amount times the factor of its own maturity, its reserve is ultimate minus "
     "latest, emergence is the reciprocal factor. The total row sums latest, ultimate and reserve.",
     ["inputs", "configurations"], "every positive triangle, every selection and tail, every label scheme",
     "tests compare totals of one sample", [BASE], [("projection", BASE + " _cldfs, _ultimates, _reserves, __call__")])
prop("C15", "The squared triangle keeps the actuals and develops them by the factors",
     "The completed triangle equals the original on every known cell; every other cell is its left neighbour times the "
     "factor of that period, and the chain ladder's last column is the ultimate reported in the summary.",
     ["inputs", "configurations"], "every positive triangle, factors and tail",
     "tests compare a total of one sample", [BASE], [("squaring", BASE + " _trisqrd")])
prop("C16", "Any way of selecting factors gives the projection those factors imply",
     "Naming an average selects that row of the averages table; a list, array or series (indexed by development period) "
     "of the same numbers gives the same projection; the tail applies once after the last period. A selection with the wrong number of factors is "
     "rejected instead of being silently truncated or padded.",
     ["inputs", "configurations"], "every positive triangle, every named average, every numeric selection",
     "tests use the default selection", [BASE], [("selection", BASE + " __call__, _ldfs")])
prop("C17", "Mack factors are the weighted means of Mack's model",
     "For alpha 0, 1 and 2 the factor of each period is the mean of the observed link ratios weighted by the "
     "cumulative amount to the power alpha (simple mean, volume-weighted mean, regression through the origin), over the "
     "included ratios only. With alpha 1 they equal the volume-weighted chain ladder factors, and so do ultimates and "
     "reserves.",
     ["inputs", "configurations"], "every positive triangle, three alphas, exclusions",
     "tests compare one sample for one alpha", [MACK], [("factors", MACK + " _ldfs")])
prop("C18", "Mack development variances and factor variances follow the formulas",
     "The variance of a development period is the weighted sum of squared deviations of its link ratios over the number "
     "of ratios minus one, the last one being the smaller of the previous two and the square of the previous over the "
     "one before. The variance of a factor is that variance over the sum of the weights.",
     ["inputs", "configurations"], "every increasing positive triangle, three alphas",
     "tests compare one sample", [MACK], [("variances", MACK + " _devp_variance, _ldf_variance")])
prop("C19", "Mack standard errors by origin follow the recursive formulas",
     "Process and parameter error of every origin follow Mack's recursion along the projected row, the mean squared "
     "error is their sum, the standard error its root and the coefficient of variation the standard error over the "
     "reserve. For every alpha the process variance of a cell is the period's variance times the cell's amount to the power "
     "2 - alpha. The fully developed origin has no error.",
     ["inputs", "configurations"], "every increasing positive triangle",
     "tests compare one sample", [MACK], [("errors", MACK + " _process_error, _parameter_error")])
prop("C20", "Mack's total standard error includes the covariance between origins",
     "The total mean squared error is the sum over origins of the own error plus twice the origin's ultimate times the "
     "ultimates of later origins times the sum over remaining periods of factor variance over squared factor, as in Mack "
     "1993. The total coefficient of variation is the total standard error over the total reserve.",
     ["inputs"], "every increasing positive triangle", "tests compare one sample",
     [MACK], [("aggregate error", MACK + " __call__")])
prop("C21", "Mack reserve distributions have the estimated mean and standard error",
     "For every origin with a reserve and in total, the normal or lognormal reserve distribution has the estimated reserve as mean and "
     "the estimated standard error as standard deviation, and the reported quantiles are that distribution's. Any other "
     "distribution name is rejected.",
     ["inputs", "configurations"], "every increasing positive triangle of any scale, every quantile in stated sets",
     "tests compare one sample", [MACK], [("moment matching", MACK + " __call__")])
prop("C22", "Quantile requests are validated, ordered and labelled",
     "A quantile outside 0 to 1 is rejected; valid requests are de-duplicated, sorted and labelled by their "
     "percentage; a two-sided request for level p returns the (1-p)/2 and (1+p)/2 quantiles. Scalars and sequences are "
     "treated alike by every estimator.",
     ["inputs", "configurations"], "every quantile value, every pair of values",
     "tests use two quantile levels", [BASE, MACK, BOOT], [("formatting", BASE + " _qtls_formatter")])
prop("C23", "The development correlation test is Mack's weighted Spearman statistic",
     "The statistic is the weighted mean over adjacent development periods of the Spearman rank correlation of their "
     "common link ratios, with weights the number of pairs minus one, and the acceptance interval is the central normal "
     "interval of the requested level with Mack's variance.",
     ["inputs", "configurations"], "every positive triangle with distinct link ratios per column, every level",
     "tests compare one sample", [TRI, MACK], [("ranks", TRI + " ranked_a2a"), ("test", MACK + " devp_corr_test")])
prop("C24", "The calendar year test counts small and large factors per diagonal",
     "Each link ratio counts as large, small or neither against its period's median; for every diagonal the statistic "
     "is the smaller count, and the test compares the summed statistic with the exact binomial mean and variance at the "
     "requested level. Diagonals follow the development of the triangle whatever the labels look like.",
     ["inputs", "configurations"], "every positive triangle with distinct link ratios per column, every level",
     "tests compare one sample", [TRI, MACK], [("assignment", TRI + " a2a_assignment"), ("test", MACK + " cy_effects_test")])
prop("C25", "Bootstrap fitted triangles un-develop the latest diagonal",
     "The fitted cumulative triangle agrees with the data on the latest diagonal and every earlier cell is its right "
     "neighbour divided by the volume-weighted factor; the fitted increments are its differences and each origin's "
     "increments sum to its latest amount.",
     ["inputs", "configurations"], "every positive triangle", "tests compare sums of one sample",
     [BOOT], [("fit", BOOT + " _tri_fit_cum, _tri_fit_incr")])
prop("C26", "Pearson residuals, scale and degrees of freedom follow the model",
     "Residuals are actual minus fitted increment over the root of the absolute fitted increment, the scale is their sum "
     "of squares over the degrees of freedom (cells minus fitted parameters), adjusted residuals are scaled by the root "
     "of cells over degrees of freedom. The sampling distribution holds exactly the non-zero adjusted residuals outside "
     "the corner cells that are zero by construction.",
     ["inputs", "configurations"], "every positive triangle with non-zero fitted increments",
     "tests compare sums of one sample", [BOOT], [("residuals", BOOT + " _resid_us, _resid_adj, _scale_param, dof, _sampling_dist")])
prop("C27", "Resampled triangles are fitted increments plus scaled resampled residuals",
     "In every simulation each actual cell's resampled increment is its fitted increment plus the drawn residual times "
     "the root of the absolute fitted increment, cumulated per origin; forecast cells take no residual. Residuals are "
     "drawn from the sampling distribution (or a centred normal with its standard deviation when parametric), one per "
     "cell and simulation.",
     ["inputs", "configurations"], "every positive triangle, every sequence of draws",
     "tests compare one seeded run", [BOOT], [("resampling", BOOT + " _bs_samples")])
prop("C28", "Each simulation is projected with its own factors only",
     "In every simulation the factors are the volume-weighted factors of that simulation's own resampled triangle and "
     "the forecast cells develop that simulation's own latest diagonal with them. No simulation's results depend on "
     "another simulation's draws.",
     ["inputs", "configurations"], "every positive triangle, every sequence of draws, two and three simulations",
     "tests compare one seeded run", [BOOT], [("projection", BOOT + " _bs_ldfs, _bs_forecasts")])
prop("C29", "Process error is drawn with mean and variance of the forecast increment",
     "Every forecast increment is replaced by a gamma draw with mean its absolute value and variance that times the "
     "scale, with the increment's own sign; actual cells are untouched and increments are re-cumulated per origin. "
     "Any other process distribution is rejected.",
     ["inputs", "configurations"], "every positive triangle, every sequence of residual and gamma draws",
     "tests compare one seeded run", [BOOT], [("process error", BOOT + " _bs_process_error")])
prop("C30", "Bootstrap summaries are the statistics of the simulated reserves",
     "Each simulated reserve is the simulated ultimate minus the simulated latest amount; the summary's ultimates, "
     "standard errors, coefficients of variation and quantiles are the means, sample deviations, ratios and percentiles "
     "of the simulations by origin, and the total row those of the per-simulation sums. The fully developed origin has "
     "no reserve.",
     ["inputs", "configurations"], "every positive triangle, every sequence of draws",
     "tests compare one seeded run", [BOOT], [("reserves and summary", BOOT + " _bs_reserves, _bs_std_error, __call__")])
prop("C31", "Bootstrap randomness is reproducible and comes only from the given source",
     "Two runs with the same seed, or with generators in the same state, give identical results; all draws come from "
     "the supplied generator and neither seed nor global state leaks between calls or into the process-wide generator.",
     ["inputs", "histories", "configurations"], "every seed type, every draw sequence, repeated runs",
     "tests run one seed once", [BOOT], [("generator set-up", BOOT + " _bs_samples, _bs_process_error")])
prop("C32", "Loading a dataset returns exactly the selected records",
     "Loading the reserving database returns exactly the records of the requested line of business, company code, "
     "company name and training status, with the requested loss measure, and unknown selections or measures are "
     "rejected. Asking for a triangle gives the triangle of those records. Every listed sample dataset loads unchanged, "
     "and the listings of lines, companies and datasets name exactly what can be loaded.",
     ["inputs", "configurations"], "every database content within stated sizes, every filter combination, every bundled dataset",
     "the database file is not in the repository; its tests cannot run",
     [UT], [("filters", UT + " _load_lrdb, _load"), ("listings", UT + " get_datasets, get_lrdb_lobs, get_lrdb_specs")])
prop("C33", "Exhibits show each actual and forecast amount once",
     "The triangle exhibit draws every known cell of every origin. The chain ladder and bootstrap exhibits draw, for every "
     "origin, each actual cell as actual and each projected cell including the ultimate as forecast with the amounts of "
     "the completed triangle, the forecast line starting at the latest actual. The bootstrap bounds are the requested "
     "two-sided quantiles of the simulated amounts of each cell.",
     ["inputs", "configurations"], "every positive triangle, factors and tail; bootstrap draws within stated sets",
     "tests either draw nothing or do not look at what was drawn",
     [TRI, BASE, BOOT], [("triangle views", TRI + " plot"), ("exhibit data", BASE + " _data_transform, plot"),
                         ("bounds", BOOT + " get_quantiles, _data_transform, plot")])
prop("C34", "Mack exhibits draw the reserve distribution and the fit's residuals",
     "The reserve plot draws, for every origin with a reserve and for the total, the density of that origin's estimated "
     "reserve distribution between its extreme quantiles, and marks its mean and the requested percentiles. The "
     "diagnostics draw the total reserve's density and mean, every origin's amounts to ultimate and the residuals of the "
     "fit standardized by development period and by origin.",
     ["inputs", "configurations"], "every strictly increasing positive triangle within the stated sizes, normal and lognormal reserves",
     "tests do not call the exhibits", [MACK], [("densities", MACK + " _mack_data_transform, plot"),
     ("diagnostics", MACK + " diagnostics, _residuals_by_devp, _residuals_by_origin")])
prop("C35", "Bootstrap reports describe the residuals and simulated reserves they name",
     "The residual report gives, for the unscaled and the adjusted residuals that are not zero, their number, sum, sum of "
     "squares, extremes, mean, median, mode, variance, deviation, coefficient of variation, skewness and kurtosis. The distribution of an origin, or of "
     "the total, lists exactly that origin's simulated reserves, the histograms show exactly these, and no report changes "
     "the result it describes.",
     ["inputs", "configurations", "histories"], "every residual table within stated free cells; every pair of draws within stated free draws",
     "tests compare sums of one seeded run and never look at the reports", [BOOT],
     [("residual report", BOOT + " residuals_detail"), ("reserve distribution", BOOT + " origin_dist, reserve_dist"), ("histogram", BOOT + " hist")])

NA = {}
LEVEL = ("bounded: every real-valued input of the stated triangle sizes, label schemes and options, by symbolic execution "
         "of the real code with z3 deciding path feasibility and every obligation; counterexamples and one model per path "
         "are replayed on the unpatched code. Trusts the stand-ins for numeric kernels (validated per path by replay), z3, "
         "and real arithmetic for floats.")


def main():
    ids = [p["id"] for p in T]
    assert len(set(ids)) == len(ids)
    for p in T:
        assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in T:
            f.write(json.dumps(p) + "\n")
    have = [i for i in ids if os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")) and i not in NA]
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py list",
         "checks": [{"property": i, "quick_cmd": "/opt/venv/bin/python check.py %s quick" % i,
                     "thorough_cmd": "/opt/venv/bin/python check.py %s thorough" % i,
                     "evidence_file": "evidence/%s.json" % i,
                     "technique": "symbolic execution of the real Python code, obligations decided by z3",
                     "level": "model_checking", "level_note": LEVEL} for i in have],
         "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in have],
         "notes": "Checks import trikit from /repo's working tree; nothing is built or written there. VERIF_REPO overrides the path."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(T), "properties,", len(have), "checks")


if __name__ == "__main__":
    main()
