"""writes properties.jsonl (kept as a generator so that statements stay in one readable place)"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=["src/mcsas3/" + f for f in files],
                state=[dict(name=n, meaning=m, where="src/mcsas3/" + w) for n, m, w in state],
                mechanism=[dict(name=n, where="src/mcsas3/" + w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


prop(
    "C01",
    "1-D selection keeps exactly the points asked for",
    "For every 1-D dataset, the points kept for fitting are exactly the rows without missing values whose Q lies in "
    "the half-open data range [min, max) and in none of the half-open omitted ranges [min, max). They keep their "
    "original order and values whatever the row labels are, the caller's data are left untouched, and a selection "
    "that leaves no point inside the data range is refused.",
    ["inputs", "configurations"],
    "all Q/I/sigma values (any order, ties, points on a limit, NaN entries), all ranges incl. infinite, empty, nested and "
    "overlapping ones, all row labellings",
    "tests load three example files with one fixed range and only look at a count; boundary points, repeated labels and "
    "overlapping omit ranges never occur in them",
    ["mc_data_1d.py", "mc_data.py"],
    [("clip then omit then link", "mc_data.py prepare"), ("half-open range queries", "mc_data_1d.py clip/omit")],
    observe=["clippedData, measData of a loaded 1-D dataset"],
)
prop(
    "C02",
    "Rebinning counts every selected point exactly once",
    "Rebinning a 1-D dataset assigns every selected point to exactly one of the requested logarithmically spaced bins "
    "spanning the selected Q range, none lost and none counted twice. Every occupied bin yields exactly one output row "
    "whose Q and intensity are the arithmetic means of its points, rows come in increasing Q, and empty bins yield no "
    "row; with rebinning switched off the selected points pass through unchanged.",
    ["inputs", "configurations"],
    "all datasets (unsorted, repeated Q, point on a bin edge, smallest and largest point) and bin counts",
    "the tests check the number of bins of one file; a point lost at the smallest or largest Q, or counted in two bins, "
    "changes nothing they look at",
    ["mc_data_1d.py", "mc_data.py"],
    [("bin edges and per-bin statistics", "mc_data_1d.py reBin"), ("nbins = 0 bypass", "mc_data.py prepare")],
    observe=["binnedData, measData"],
)
prop(
    "C03",
    "Rebinned uncertainties are never below any estimate",
    "For every rebinned point the intensity uncertainty is the largest of the standard error of the bin's intensities, "
    "the propagated individual uncertainties (root of the summed squares divided by the number of points) and the "
    "configured minimum relative uncertainty times the intensity; a bin of one point keeps that point's own uncertainty "
    "in place of the first two. The Q uncertainty is likewise the largest of the standard error on Q, the propagated (or "
    "default 1%) Q uncertainty and 1% of Q.",
    ["inputs", "configurations"],
    "all Q/I/sigma values in a bin, bins of one or several points, with or without a Q-uncertainty column, all minimum "
    "relative uncertainties",
    "no test looks at a rebinned uncertainty value",
    ["mc_data_1d.py"],
    [("per-bin uncertainty estimates", "mc_data_1d.py reBin")],
    observe=["binnedData ISigma/QSigma, measData ISigma"],
)
prop(
    "C04",
    "Fit data follow the chosen processing stage, Q nudged once",
    "The data handed to the fit are, point by point, the Q, intensity and uncertainty of the processing stage the user "
    "selected (raw, clipped or binned), in 1-D and 2-D. A configured Q offset is added exactly once and to Q only, the "
    "stage's own stored data are not altered by it, and preparing or linking again gives the same result.",
    ["inputs", "configurations", "histories"],
    "all data values, all nudges per dimension, all stage selections, any sequence of re-preparing and re-linking",
    "no test sets a nudge or compares fit data to a stage other than the default",
    ["mc_data_1d.py", "mc_data_2d.py", "mc_data.py"],
    [("linkMeasData", "mc_data_1d.py, mc_data_2d.py"), ("prepare", "mc_data.py")],
    observe=["measData"],
)
prop(
    "C05",
    "2-D selection keeps exactly the valid pixels; maps rebuild",
    "For every 2-D dataset the fitted pixels are exactly the unmasked ones with finite intensity and nonzero uncertainty "
    "whose |Qx|, |Qy| and |Q| lie strictly within the configured limits, each with its own Q, intensity and uncertainty. Rebuilding "
    "a map from a per-pixel model intensity puts every value back at its own pixel of the cropped frame and leaves every "
    "excluded pixel NaN.",
    ["inputs", "configurations"],
    "all pixel values (NaN, inf, zero uncertainty), masks, Q maps and limits",
    "the 2-D test loads one file and checks no pixel",
    ["mc_data_2d.py"],
    [("clip", "mc_data_2d.py clip"), ("reconstruct2D", "mc_data_2d.py reconstruct2D")],
    observe=["measData, clippedData maps, reconstruct2D"],
)
prop(
    "C06",
    "NeXus input reads the data the file or user points to",
    "Reading a NeXus file takes Q, intensity and uncertainty from the paths the user gave, or else from the group reached "
    "by following the chain of default attributes from the root, using that group's signal, its uncertainty reference and "
    "its Q axis. Values are taken unchanged; without any uncertainty reference the uncertainty is 0.1% of the intensity.",
    ["inputs", "configurations"],
    "all data values, default chains of any depth with decoy groups, attribute spellings (text or bytes, q or Q), the ways "
    "an uncertainty can be referenced, user path dictionaries",
    "two example files with one layout each are read by the tests",
    ["mc_data.py"],
    [("from_nexus", "mc_data.py from_nexus")],
    observe=["rawData, measData"],
)
prop(
    "C07",
    "Stored values read back as last written",
    "Any supported value (number, text, path, list, array, table, nested dictionary) written to a location of a result "
    "file reads back equal to what was written last, whatever value, type or shape that location held before. Other "
    "locations of the file are unaffected, and a location never written reads as the default.",
    ["inputs", "histories"],
    "all values and all ordered pairs of value kinds and shapes written to the same location",
    "tests write every location once, into a fresh file",
    ["mc_hdf.py"],
    [("storeKV/storeKVPairs", "mc_hdf.py"), ("loadKV/loadKVPairs", "mc_hdf.py")],
    observe=["values returned by the loading functions; content of the HDF5 file"],
)
prop(
    "C08",
    "Results with different indices never touch each other",
    "Everything stored under a result index (data, model, optimization, histograms) goes under that index's own entry of "
    "the file and nowhere else. Reading with an index returns what was stored under that index only, for any indices and "
    "any order of storing and reading.",
    ["histories", "configurations"],
    "all pairs of indices and all interleavings of storing data, optimization results and histograms under them",
    "the tests only ever use the default index",
    ["mc_hdf.py", "mc_data.py", "mc_model.py", "mc_opt.py", "mc_core.py", "mc_hat.py", "mc_analysis.py", "mc_model_histogrammer.py"],
    [("ResultIndex entry point", "mc_hdf.py"), ("index passed to every load/store", "mc_core.py, mc_hat.py")],
    observe=["HDF5 tree of the result file; reloaded objects"],
)
prop(
    "C09",
    "A stored dataset is restored to the same fit data",
    "Loading a 1-D dataset back from a result file reproduces its raw data and its processing settings (data range, "
    "omitted ranges, number of bins, minimum uncertainty, chosen stage, Q nudge, reader options), and hence the same "
    "clipped, binned and fit data. This holds for every setting, including the defaults.",
    ["inputs", "configurations"],
    "all data values and all combinations of settings",
    "the restore test uses one configuration without nudge, omit ranges or non-default stage",
    ["mc_data.py", "mc_data_1d.py", "mc_hdf.py"],
    [("store/load key lists", "mc_data.py"), ("restoring constructor", "mc_data_1d.py")],
    observe=["attributes and measData of the restored object"],
)
prop(
    "C10",
    "A stored repetition is restored exactly, and only that one",
    "Loading a repetition from a result file returns that repetition's own contribution set, volumes, seed, fit limits, "
    "static parameters, counters, convergence settings, goodness of fit, scaling/background and acceptance history, in "
    "the stored order, never another repetition's. Continuing the optimization from a restored state extends the stored "
    "acceptance history rather than altering it.",
    ["inputs", "histories", "configurations"],
    "all parameter values, any number of repetitions (incl. two-digit ones), one or several fit parameters, empty static "
    "parameters, any acceptance history",
    "the stable tests never reload an optimization result",
    ["mc_core.py", "mc_model.py", "mc_opt.py", "mc_hdf.py"],
    [("McModel.store/load", "mc_model.py"), ("McOpt.store/load", "mc_opt.py"), ("McCore.load", "mc_core.py")],
    observe=["reloaded core, model and optimization state"],
)
prop(
    "C11",
    "The fitted intensity is always the sum of the contributions",
    "At the start and after every optimization step, the total model intensity equals the sum of the single-contribution "
    "intensities of the current parameter set, and the stored volume of each contribution is that contribution's volume. "
    "A step changes at most the one contribution whose turn it is (round robin), and a rejected step changes nothing.",
    ["histories", "inputs"],
    "all sequences of accepted and rejected steps, all intensities and parameter values, one or more data points",
    "no stable test runs an optimization step",
    ["mc_core.py", "mc_model.py"],
    [("initModelI", "mc_core.py"), ("reEvaluate/accept/reject/iterate", "mc_core.py")],
    state=[("modelI", "running total intensity", "mc_opt.py"), ("parameterSet, volumes", "current contributions", "mc_model.py")],
    observe=["modelI, parameterSet, volumes"],
)
prop(
    "C12",
    "Moves are accepted iff they improve; history matches",
    "An optimization step is accepted exactly when the goodness of fit of the changed set is strictly better than the "
    "current one, so the goodness of fit never gets worse, and the kept scaling/background always belong to the kept set. "
    "The step counter counts every step, the accepted counter every accepted one, and the acceptance history lists the "
    "starting point followed by each accepted step with the goodness of fit reached there.",
    ["histories", "inputs"],
    "all sequences of goodness-of-fit values (ties, increases, decreases) over several steps",
    "no stable test runs an optimization step",
    ["mc_core.py", "mc_opt.py"],
    [("iterate/accept", "mc_core.py")],
    observe=["gof, x0, step, accepted, acceptedSteps, acceptedGofs"],
)
prop(
    "C13",
    "Optimization stops exactly at its limits",
    "Optimization keeps stepping while the goodness of fit is above the convergence criterion and neither the maximum "
    "number of steps nor of accepted steps is reached, and stops as soon as one of these holds, never exceeding either "
    "maximum. An already converged start does no step.",
    ["histories", "configurations"],
    "all goodness-of-fit sequences and all combinations of limits",
    "no stable test runs an optimization",
    ["mc_core.py", "mc_opt.py"],
    [("optimize loop condition", "mc_core.py optimize")],
    observe=["step, accepted, gof after optimization"],
)
prop(
    "C14",
    "Random picks stay inside the fit limits",
    "Every contribution parameter, at initialization, after a reset and for every pick, lies within that parameter's own "
    "fit limits, for uniform and for logarithmic picking. Exactly the fit parameters are picked, each afresh for every "
    "contribution, and logarithmic picking refuses non-positive limits.",
    ["inputs", "configurations", "schedules"],
    "all limits (also given in reverse order), all random numbers, one or several parameters, any number of contributions",
    "random numbers are sampled with one seed, limits are those of one example",
    ["mc_model.py"],
    [("generateRandomParameterValues / log_transform_generator", "mc_model.py"), ("resetParameterSet", "mc_model.py")],
    observe=["parameterSet, pickParameters"],
)
prop(
    "C15",
    "Automatic fit limits derive from this run's data",
    "A fit parameter set to automatic gets the limits pi/Qmax and pi/Qmin of the data being fitted, explicit limits are "
    "used as given, and data reaching down to Q <= 0 are refused for automatic limits. The caller's configuration is left "
    "as it was, so using it again with other data gives that data's limits.",
    ["inputs", "configurations", "histories"],
    "all Q vectors, all mixtures of automatic and explicit parameters, two successive runs sharing one configuration",
    "no stable test runs with automatic limits and checks them",
    ["mc_hat.py"],
    [("fillFitParameterLimits", "mc_hat.py")],
    observe=["fit limits used by the model; caller's dictionary"],
)
prop(
    "C16",
    "Goodness of fit is the reduced chi-squared of the fit",
    "The goodness of fit of a model intensity is the mean over the data points of the squared difference between measured "
    "and scaled-plus-background model intensity in units of the uncertainty, evaluated at the returned scaling and "
    "background. The search is limited to non-negative scaling and a background within plus or minus the mean measured "
    "intensity (or to the bounds the user gave), and starts from a point inside these limits unless a starting point is given.",
    ["inputs", "configurations"],
    "all measured and model intensities and uncertainties, also with negative mean intensity; all explicit bounds",
    "no test checks a goodness-of-fit value or the bounds",
    ["osb.py", "mc_core.py"],
    [("optFunc, match, initialGuess", "osb.py"), ("evaluate", "mc_core.py")],
    observe=["objective, bounds and starting point handed to the minimizer; returned values"],
)
prop(
    "C17",
    "Contribution intensity is volume-normalised model intensity",
    "The intensity of a contribution is the model's squared amplitude at the measured Q divided by its volume, for plain "
    "and structure-factor models alike, with picked parameters overriding static ones. The built-in sphere uses the "
    "analytic form factor, 4/3 pi r^3 and the squared contrast, and the built-in simulation model interpolates the given "
    "curve linearly at Q times the size factor, continues it by background plus a Q^-4 power law beyond its last point and "
    "by its first value below its first, and scales with the sixth (intensity) and third (volume) power of the factor.",
    ["inputs", "configurations"],
    "all Q, radii, contrasts, curves, factors and parameter dictionaries",
    "no test compares an intensity with its formula",
    ["mc_model.py"],
    [("calcModelIV", "mc_model.py"), ("sphere and simulation kernels", "mc_model.py")],
    observe=["intensity and volume returned for a parameter set"],
)
prop(
    "C18",
    "Every requested repetition is run, independent and stored",
    "A run with N repetitions, stored under an index that holds no earlier run, performs and stores exactly the repetitions "
    "0..N-1, with any number of cores. Each starts "
    "from a fresh random contribution set, with counters, history and scaling/background not inherited from another "
    "repetition, and draws from a different random sequence than every other repetition.",
    ["schedules", "configurations"],
    "all repetition and core counts, with and without a seed, serial and parallel, all random draws",
    "only a three-repetition run is exercised and its repetitions are not compared",
    ["mc_hat.py", "mc_core.py", "mc_model.py", "mc_opt.py"],
    [("run/runOnce", "mc_hat.py")],
    observe=["stored repetitions; random streams; state at the start of each repetition"],
)
prop(
    "C19",
    "Result-file writes are serialised and the lock released",
    "During a parallel run every write to the result file by a repetition happens while holding the one lock shared by all "
    "workers. The lock is released exactly once after each repetition's write, also when writing fails, so later "
    "repetitions are never blocked.",
    ["schedules", "fault_sequences"],
    "all assignments of repetitions to workers and all combinations of failing writes",
    "no test makes a write fail or looks at the lock",
    ["mc_hat.py"],
    [("STORE_LOCK around storing", "mc_hat.py runOnce"), ("lock handed to every worker", "mc_hat.py run")],
    observe=["acquire/release/write events"],
)
prop(
    "C20",
    "Histograms count contributions in the right bins",
    "A histogram's bar heights are the number of contributions whose parameter falls in each bin (bins half-open, the last "
    "one closed), times the repetition's scaling factor and the unit correction 1e-5. Its edges divide the chosen range "
    "into the requested number of linearly or logarithmically equal bins, the range being the parameter's fit limits when "
    "automatic and the preset range otherwise, separately for each histogram range.",
    ["inputs", "configurations"],
    "all parameter values (also on an edge or outside the range), ranges, bin counts, scalings, several ranges and parameters",
    "no stable test histograms anything",
    ["mc_model_histogrammer.py"],
    [("genX, histogram", "mc_model_histogrammer.py")],
    observe=["bin edges and bar heights"],
)
prop(
    "C21",
    "Population modes are the moments inside the range",
    "Over the contributions whose parameter lies in the histogram range (limits included), the reported mean, variance, "
    "skew and kurtosis are their mean, population variance and standardised third and fourth central moments. The total is "
    "their number times the scaling factor and 1e-5, and with no contribution in range all are undefined (NaN).",
    ["inputs", "configurations"],
    "all parameter values, ranges and scalings; identical values; empty ranges; several ranges",
    "no stable test computes modes",
    ["mc_model_histogrammer.py"],
    [("modes", "mc_model_histogrammer.py")],
    observe=["modes table"],
)
prop(
    "C22",
    "Averages over repetitions are plain means with spreads",
    "For every histogram range, mode, optimization parameter and data point, the reported average is the arithmetic mean "
    "over all stored repetitions (for a mode, over those in which it is defined), each repetition's model intensity scaled "
    "with its own scaling and background. The spread is the sample standard deviation for histogram bars, modes and "
    "optimization parameters, and the population standard deviation for the model intensity.",
    ["inputs", "configurations"],
    "all per-repetition values, one to several repetitions with gaps or two-digit numbers, several ranges",
    "no stable test analyses repetitions",
    ["mc_analysis.py"],
    [("averageI/Opts/Modes/Histograms", "mc_analysis.py"), ("getNRep", "mc_analysis.py")],
    observe=["averaged tables; stored averages"],
)
prop(
    "C23",
    "Re-histogramming replaces all earlier histogram results",
    "After analysing a result file with storing enabled, the stored per-repetition and averaged histograms, bin edges, "
    "ranges and modes equal those just computed. This holds even when an earlier analysis with other ranges, bin counts or "
    "scalings had stored results in the same place, and the optimization results in the file stay as they were.",
    ["histories", "configurations"],
    "all pairs of successive analyses with different values and ranges",
    "no stable test analyses a file twice",
    ["mc_analysis.py", "mc_model_histogrammer.py", "mc_hdf.py"],
    [("store", "mc_analysis.py, mc_model_histogrammer.py"), ("storeKV", "mc_hdf.py")],
    observe=["HDF5 content after each analysis"],
)
prop(
    "C24",
    "The command line never destroys its input",
    "The command-line optimizer removes an existing result file only if asked to, and never when it is the input data "
    "file, however the two paths are spelled. It stores the data and every repetition in the result file under the "
    "requested index, and a positive thread count on the command line overrides the configured one. The command-line "
    "histogrammer changes nothing but the histograms and averages under the requested index.",
    ["configurations", "inputs"],
    "all combinations of existing files, path spellings (relative, dotted, symbolic link), flags, indices and thread counts",
    "the command-line test runs one configuration",
    ["cli_tools.py", "__main__.py", "mcsas3_cli_runner.py"],
    [("run", "cli_tools.py"), ("argument parsing and dispatch", "__main__.py, mcsas3_cli_runner.py")],
    observe=["files on disk; contents of the result file; settings used"],
)
prop(
    "C25",
    "Settings of one object never leak into another",
    "Creating, configuring or running one dataset, model, optimization or analysis leaves the settings and results of every "
    "other one, and the defaults for later ones, as they were. This holds for any sequence of objects in one process.",
    ["histories", "configurations"],
    "all pairs of objects of each kind with arbitrary settings, created and used in any order",
    "tests create objects in a fixed order and never compare defaults afterwards",
    ["mc_data.py", "mc_data_1d.py", "mc_data_2d.py", "mc_model.py", "mc_opt.py", "mc_core.py", "mc_hat.py", "mc_analysis.py"],
    [("resetting constructors", "all classes"), ("model defaults update", "mc_core.py")],
    observe=["attributes of a second object and class defaults"],
)
prop(
    "C26",
    "The scaling/background found is the global optimum",
    "For every dataset and model intensity the returned scaling and background minimise the reduced chi-squared over all "
    "admissible values.",
    ["inputs"],
    "all measured and model intensities",
    "tests use one dataset",
    ["osb.py"],
    [("scipy TNC minimizer", "osb.py match")],
)
prop(
    "C27",
    "Model-library intensities are physically correct",
    "For every library model and parameter set the squared amplitude and volume computed by the model library agree with "
    "the model's published definition at every Q.",
    ["inputs", "programs"],
    "all library models, parameters and Q",
    "tests do not compare intensities with definitions",
    ["mc_model.py"],
    [("sasmodels kernels", "mc_model.py calcModelIV")],
)

prop(
    "C28",
    "Text files are read completely, column by column",
    "Reading a text file takes every data row, with Q, intensity and uncertainty from the columns the reader options (or "
    "names) designate, and nothing else: for a PDH file exactly the rows between its five header lines and its XML "
    "trailer. The file type is that of the suffix or of the configured reader. A file that is missing, of unknown type, "
    "lacks a column or holds something that is not a number is refused, never partly used.",
    ["inputs", "configurations"],
    "all numbers in the rows; all layouts, separators, headers, trailers and reader options within the stated set",
    "tests read three sample files with one set of options each",
    ["mc_data_1d.py", "mc_data.py"],
    [("from_pdh, from_csv, from_pandas", "mc_data_1d.py"), ("from_file", "mc_data.py")],
    observe=["rawData, measData of the dataset", "exceptions"],
)
prop(
    "C29",
    "Reports and the result card state the averaged results",
    "The text reports state, for the requested histogram range, its limits and the averaged population statistics, and for "
    "the run the Q range, number of repetitions and averaged optimization parameters, each as mean and deviation to three "
    "significant digits, with the relative deviation in percent. The result card shows every histogram range once, with its "
    "own bars, widths, deviations, parameter, axis scale and report, whatever the labels of the ranges; and the measured data with "
    "uncertainties and the averaged fit. It is written to the requested file only.",
    ["inputs", "configurations"],
    "all averaged values; all numbers, labels and binnings of the ranges within the bounds",
    "the card is drawn in one test (not among the stable ones) and never looked at",
    ["mc_plot.py", "mc_analysis.py"],
    [("debugReport, debugRunReport, debugAddString, debugPlot", "mc_analysis.py"), ("resultCard", "mc_plot.py")],
    observe=["report texts", "calls to matplotlib"],
)
prop(
    "C30",
    "A seeded run is reproducible",
    "Two runs with the same seed, data and settings store the same results for every repetition, whatever was run before or "
    "between them in the same process and in whatever order their repetitions are scheduled.",
    ["histories", "configurations"],
    "all random streams, data intensities and settings within the bounds",
    "seeded runs are not among the tests",
    ["mc_hat.py", "mc_core.py", "mc_model.py"],
    [("run, runOnce", "mc_hat.py"), ("random generators", "mc_model.py")],
    observe=["result files of both runs"],
)
prop(
    "C31",
    "Unusable settings and input are refused, not ignored",
    "What cannot be honoured ends in an error, and what can be is accepted. Refused are: option names the data, model, optimizer "
    "or run object does not know, when it is made or restored; fewer than one repetition; fit limits that are a text other than "
    "'auto' or no pair; models lacking limits, static parameters or simulated data; histograms of parameters that were not "
    "fitted, or with a number of bins that is no whole number above zero, a scale other than linear, log or auto, a weighting "
    "other than vol, or an automatic-range flag that is not boolean; data ranges without any usable point; omitted ranges that "
    "are no list of pairs; tables without numeric Q, I and ISigma columns; input files that are missing or of unknown type; "
    "fits and analyses without their data, ranges or file; repetitions not named or not stored; command lines naming missing "
    "data or configuration files, or configurations not ending in .yaml. Nothing is fitted then, and refused limits, histograms and "
    "command-line files leave an existing result file as it is.",
    ["inputs", "configurations"],
    "any numbers within the bounds, each unusable setting alone or among usable ones, at every entry point",
    "refusals are not among the tests",
    ["mc_data.py", "mc_data_1d.py", "mc_hat.py", "mc_model.py", "mc_opt.py", "mc_model_histogrammer.py", "mc_analysis.py", "cli_tools.py"],
    [
        ("processKwargs, from_file", "mc_data.py"),
        ("from_pandas, clip, omit", "mc_data_1d.py"),
        ("__init__, fillFitParameterLimits", "mc_hat.py"),
        ("__init__, checkSettings, load, store", "mc_model.py"),
        ("__init__", "mc_model_histogrammer.py"),
        ("McSAS3_cli_optimize, McSAS3_cli_histogram", "cli_tools.py"),
    ],
    observe=["errors", "result files"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
