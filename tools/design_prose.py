PROSE = dict(
C01="""`McData1D` is constructed from a table whose rows are symbolic, with symbolic range and omitted ranges. Oracle: the list of rows with
lo <= Q < hi, outside every omitted interval and without NaN, written directly from the statement; compared with `clippedData`
row by row, the caller's table with its copy. The solver picks points exactly on a limit, overlapping or empty ranges, repeated row labels.""",
C02="""`reBin` runs on selected symbolic points; which point falls in which bin is decided by the comparisons in the code (forks). Oracle: for
decade-spaced bins membership by exact edges, in general by the defining inequalities of logarithmic edges; every row must be the mean of the
points of one bin, every point in exactly one bin. `rounding` lets log10 and 10**x be off by 2^-50 each to decide that the first and last
point are not lost to rounding (this found the defect repaired in 65b4a46).""",
C03="""Same execution; the uncertainty columns are compared with the maximum of the three estimates (terms with square roots, decided through
their squares).""",
C04="""1-D and 2-D datasets are built for each stage, then a symbolic sequence of prepare/link/changed-offset operations is applied; the fit data must be the
stage's own data plus the offset once, whatever was done before.""",
C05="""Frames are written to (in-memory) HDF5 and read by `McData2D`; pixel coordinates, intensities, uncertainties, mask flags and limits are symbolic. Oracle:
the per-pixel predicate of the statement. The map reconstruction is judged with a distinct symbol per fitted pixel.""",
C06="""Files with decoy groups are written, chains of `default` attributes of any depth within the bounds are case-split; the values found must be the
symbols written at the place the statement names.""",
C07="""`storeKV`/`loadKV` on the HDF5 model: all ordered pairs of 21 kinds of values, with symbolic numbers in them, then symbolic histories of stores at
neighbouring and nested locations. Oracle: a Python dictionary of what was written last.""",
C08="""Datasets, repetitions and analyses with different symbols are stored under two indices in every order. Oracle: the content of each entry equals the
content of a file in which only that index was used.""",
C09="""A dataset with one, two or all settings away from their defaults is stored, loaded and compared: raw data, settings, every stage. Settings are symbolic
where they are numbers.""",
C10="""Repetitions after symbolic optimization steps are stored and loaded through `McCore(loadFromFile=...)`; every attribute named in the statement is compared,
then the loaded state is optimized further and its history must extend the stored one.""",
C11="""`McCore.optimize`/`iterate` with an uninterpreted model and symbolic picks; after each step the kept total is compared with the sum of uninterpreted
intensities over the current rows, the volumes with the uninterpreted volume, rows not on turn with their former values.""",
C12="""The goodness of fit returned by each search is a fresh symbol, so every accept/reject pattern and tie is a path. Oracle: a fold over the sequence of
search results.""",
C13="""Convergence criterion, maxIter and maxAccept symbolic; the number of steps made is compared with the first step at which the stopping condition of the
statement holds.""",
C14="""Random numbers are any value in the interval the generator was asked for; limits symbolic. Each value of the contribution table must be inside its own
limits; `afresh` uses pairwise different underlying numbers to see that no number is used for two picks.""",
C15="""`McHat.run` (with the optimization itself left out) on two datasets in sequence with symbolic Q in any order; limits the model receives are compared with
pi/max and pi/min, the caller's dictionary with its copy.""",
C16="""The objective handed to the search, evaluated at the result, must equal the mean of squared normalised residuals (degree-4 polynomials over symbolic data,
2-3 points); bounds and starting point are those passed to `minimize`.""",
C17="""Each model kind with uninterpreted library functions or, for built-in models, compared with the analytic expression with sin/cos uninterpreted; the simulation model over
every ordering of scaled Q relative to the given curve.""",
C18="""`McHat.run` serial and with processes; the log of all repetitions (initial state, draws, result) is judged, then the file. The random generator model gives
equal sequences for equal seeds and otherwise different numbers, so "another random sequence" is a solver question.""",
C19="""Events (acquire, release, file opened for writing) of the process stand-in are recorded; write faults are case-split over repetition and write. Oracle: a monitor over the
event sequence, plus the absence of a worker waiting for a lock that is never released. What is symbolic here is the schedule and the fault pattern, not data.""",
C20="""`McModelHistogrammer` with symbolic contributions, ranges and scaling; bin membership by the defining inequalities.""",
C21="""The moments over the subset in the range (decided by forks); standardised moments are compared multiplied out.""",
C22="""A result file is written by real `McCore.store` calls with symbolic results, then `McAnalysis` reads it. Means exactly, spreads through their squares.""",
C23="""Two analyses in succession; the stored content afterwards must equal that of a fresh file analysed once (all symbolic values compared).""",
C24="""The attrs classes and the argument parsers run on real paths in a scratch directory; existence and spelling of files are case-split, contents symbolic. Deletions only
reach scratch files.""",
C25="""Deep snapshots of objects and class defaults before and after creating and using other objects.""",
C28="""Real pandas parses a real text in which each number is written as a unique placeholder literal standing for a symbolic value; after parsing, the placeholders are the symbols again.
Row and column structure is therefore decided for all numbers; layouts are case-split.""",
C29="""Numbers in the report texts are mapped back to terms: a format specification such as ` 0.02e` of a symbolic number yields a term constrained to be that number rounded to 3 significant
digits. Oracle: the averages in the tables (decided under C22). The card is drawn on a recording stand-in of pyplot.""",
C30="""Two runs are executed one after the other on one symbolic path condition; search and model are uninterpreted functions, generators with equal seeds yield equal symbols. All datasets of both files are
compared by the solver: any hidden state that enters a result makes a term differ.""",
C31="""Each harness builds a request out of usable parts and at most one unusable part, chosen by the path; the numbers in it (limits, Q values, number of repetitions or bins, repetition asked for)
are symbolic, so that acceptance becomes a condition on them which must be equivalent to the documented one on every path. After a refusal the result file (snapshot of every dataset) must be unchanged. The texts and names are
enumerated, they are finite choices of the harness.""",
)
