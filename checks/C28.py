"""C28  Text files are read completely, column by column as configured."""
from symx.run import harness

IMPORTS = ["mcsas3.mc_data_1d", "mcsas3.mc_data"]
OUTSIDE = "larger files and other reader options than stated; the number parser of pandas (its tokenizer runs for real on the text; the numbers in it are symbolic); integer columns (refused); PDH files without XML trailer (refused)"
ASSUMPTIONS = ["a number written to a text file with all its digits is read as that number"]
STUBS = ["pandas.read_csv runs for real on text in which every number is the placeholder of a symbolic value"]
NAMES = ["Q", "I", "ISigma"]


def rows_of(env, n):
    return [[env.real(f"{c}{i}") for c in NAMES] for i in range(n)]


def line(r, sep=" ", order=(0, 1, 2), extra=()):
    return sep.join([f"{r[k]}" for k in order] + list(extra)) + "\n"


def judge(env, md, rows, what):
    d = md.rawData
    env.eq([[d[c].iloc[i] for c in NAMES] for i in range(len(d))], rows, f"every data row of {what}, column by column")
    m = md.measData
    env.eq([list(m["Q"][0]), list(m["I"]), list(m["ISigma"])], [[r[k] for r in rows] for k in range(3)], "the fit data are those of the file")
    env.observe("raw", [list(d[c]) for c in NAMES])


@harness(
    quick=dict(n=3), thorough=dict(n=5),
    bounds="1..n data rows of any numbers after five header lines (text or numbers in them), trailers of one to three lines, further '<?xml' lines in the trailer; the suffix or the configured reader tells the type",
)
def pdh(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.count("rows", 1, env.p["n"])
    rows = rows_of(env, n)
    head = env.choice("header", [["SAXSESS"] + ["1 2 3"] * 4, ["a b c", "", "  7  0 0", "1.0 2.0 3.0 4.0 5.0", "x"], ["t\n1 2 3\n4 5 6\n7 8 9\n1 2 3"]])
    sep = env.choice("separator", ["   ", "\t", " "])
    trail = env.choice("trailer", [['<?xml version="1.0"?>'], ['<?xml version="1.0"?>', "<a>", "1 2 3"], ["<?xml?>", "<b/>", "<?xml?>"]])
    end = env.choice("line end", ["\n", "\r\n"])
    suffix, loader = env.choice("type", [(".pdh", None), (".pdh", "from_pdh"), (".dat1", "from_pdh")])
    fn = env.tmp / ("data" + suffix)
    text = "".join(h + "\n" for h in head) + "".join(sep.strip(" ") + line(r, sep) for r in rows) + "".join(t + "\n" for t in trail)
    fn.write_bytes(text.replace("\n", end).encode())
    kw = {} if loader is None else dict(loader=loader)
    judge(env, McData1D(filename=fn, nbins=0, **kw), rows, "the PDH file")


OPTIONS = {
    "default": (None, dict(sep=" ")),
    "tabs": (None, dict(sep="\t")),
    "semicolon": (dict(sep=";", header=None, names=NAMES), dict(sep=";")),
    "comma, header": (dict(sep=",", header=0), dict(sep=",", head=["Q,I,ISigma"])),
    "header, other order": (dict(sep=";", header=0), dict(sep=";", order=(2, 0, 1), head=["ISigma;Q;I"])),
    "renamed": (dict(sep=",", header=0, names=NAMES), dict(sep=",", head=["q (1/nm),int,err"])),
    "names in other order": (dict(sep=r"\s+", header=None, names=["I", "ISigma", "Q"]), dict(sep="  ", order=(1, 2, 0))),
    "skipped rows": (dict(sep=r"\s+", header=None, names=NAMES, skiprows=2), dict(sep=" ", head=["9 9 9", "8 8 8"])),
    "comments": (dict(sep=r"\s+", header=None, names=NAMES, comment="#"), dict(sep=" ", head=["# 1 2 3"])),
    "fourth column": (dict(sep=";", header=None, names=NAMES + ["x"]), dict(sep=";", extra=("5.5",))),
    "some columns": (dict(sep=";", header=None, usecols=[0, 1, 2], names=NAMES), dict(sep=";", extra=("5.5",))),
    "first rows": (dict(sep=" ", header=None, names=NAMES, nrows=2), dict(sep=" ", keep=2)),
    "index column": (dict(sep=" ", header=None, names=["k"] + NAMES, index_col=0), dict(sep=" ", numbered=True)),
}


@harness(
    quick=dict(n=3), thorough=dict(n=4),
    bounds="1..n data rows of any numbers; 13 sets of reader options (separators, header lines, column order and selection, comments, skipped rows, row labels); suffix .csv, .dat, .txt or the configured reader",
)
def text(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.count("rows", 1, env.p["n"])
    rows = rows_of(env, n)
    o = env.choice("options", sorted(OPTIONS))
    args, how = OPTIONS[o]
    how = dict(how)
    head, keep, numbered = how.pop("head", []), how.pop("keep", n), how.pop("numbered", False)
    suffix, loader = env.choice("type", [(".csv", None), (".dat", None), (".txt", "from_csv"), (".xy", "from_csv")])
    fn = env.tmp / ("data" + suffix)
    with open(fn, "w") as f:
        f.writelines(h + "\n" for h in head)
        for k, r in enumerate(rows):
            f.write((f"{7 + k // 2} " if numbered else "") + line(r, **how))
    kw = {} if loader is None else dict(loader=loader)
    given = None
    if args is not None:
        given = {k: (list(v) if isinstance(v, list) else v) for k, v in args.items()}
        kw["csvargs"] = given
    md = McData1D(filename=fn, nbins=0, **kw)
    judge(env, md, rows[:keep], "the text file")
    if given is not None:
        env.check(given == args, "the reader options of the caller are left as they were")


@harness(
    quick=dict(n=2), thorough=dict(n=3),
    bounds="two files after each other in one dataset object, or in two; the first of n rows, the second longer or shorter; reader options given for one reading only",
)
def another(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.p["n"]
    a, b = rows_of(env, n), [[env.real(f"b{c}{i}") for c in NAMES] for i in range(env.count("second", 1, n + 1))]
    f1, f2 = env.tmp / "one.csv", env.tmp / "two.dat"
    f1.write_text("".join(line(r) for r in a))
    once = env.choice("options", ["none", "once"])
    f2.write_text("".join(line(r, ";" if once == "once" else " ") for r in b))
    md = McData1D(filename=f1, nbins=0)
    judge(env, md, a, "the text file")
    if env.choice("object", ["same", "new"]) == "new":
        md2 = md
        md = McData1D(nbins=0)
    else:
        md2 = None
    if once == "once":
        md.from_csv(f2, csvargs=dict(sep=";"))
    else:
        md.from_file(f2)
    judge(env, md, b, "the second text file")
    if once == "once":  # the options were given for that file only
        md.from_file(f1)
        judge(env, md, a, "the first file, read again")
    if md2 is not None:
        judge(env, md2, a, "the text file")


@harness(
    quick=dict(), thorough=dict(), witnesses=8,
    bounds="missing file, directory, unknown type, a missing column, text in a column, no data at all; two data rows of any numbers",
)
def refused(env):
    from mcsas3.mc_data_1d import McData1D

    rows = rows_of(env, 2)
    case = env.choice("case", ["missing file", "directory", "unknown type", "missing column", "text", "empty", "fine"])
    fn = env.tmp / ("data.xyz" if case == "unknown type" else "data.csv")
    kw = dict(nbins=0)
    if case == "directory":
        fn.mkdir()
    elif case != "missing file":
        fn.write_text("" if case == "empty" else "".join(line(r) for r in rows) + ("1 2 bad\n" if case == "text" else ""))
    if case == "missing column":
        kw["csvargs"] = dict(sep=r"\s+", header=None, names=["Q", "I", "error"])
    if case == "fine":
        judge(env, McData1D(filename=fn, **kw), rows, "the text file")
        return
    e = env.raises(McData1D, filename=fn, **kw)
    env.check(e is not None, "input that cannot be read as Q, intensity and uncertainty is refused", case)


@harness(
    quick=dict(n=40), thorough=dict(n=600),
    bounds="40 (thorough 600) data rows, of which four hold any numbers; PDH and text files, with long trailers or header lines",
)
def many(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.p["n"]
    free = (0, 9, n // 2, n - 1)
    rows = [[env.real(f"{c}{i}") if i in free else 0.25 * i + k for k, c in enumerate(NAMES)] for i in range(n)]
    kind = env.choice("kind", ["pdh", "default", "comments", "header"])
    body = [line(r, ";" if kind == "header" else " ") for r in rows]
    kw = {}
    if kind == "pdh":
        text = ["SAXSESS\n"] + ["1 2 3\n"] * 4 + body + ['<?xml version="1.0"?>\n'] + ["<a>1 2 3</a>\n"] * 50
    elif kind == "default":
        text = body
    elif kind == "comments":
        kw["csvargs"] = dict(sep=r"\s+", header=None, names=NAMES, comment="#")
        text = ["# 1 2 3\n"] * 50 + body + ["# 7 7 7\n"]
    else:
        kw["csvargs"] = dict(sep=";", header=0, skiprows=30)
        text = ["9;9;9\n"] * 30 + [";".join(NAMES) + "\n"] + body
    fn = env.tmp / ("data.pdh" if kind == "pdh" else "data.csv")
    fn.write_text("".join(text))
    judge(env, McData1D(filename=fn, nbins=0, **kw), rows, "a long file")
