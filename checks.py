"""What is run for each property."""
import os


def conv_list(beh):
    """behaviour of LinkListImpl -> script line for the list driver"""
    k = beh[0][1]
    ops = []
    for o in beh[1:]:
        if o[0] == "del":
            ops.append("del %d" % o[1])
        else:
            ops.append(o[0])
    return ";".join([str(k)] + ops)


LIST_GEN = dict(module="LinkListGen", cfg="LinkListGen.cfg", n=(300, 2000), depth=26, conv=conv_list)
LIST_MODEL = dict(module="LinkListImpl", cfg="LinkListImpl.cfg", neg=[("RepairCursor = TRUE", "RepairCursor = FALSE")],
                  thorough_sub=[("MaxN = 4", "MaxN = 5")])

CLOCK = dict(module="ClockModel", cfg="ClockModel.cfg", neg=[("Guarded = TRUE", "Guarded = FALSE")],
             thorough_sub=[("MaxEmit = 8", "MaxEmit = 11")])
CLOCKLIVE = dict(module="ClockModel", cfg="ClockLive.cfg")
GEOM = dict(module="GeometryModel", cfg="GeometryModel.cfg", neg=[("MixWrong = FALSE", "MixWrong = TRUE")],
            thorough_sub=[("L = 2", "L = 3"), ("MaxMove = 5", "MaxMove = 9")])
VEC = dict(module="VectorsModel", cfg="VectorsModel.cfg", neg=[("Alias = FALSE", "Alias = TRUE")],
           thorough_sub=[("M = 2", "M = 4")])
DRAWS = dict(module="DrawsModel", cfg="DrawsModel.cfg", neg=[("Cache = FALSE", "Cache = TRUE")],
             thorough_sub=[("MaxDraws = 4", "MaxDraws = 5")])

FILEM = dict(module="ResultFileModel", cfg="ResultFileModel.cfg", neg=[("CheckLabels = TRUE", "CheckLabels = FALSE")],
             thorough_sub=[('Systems = {"Cubic", "Circ"}', 'Systems = {"Cubic", "Circ", "Cyl"}'), ('Agents = {"Merge", "Exp"}', 'Agents = {"Indep", "Merge", "Exp", "LJ"}'),
                           ('Sims = {"Var", "ParVar"}', 'Sims = {"Var", "ParVar", "Process"}')])

ANALYSIS = dict(module="AnalysisModel", cfg="AnalysisModel.cfg", neg=[("Own = TRUE", "Own = FALSE"), ("ClearAll = TRUE", "ClearAll = FALSE")],
                thorough_sub=[("Values = {3, 4, 8, 12}", "Values = {3, 4, 7, 8, 12, 13}")])
CONFIG = dict(module="ConfigModel", cfg="ConfigModel.cfg", neg=[("ArgsChecked = TRUE", "ArgsChecked = FALSE")],
              thorough_sub=[("Ranks = {0, 4, 5, 6, 8, 10, 13}", "Ranks = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}"), ("MaxDim = 2", "MaxDim = 4")])

SEARCH = dict(module="SearchModel", cfg="SearchModel.cfg", neg=[("SkipFirst = FALSE", "SkipFirst = TRUE"), ("LoseMass = FALSE", "LoseMass = TRUE"), ("Reconnect = TRUE", "Reconnect = FALSE"),
              ("StopOuter = TRUE", "StopOuter = FALSE"), ("ResetClock = TRUE", "ResetClock = FALSE")], thorough_sub=[("N = 3", "N = 4")])
SEARCH2 = dict(module="SearchModel", cfg="SearchModel2.cfg", thorough_sub=[("TMax = 2", "TMax = 4")])

WORK = dict(module="WorkModel", cfg="WorkModel.cfg", neg=[("Flip = FALSE", "Flip = TRUE"), ("Scale = 1", "Scale = 2")], thorough_sub=[("Len0 = 3", "Len0 = 4"), ("Steps = 5", "Steps = 8")])

REFLECT = dict(module="ReflectModel", cfg="ReflectModel.cfg", neg=[("Plane = TRUE", "Plane = FALSE")], thorough_sub=[("Dim = 2", "Dim = 3"), ("Radii = {1, 5}", "Radii = {1, 3, 5}")])

TEXTS = dict(module="TextsModel", cfg="TextsModel.cfg", neg=[("Shift = FALSE", "Shift = TRUE")], thorough_sub=[('Numbers = {"0", "1.5", "7"}', 'Numbers = {"0", "1.5", "7", "junk", "-2", "1e9"}')])

HELP = dict(module="HelpModel", cfg="HelpModel.cfg", neg=[("Sorted = FALSE", "Sorted = TRUE")], thorough_sub=[("Values = {1, 2}", "Values = {1, 2, 3}")])

SEQ = dict(module="SequenceModel", cfg="SequenceModel.cfg", neg=[("Shared = FALSE", "Shared = TRUE")], thorough_sub=[("MaxLen = 3", "MaxLen = 4")])

REQ = dict(module="RequestsModel", cfg="RequestsModel.cfg", neg=[("Half = FALSE", "Half = TRUE")])
REASONS = dict(module="ReasonsModel", cfg="ReasonsModel.cfg", neg=[("Own = TRUE", "Own = FALSE"), ("Through = TRUE", "Through = FALSE")], thorough_sub=[("N = 3", "N = 5")])
ARGSETS = dict(module="ArgSetsModel", cfg="ArgSetsModel.cfg", neg=[("Shared = FALSE", "Shared = TRUE"), ("KindToo = TRUE", "KindToo = FALSE")],
               thorough_sub=[('{"Const", "Circ", "Bulk", "Cubic"}', '{"Const", "Circ", "Bulk", "Cubic", "Indep", "ExpStep"}')])
FAULTS = dict(module="FaultsModel", cfg="FaultsModel.cfg", neg=[("Flush = TRUE", "Flush = FALSE"), ("Whole = TRUE", "Whole = FALSE")],
              thorough_sub=[("MaxNeed = 4", "MaxNeed = 7"), ("MaxLim = 4", "MaxLim = 8"), ("Cap = 2", "Cap = 3")])
CLI = dict(module="CliModel", cfg="CliModel.cfg", neg=[("NameHasIdx = TRUE", "NameHasIdx = FALSE"), ("HeaderFirst = TRUE", "HeaderFirst = FALSE"), ("CheckCount = TRUE", "CheckCount = FALSE")],
           thorough_sub=[("MaxRuns = 3", "MaxRuns = 4"), ("Idx = {1, 2}", "Idx = {1, 2, 3}")])


def programs(must_compile):
    """builds the crate with one program per combination and lets it record calls of them"""
    def pre(m, k):
        binary, log = m.build(os.path.join(m.VERIF, "macros"), k["work"], "vm")
        if binary is None:
            if must_compile and "could not compile `vm`" in log:
                return {"driver": "calls", "case": "compile", "event": "a program declared with the library's macros does not compile",
                        "tlc": log[-6000:], "how": "cd macros; cargo build --offline"}
            raise m.CheckError("the programs do not build:\n" + log[-3000:])
        m.drive(binary, "calls", k["out"], k["seed"], k["tier"], k["work"], timeout=700)
    return pre


CHECKS = {
    "C01": dict(
        title="list structure", models=[LIST_MODEL],
        runs=[dict(driver="list", trace="TraceList", gen=LIST_GEN, need=["push", "del", "conn", "init"])]),
    "C02": dict(
        title="single sweep", models=[LIST_MODEL],
        runs=[dict(driver="sweep", trace="TraceList", gen=LIST_GEN, need=["step", "it", "del", "push"])]),
    "C03": dict(
        title="pair sweep", models=[LIST_MODEL],
        runs=[dict(driver="pairs", trace="TraceList", gen=LIST_GEN, need=["dstep", "dit", "del"])]),
    "C04": dict(
        title="merging", models=[dict(module="MergeImpl", cfg="MergeImpl.cfg", neg=[("Validate = TRUE", "Validate = FALSE")])],
        runs=[dict(driver="merge", trace="TraceMerge", need=["merge", "amerge", "grow", "renew", "del", "conn"])]),
    "C05": dict(
        title="times", models=[CLOCK, CLOCKLIVE],
        runs=[dict(driver="times", trace="TraceTimes", need=["next", "dnext", "renew", "settmax", "real"])]),
    "C06": dict(
        title="steps", models=[CLOCK],
        runs=[dict(driver="steps", trace="TraceSteps", need=["next", "dnext", "renew", "settmax", "setinc"])]),
    "C07": dict(
        title="boundary", models=[GEOM],
        runs=[dict(driver="move", trace="TraceMove", need=["move", "wrong"])]),
    "C08": dict(
        title="placement", models=[GEOM],
        runs=[dict(driver="place", trace="TracePlace", need=["pos", "vec", "new", "renew", "out", "badvec", "noplace", "end"])]),
    "C09": dict(
        title="membership", models=[GEOM],
        runs=[dict(driver="member", trace="TraceMember", need=["in", "find", "inedge", "findedge"])]),
    "C10": dict(
        title="search runs", models=[SEARCH, SEARCH2],
        runs=[dict(driver="search", trace="TraceSearch", need=["place", "emit", "move", "pair", "pend", "send", "snap", "take", "over"])]),
    "C11": dict(
        title="header round trip", models=[FILEM],
        runs=[dict(driver="header", trace="TraceHeader", need=["write", "read", "set"]),
              dict(driver="dataset", trace="TraceHeader", need=["write", "cut"])]),
    "C12": dict(
        title="refused headers", models=[FILEM],
        runs=[dict(driver="header", trace="TraceHeader", need=["write", "read", "set", "swap", "junk"]),
              dict(driver="argv", trace="TraceHeader", need=["argv"]),
              dict(driver="dataset", trace="TraceHeader", need=["write", "cut"])]),
    "C19": dict(
        title="generators", models=[DRAWS],
        runs=[dict(driver="draws", trace="TraceDraws", need=["draw", "twin", "start", "long"])]),
    "C20": dict(
        title="random displacements", models=[VEC],
        runs=[dict(driver="randmove", trace="TraceRandMove", need=["rm", "rmv"])]),
    "C21": dict(
        title="mutual displacements", models=[VEC],
        runs=[dict(driver="disp", trace="TraceDisp", need=["disp", "vec", "mdist"])]),
    "C13": dict(
        title="pooling", models=[ANALYSIS],
        runs=[dict(driver="dirs", trace="TraceDirs", need=["file", "other", "rm", "analyze"])]),
    "C14": dict(
        title="bins", models=[ANALYSIS],
        runs=[dict(driver="bins", trace="TraceBins", need=["add", "pt", "endens", "report", "clear", "edge"]),
              dict(driver="wide", trace="TraceBins", need=["add", "pt", "endens", "report"]),
              dict(driver="dirs", trace="TraceDirs", need=["file", "analyze"])]),
    "C15": dict(
        title="summaries", models=[ANALYSIS],
        runs=[dict(driver="bins", trace="TraceBins", need=["add", "pt", "endens", "report", "clear", "real"]),
              dict(driver="dirs", trace="TraceDirs", need=["file", "analyze"])]),
    "C16": dict(
        title="own output", models=[ANALYSIS],
        runs=[dict(driver="dirs", trace="TraceDirs", need=["file", "other", "analyze"])]),
    "C17": dict(
        title="command lines", models=[CLI],
        runs=[dict(driver="calls", trace="TraceCli", external=True, pre=programs(False), need=["refused", "run", "analyze", "rest", "other"])]),
    "C18": dict(
        title="programs and result files", models=[CLI, FILEM],
        runs=[dict(driver="calls", trace="TraceCli", external=True, pre=programs(True), need=["refused", "run", "analyze"])]),
    "C22": dict(
        title="usable configurations", models=[CONFIG],
        runs=[dict(driver="config", trace="TraceConfig", need=["make", "tmax", "inc", "clock"])]),
    "C24": dict(
        title="objects carry arguments", models=[CONFIG],
        runs=[dict(driver="objects", trace="TraceObjects", need=["agents", "direct", "poke", "carry", "twins"])]),
    "C23": dict(
        title="vector arithmetic", models=[VEC],
        runs=[dict(driver="vectors", trace="TraceVectors", need=["far", "lattice", "add", "sub", "mul", "clear", "norm", "dist", "dot", "taxi", "mis"])]),
    "C25": dict(
        title="interaction", models=[WORK],
        runs=[dict(driver="force", trace="TraceWork", need=["step", "jump"])],
        note="The derivative is decided by an exact relation between recorded values (the slope of the potential lies between the forces at the ends of a step), so only numeric rounding is left as slack; sampled distances, parameters and ways of construction."),
    "C26": dict(
        title="frequencies", models=[DRAWS],
        runs=[dict(driver="freq", trace="TraceFreq", need=["batch", "end"])],
        note="A law of probability is only decidable up to sample size: the specification accumulates the counts of 4 million draws per source and accepts eight standard deviations, for single variables and for pairs (independence). Smaller biases than about one percent of a cell are not seen."),
    "C27": dict(
        title="exact reflection", models=[REFLECT],
        runs=[dict(driver="reflect", trace="TraceReflect", need=["hit", "stay", "first", "wrong"])],
        note="The exact reflection is compared with the rational mirror image (steps built from integer hit points); the first order form only up to 3 (step/radius)^2, its own order of accuracy."),
    "C28": dict(
        title="text forms", models=[TEXTS],
        runs=[dict(driver="texts", trace="TraceTexts", need=["show", "read", "short", "spoil", "any", "near", "num"])]),
    "C29": dict(
        title="help", models=[HELP],
        runs=[dict(driver="help", trace="TraceHelp", need=["help", "probe"]),
              dict(driver="calls", trace="TraceCli", external=True, pre=programs(False), need=["refused"])]),
    "C30": dict(
        title="positions as sequences", models=[SEQ],
        runs=[dict(driver="seq", trace="TraceSeq", need=["push", "extend", "at", "put", "ranges", "beyond", "all", "shift", "ends", "clear", "copy", "swap", "eq", "text", "exp", "again", "list"])]),
    "C34": dict(
        title="sets of arguments", models=[ARGSETS],
        runs=[dict(driver="argset", trace="TraceArgSets", need=["count", "start", "make", "read", "clear", "put", "copy", "swap", "eq", "text"])]),
    "C33": dict(
        title="reasons of refusals", models=[REASONS],
        runs=[dict(driver="reason", trace="TraceReasons", need=["ask", "kind", "same"])]),
    "C32": dict(
        title="failing files", models=[FAULTS],
        runs=[dict(driver="fault", trace="TraceFaults", need=["free", "limit", "taken", "data", "open"])]),
    "C31": dict(
        title="analysis requests", models=[REQ],
        runs=[dict(driver="request", trace="TraceRequests", need=["size", "num", "conv", "fresh", "eq", "empty", "seen", "analyze", "count"])]),
}
