-------------------------------- MODULE Cli --------------------------------
(* A program made of components: what its arguments make it do, and what a    *)
(* run leaves behind.                                                          *)
EXTENDS ResultFile
(* the two numbers of arguments an analysis accepts                            *)
AnalysisCounts(kind) == IF kind = "vec" THEN {5, 6} ELSE {4, 5}
RECURSIVE TotalArgs(_)
TotalArgs(cs) == IF cs = <<>> THEN 0 ELSE NumArgs(Head(cs)) + TotalArgs(Tail(cs))
Mode(kind, cs, n) == IF n \in AnalysisCounts(kind) THEN "analyse" ELSE IF n = TotalArgs(cs) THEN "simulate" ELSE "help"
(* the words of component i, in the declared order of components               *)
Share(cs, words, i) == LET from == TotalArgs(SubSeq(cs, 1, i - 1)) IN SubSeq(words, from + 1, from + NumArgs(cs[i]))
RECURSIVE HeaderVals(_, _, _)
HeaderVals(cs, words, n) == IF n = 0 THEN <<>> ELSE HeaderVals(cs, words, n - 1) \o ArgsOf(cs[n], Share(cs, words, n))
(* the values a program finds in its variables, in the declared order          *)
Untold(c) == IF c \in {"Cubic", "Circ"} THEN {"bctype"} ELSE IF c = "Cyl" THEN {"sys_type", "bctype"} ELSE {}
ValOf(cs, words, i, label) ==
  LET f == FreeFields(cs[i]) IN Share(cs, words, i)[CHOOSE k \in 1..Len(f) : f[k].label = label]
RECURSIVE VarsFrom(_, _, _)
VarsFrom(cs, words, n) == IF n = 0 THEN <<>> ELSE
  LET L == SelectSeq(FreeFields(cs[n]), LAMBDA f : f.label \notin Untold(cs[n]))
  IN VarsFrom(cs, words, n - 1) \o [k \in 1..Len(L) |-> ValOf(cs, words, n, L[k].label)]
Vars(cs, words) == VarsFrom(cs, words, Len(cs))
(* what the data set of a program lists                                        *)
Listed(c) ==
  CASE c \in {"Cubic", "Circ"} -> <<"sys_size", "dim">>
    [] c = "Cyl" -> <<"sys_radius", "sys_length", "dim">>
    [] c = "Bulk" -> <<"target_size">>
    [] c = "Indep" -> <<"num_agent">>
    [] c = "Merge" -> <<"ptl_radius", "alpha", "num_agent">>
    [] c = "Exp" -> <<"gamma", "strength", "num_agent">>
    [] c = "LJ" -> <<"ptl_size", "strength", "num_agent">>
    [] c = "Const" -> <<"dt", "tmax">>
    [] c = "ExpStep" -> <<"dt_min", "dt_max", "length", "tmax">>
    [] c = "Var" -> <<"idx_set">>
    [] c = "ParVar" -> <<"n_thrd">>
    [] c = "Process" -> <<"period", "idx_set">>
RECURSIVE SetFrom(_, _, _)
SetFrom(cs, words, n) == IF n = 0 THEN <<>> ELSE
  SetFrom(cs, words, n - 1) \o [k \in 1..Len(Listed(cs[n])) |-> ValOf(cs, words, n, Listed(cs[n])[k])]
(* parameters of the data set; the physical ones among them                    *)
SetOf(cs, words) == SetFrom(cs, words, Len(cs))
PhysOf(cs, words) == SetFrom(cs, words, Len(cs) - 1)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "|" \o Join(Tail(s))
KeyOf(cs, words) == Join(PhysOf(cs, words))
NumAgents(cs, words) == ValOf(cs, words, 3, "num_agent")
DirOf(cs, words) == ValOf(cs, words, Len(cs), "output_dir")
(* can the words be read at all                                                 *)
Readable(cs, words) == \A i \in 1..Len(cs) : AcceptsArgs(cs[i], Share(cs, words, i))
=============================================================================
