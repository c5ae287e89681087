-------------------------------- MODULE Help --------------------------------
(* What the help of a component or an analysis names, in the order in which the   *)
(* words are read.                                                                *)
EXTENDS ResultFile
Bins == <<"min_time", "max_time", "bin_size", "lbin_size", "output_dir">>
IsAnalysis(c) == c \in {"time", "vec", "proc"}
Named(c) == CASE c \in {"time", "proc"} -> Bins
              [] c = "vec" -> <<"num_var">> \o Bins
              [] OTHER -> [i \in 1..Len(FreeFields(c)) |-> FreeFields(c)[i].label]
RECURSIVE NamedAll(_, _)
NamedAll(cs, n) == IF n = 0 THEN <<>> ELSE NamedAll(cs, n - 1) \o Named(cs[n])
(* an analysis may be called without its directory: it counts the words before it *)
Words(c) == IF IsAnalysis(c) THEN Len(Named(c)) - 1 ELSE Len(Named(c))
Column(width, len) == IF width > len THEN width ELSE len
=============================================================================
