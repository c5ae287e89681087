----------------------------- MODULE ResultFile -----------------------------
(* The configuration block of a result file.  A file is a sequence of lines,  *)
(* a line a record [label, val]; every component contributes its fields in     *)
(* the declared order.  A field marked with a value is fixed by the kind of    *)
(* component ("*": free).                                                      *)
EXTENDS Integers, Sequences
Fixed(l, v) == [label |-> l, fix |-> v]
Free(l) == [label |-> l, fix |-> "*"]
Schema(c) ==
  CASE c = "Cubic" -> <<Fixed("sys_type", "Rectangular"), Free("bctype"), Free("sys_size"), Free("dim")>>
    [] c = "Circ" -> <<Fixed("sys_type", "Circular"), Fixed("bctype", "Reflection"), Free("sys_size"), Free("dim")>>
    [] c = "Cyl" -> <<Free("sys_type"), Free("bctype"), Free("sys_radius"), Free("sys_length"), Free("dim")>>
    [] c = "Bulk" -> <<Fixed("target_type", "InBulk"), Free("target_pos"), Free("target_size")>>
    [] c = "Indep" -> <<Fixed("agent_type", "PassiveIndependent"), Free("mtype"), Free("itype"), Free("num_agent")>>
    [] c = "Merge" -> <<Fixed("agent_type", "PassiveInteracting"), Fixed("size", "1"), Free("mtype"), Free("itype"), Free("ptl_radius"), Free("alpha"), Free("num_agent")>>
    [] c = "Exp" -> <<Fixed("agent_type", "PassiveInteracting"), Free("mtype"), Free("itype"), Free("gamma"), Free("exp_dim"), Free("strength"), Free("num_agent")>>
    [] c = "LJ" -> <<Fixed("agent_type", "PassiveInteracting"), Free("mtype"), Free("itype"), Free("ptl_size"), Free("strength"), Free("num_agent")>>
    [] c = "Const" -> <<Free("dt"), Free("tmax")>>
    [] c = "ExpStep" -> <<Free("dt_min"), Free("dt_max"), Free("length"), Free("tmax")>>
    [] c = "Var" -> <<Free("num_ensemble"), Free("idx_set"), Free("seed"), Free("output_dir")>>
    [] c = "ParVar" -> <<Free("num_ensemble"), Free("seed"), Free("n_thrd"), Free("output_dir")>>
    [] c = "Process" -> <<Free("num_ensemble"), Free("period"), Free("idx_set"), Free("seed"), Free("output_dir")>>
IsFree(f) == f.fix = "*"
FreeFields(c) == SelectSeq(Schema(c), IsFree)
NumArgs(c) == Len(FreeFields(c))
RECURSIVE SchemaOf(_, _)
SchemaOf(cs, n) == IF n = 0 THEN <<>> ELSE SchemaOf(cs, n - 1) \o Schema(cs[n])
Fields(cs) == SchemaOf(cs, Len(cs))
LabelsOf(cs) == [i \in 1..Len(Fields(cs)) |-> Fields(cs)[i].label]
(* lines a program writes for components cs with values vals (flat)           *)
Block(cs, vals) == [i \in 1..Len(vals) |-> [label |-> Fields(cs)[i].label, val |-> vals[i]]]
WellFormed(cs, vals) == Len(vals) = Len(Fields(cs)) /\ \A i \in 1..Len(vals) : Fields(cs)[i].fix \in {"*", vals[i]}
(* does a reader for cs accept the lines; "bad" marks a value that is none of its type *)
Accepts(cs, lines) ==
  LET f == Fields(cs) IN
  /\ Len(lines) >= Len(f)
  /\ \A i \in 1..Len(f) : lines[i].label = f[i].label /\ lines[i].val # "bad" /\ f[i].fix \in {"*", lines[i].val}
ReadOf(cs, lines) == [i \in 1..Len(Fields(cs)) |-> lines[i].val]
(* arguments: the free fields in the declared order *)
AcceptsArgs(c, words) == Len(words) = NumArgs(c) /\ \A i \in 1..Len(words) : words[i] # "bad"
RECURSIVE Fill(_, _, _)
Fill(s, n, words) == IF n = 0 THEN <<>>
  ELSE Append(Fill(s, n - 1, words),
              IF s[n].fix # "*" THEN s[n].fix ELSE words[Len(SelectSeq(SubSeq(s, 1, n), IsFree))])
ArgsOf(c, words) == Fill(Schema(c), Len(Schema(c)), words)
=============================================================================
