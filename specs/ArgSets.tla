------------------------------ MODULE ArgSets ------------------------------
(* A set of arguments is the record of the fields its component declares.     *)
EXTENDS ResultFile
(* the value a field of each type has before anything was declared            *)
Ints == {"dim", "num_agent", "exp_dim", "length", "num_ensemble", "idx_set", "seed", "n_thrd"}
DefaultOf(f) ==
  CASE f.fix # "*" -> f.fix
    [] f.label = "bctype" -> "Reflection"
    [] f.label = "sys_type" -> "Circular"
    [] f.label = "mtype" -> "Brownian f3ff0000000000000"
    [] f.label = "itype" -> "Uniform"
    [] f.label = "target_pos" -> ""
    [] f.label = "output_dir" -> "s "
    [] f.label \in Ints -> "0"
    [] OTHER -> "f0000000000000000"
Cleared(c) == [i \in 1..Len(Schema(c)) |-> DefaultOf(Schema(c)[i])]
Put(x, i, v) == [x EXCEPT ![i] = v]
=============================================================================
