-------------------------------- MODULE Texts --------------------------------
(* The text forms of the library's argument types.  A value is a record          *)
(* [v |-> variant, a |-> sequence of its numbers]; numbers are opaque tokens.     *)
EXTENDS Integers, Sequences
Val(v, a) == [v |-> v, a |-> a]
Refused == [v |-> "refused", a |-> <<>>]
(* short forms a user may write: name with arguments; as reals (a) and as        *)
(* whole numbers (k), "" where the word is not such a number; zero[i]: it is 0   *)
ShortNames == [
  move     |-> {"Levy"}, init |-> {"Uniform"}, initi |-> {"Uniform"},
  interact |-> {"Exponential", "Coulomb2D", "Coulomb3D", "LennardJones"},
  system   |-> {"Circular", "Rectangular", "Lattice", "Network"}, bound |-> {"Reflective", "Periodic"},
  time |-> {}, pos |-> {}, posi |-> {}, pair |-> {} ]
AllReal(a) == \A i \in 1..Len(a) : a[i] # ""
Short(ty, name, a, k, zero) ==
  CASE ty = "move" /\ name = "" /\ Len(a) = 1 /\ a[1] # ""                    -> Val("Brownian", a)
    [] ty = "move" /\ name = "Levy" /\ Len(a) = 0                             -> Val("Levy", <<>>)
    [] ty = "time" /\ name = "" /\ Len(a) = 1 /\ a[1] # ""                    -> Val("Constant", a)
    [] ty = "time" /\ name = "" /\ Len(a) = 3 /\ a[1] # "" /\ a[2] # "" /\ k[3] # "" -> Val("Exponential", <<a[1], a[2], k[3]>>)
    [] ty \in {"init", "initi"} /\ name = "Uniform" /\ Len(a) = 0             -> Val("Uniform", <<>>)
    [] ty = "init" /\ name = "" /\ Len(a) > 0 /\ AllReal(a)                   -> Val("At", a)
    [] ty = "initi" /\ name = "" /\ Len(a) > 0 /\ AllReal(k)                  -> Val("At", k)
    [] ty = "pos" /\ name = "" /\ Len(a) > 0 /\ AllReal(a)                    -> Val("Pos", a)
    [] ty = "posi" /\ name = "" /\ Len(a) > 0 /\ AllReal(k)                   -> Val("Pos", k)
    [] ty = "pair" /\ name = "" /\ Len(a) = 2 /\ AllReal(a)                   -> Val("Pair", a)
    [] ty = "interact" /\ name = "Exponential" /\ Len(a) = 2 /\ k[1] # "" /\ a[2] # "" -> Val("Exponential", <<k[1], a[2]>>)
    [] ty = "interact" /\ name = "LennardJones" /\ Len(a) = 1 /\ a[1] # ""    -> Val("LennardJones", a)
    [] ty = "interact" /\ name \in {"Coulomb2D", "Coulomb3D"} /\ Len(a) = 0   -> Val(name, <<>>)
    [] ty = "system" /\ name \in ShortNames.system /\ Len(a) = 0              -> Val(name, <<>>)
    [] ty = "system" /\ name = "" /\ Len(a) = 1 /\ k[1] # "" /\ ~zero[1]      -> Val("Cylindrical", k)
    [] ty = "bound" /\ name \in ShortNames.bound /\ Len(a) = 0                -> Val(name, <<>>)
    [] ty = "bound" /\ name = "" /\ Len(a) = 1 /\ k[1] # "" /\ ~zero[1]       -> Val("Mixed", k)
    [] OTHER -> Refused
(* long forms: words with holes <<i>> for the i-th number                         *)
Hole(i) == <<"#", i>>
IsHole(w) == w[1] = "#"
Word(s) == <<"w", s>>
Num(n) == <<"n", n>>
ShowBy(t, val) == [j \in 1..Len(t) |-> IF IsHole(t[j]) THEN Num(val.a[t[j][2]]) ELSE t[j]]
=============================================================================
