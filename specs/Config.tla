------------------------------- MODULE Config -------------------------------
(* Which configurations are usable. Real values are given by their rank in a  *)
(* fixed ascending table: 0=-inf 1=-1e300 2=-1 3=-1e-15 4=-5e-324 5=0         *)
(* 6=1e-300 7=1e-16 8=1e-15 9=1e-3 10=1 11=2 12=10 13=1e300; 14: no number;   *)
(* 99: no limit.                                                              *)
EXTENDS Naturals, Integers
Zero == 5
Least == 8          \* the least step with which time advances
NoLimit == 99
NaN == 14
Positive(r) == r > Zero /\ r # NaN
SystemUsable(g) ==
  /\ g.dim > 0 /\ Positive(g.size)
  /\ g.kind = "Cyl" => Positive(g.len)
  /\ g.bc = "M" => g.k <= g.dim
  /\ g.kind # "CylWrong"
(* an interacting agent takes its own kind of interaction only; an exponential *)
(* one is declared for the dimension idim of its place (pdim)                  *)
InterUsable(g) == g.int = g.agent /\ (g.agent = "exp" => g.idim = g.pdim)
(* steps between zero and Least may be refused or taken                        *)
StepUsable(r) == r >= Least /\ r # NaN
StepFree(r) == r > Zero /\ r < Least
LimitValid(r) == r >= Zero /\ r # NaN
LimitOf(r) == IF r = Zero THEN {NoLimit} ELSE IF r < Least THEN {r, NoLimit} ELSE {r}
=============================================================================
