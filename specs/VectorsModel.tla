---------------------------- MODULE VectorsModel ----------------------------
(* Laws the operations obey, for all vectors of a small grid; a history of    *)
(* in-place operations is undone by its inverse.                              *)
EXTENDS Vectors, TLC
CONSTANTS M, Dim, Alias
VARIABLES a, b, log
vars == <<a, b, log>>
Vec == [1..Dim -> (-M)..M]
Init == a \in Vec /\ b \in Vec /\ log = <<>>
AddB == Len(log) < 3 /\ a' = VAdd(a, b) /\ log' = Append(log, "add") /\ b' = IF Alias THEN a' ELSE b
SubB == Len(log) < 3 /\ a' = VSub(a, b) /\ log' = Append(log, "sub") /\ UNCHANGED b
Neg == Len(log) < 3 /\ a' = VMul(a, -1) /\ log' = Append(log, "neg") /\ UNCHANGED b
Next == AddB \/ SubB \/ Neg
Spec == Init /\ [][Next]_vars
Inverse == VSub(VAdd(a, b), b) = a /\ VAdd(a, VMul(a, -1)) = VZero(Dim)
Symmetric == Dot(a, b) = Dot(b, a) /\ Taxi(a, b) = Taxi(b, a)
CauchySchwarz == Dot(a, b) * Dot(a, b) <= Norm2(a) * Norm2(b)
Metric == (Norm2(VSub(a, b)) = 0) <=> (a = b)
Polar == Norm2(VAdd(a, b)) = Norm2(a) + 2 * Dot(a, b) + Norm2(b)
OperandKept == [][b' = b]_vars
=============================================================================
