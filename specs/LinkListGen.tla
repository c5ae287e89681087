----------------------------- MODULE LinkListGen -----------------------------
(* Behaviours of LinkListImpl, printed for replay into the real list.        *)
EXTENDS LinkListImpl, Json, TLC
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<out>>
GNext == Next /\ hist' = Append(hist, out')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
