---------------------------- MODULE RequestsModel ----------------------------
(* An analysis object asked again and again, and a directory analysed by it.     *)
(* Half: a refused request has already changed the range.                        *)
EXTENDS Requests
CONSTANTS Times, Bins, Ratios, Nums, MaxDirs, Half
VARIABLES obj, dirs, refused, hist
vars == <<obj, dirs, refused, hist>>
Init == obj = Fresh /\ dirs = 0 /\ refused = FALSE /\ hist = [obj |-> Fresh, dirs |-> 0]
Take(ok, ask) == /\ obj' = (IF ok \/ Half THEN ask ELSE obj) /\ refused' = ~ok
                 /\ hist' = [obj |-> obj, dirs |-> dirs] /\ UNCHANGED dirs
BySize == \E a, b \in Times \cup {-1}, w \in Bins \cup {-1}, q \in Ratios : Take(SizeOK(a, b, w, q), Asked("size", <<a, b, w, q>>))
ByNum == \E a, b \in Times \cup {-1}, n \in Nums : \E ok \in NumVerdict(a, b, n) : Take(ok, Asked("num", <<a, b, n>>))
Word == {[r |-> FALSE, q |-> 0, u |-> FALSE, n |-> 0]}
        \cup {[r |-> TRUE, q |-> t, u |-> FALSE, n |-> 0] : t \in Times \cup {-1}}
        \cup {[r |-> TRUE, q |-> 4 * n, u |-> TRUE, n |-> n] : n \in Nums}
Analyze == \E ws \in [1..3 -> Word] \cup {<<>>} : \E ok \in WordsVerdict("time", ws) :
             /\ dirs < MaxDirs /\ dirs' = (IF ok THEN dirs + 1 ELSE dirs) /\ refused' = ~ok
             /\ hist' = [obj |-> obj, dirs |-> dirs] /\ UNCHANGED obj
Next == BySize \/ ByNum \/ Analyze
Spec == Init /\ [][Next]_vars
Usable == CASE obj.form = "default" -> TRUE
            [] obj.form = "size" -> SizeOK(obj.a[1], obj.a[2], obj.a[3], obj.a[4])
            [] OTHER -> obj.a[1] >= 0 /\ obj.a[2] > obj.a[1] /\ obj.a[3] > 0
Untouched == refused => obj = hist.obj /\ dirs = hist.dirs
=============================================================================
