------------------------------ MODULE TextsModel ------------------------------
(* Design of reading texts back: every form is recognised by its first words and *)
(* its number of words and takes its numbers from the places of the holes.       *)
EXTENDS Texts, TLC
CONSTANTS Numbers, Shift
VARIABLES val, form, text, read
vars == <<val, form, text, read>>
W(s) == Word(s)
Forms == [
  Brownian    |-> <<W("Brownian"), W("with"), W("diffusion"), W("coefficient"), Hole(1)>>,
  Levy        |-> <<W("Levy"), W("walk")>>,
  Exponential |-> <<W("Exponential"), W("form"), W("in"), Hole(1), W("D"), W("length"), Hole(2)>>,
  Coulomb2D   |-> <<W("Coulomb"), W("potential"), W("in"), W("2"), W("D")>>,
  Coulomb3D   |-> <<W("Coulomb"), W("potential"), W("in"), W("3"), W("D")>>,
  Stages      |-> <<W("Exponential"), W("time"), W("from"), Hole(1), W("to"), Hole(2), W("every"), Hole(3), W("step")>> ]
Args == [Brownian |-> 1, Levy |-> 0, Exponential |-> 2, Coulomb2D |-> 0, Coulomb3D |-> 0, Stages |-> 3]
Place(f, i) == LET t == Forms[f] IN CHOOSE j \in 1..Len(t) : t[j] = Hole(i)
Fits(f, tx) == Len(tx) = Len(Forms[f]) /\ \A j \in 1..Len(tx) : IF IsHole(Forms[f][j]) THEN TRUE ELSE tx[j] = Forms[f][j]
Take(f, tx) ==
  LET at(i) == Place(f, i) + (IF Shift /\ i = Args[f] THEN -1 ELSE 0) IN
  IF \A i \in 1..Args[f] : tx[at(i)][1] = "n" THEN Val(f, [i \in 1..Args[f] |-> tx[at(i)][2]]) ELSE Refused
Read(tx) == LET S == {f \in DOMAIN Forms : Fits(f, tx)} IN IF S = {} THEN Refused ELSE Take(CHOOSE f \in S : TRUE, tx)
Init == /\ form \in DOMAIN Forms
        /\ val \in {Val(form, a) : a \in [1..Args[form] -> Numbers]}
        /\ text = ShowBy(Forms[form], val) /\ read = Read(text)
(* a text may lose its tail, or a number may be replaced by a word *)
Cut == /\ Len(text) > 0 /\ text' = SubSeq(text, 1, Len(text) - 1) /\ read' = Read(text') /\ UNCHANGED <<val, form>>
Spoil == \E j \in 1..Len(text) : text[j][1] = "n" /\ text' = [text EXCEPT ![j] = W("junk")] /\ read' = Read(text') /\ UNCHANGED <<val, form>>
Next == Cut \/ Spoil
Spec == Init /\ [][Next]_vars
Whole == text = ShowBy(Forms[form], val)
RoundTrip == Whole => read = val
(* whatever is accepted is what the text says *)
Faithful == read # Refused => text = ShowBy(Forms[read.v], read)
Unambiguous == \A f, g \in DOMAIN Forms : f # g => ~(Fits(f, text) /\ Fits(g, text))
=============================================================================
