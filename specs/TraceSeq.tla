------------------------------- MODULE TraceSeq -------------------------------
(* C30: histories of one real position x and a copy y. *)
EXTENDS Sequence, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, x, y
vars == <<c, l, x, y>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ x = Trace[c].cfg.x /\ y = Trace[c].cfg.x
Becomes(v) == E.x2 = v /\ x' = v /\ UNCHANGED y
Same == UNCHANGED <<x, y>>
PushEv == E.op = "push" /\ Becomes(Append(x, E.y))
ExtendEv == E.op = "extend" /\ Becomes(x \o E.y)
AtEv == E.op = "at" /\ E.got = x[E.i] /\ Same
PutEv == E.op = "put" /\ Becomes(Put(x, E.i, E.y))
RangesEv == E.op = "ranges" /\ E.mid = Range0(x, E.a, E.b) /\ E.to = Range0(x, 0, E.b) /\ E.from = Range0(x, E.a, Len(x)) /\ Same
BeyondEv == E.op = "beyond" /\ E.refused /\ Same
AllEv == E.op = "all" /\ E.dim = Len(x) /\ E.iter = x /\ E.into = x /\ E.mutable = x /\ E.field = x /\ Same
ShiftEv == E.op = "shift" /\ Becomes(Shift(x, E.y))
EndsEv == E.op = "ends" /\ E.some = (Len(x) > 0) /\ E.two = (Len(x) > 1)
          /\ (E.some => E.first = x[1]) /\ (E.two => E.last = x[Len(x)]) /\ Same
ClearEv == E.op = "clear" /\ Becomes(Zeros(x))
CopyEv == E.op = "copy" /\ E.y2 = x /\ y' = x /\ UNCHANGED x
SwapEv == E.op = "swap" /\ E.x2 = y /\ E.y2 = x /\ x' = y /\ y' = x
EqEv == E.op = "eq" /\ E.eq = (x = y) /\ E.ne = (x # y) /\ E.qe = (x = y) /\ E.own /\ Same
TextEv == E.op = "text" /\ E.words = x /\ E.plain /\ Same
ExpEv == /\ E.op = "exp" /\ E.words = x /\ E.form /\ Same
         (* two decimals when asked for: d.dd *)
         /\ (Len(x) > 0 => E.digits = [i \in 1..Len(x) |-> 4])
AgainEv == E.op = "again" /\ E.ok = (Len(x) > 0) /\ E.got = x /\ Same
ListEv == /\ E.op = "list" /\ Same
          /\ LET o == Live(Len(E.vs), {E.dead[i] : i \in 1..Len(E.dead)}) IN
             E.order = o /\ E.now = [i \in 1..Len(o) |-> Zeros(E.vs[o[i]])]
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c
     /\ (PushEv \/ ExtendEv \/ AtEv \/ PutEv \/ RangesEv \/ BeyondEv \/ AllEv \/ ShiftEv \/ EndsEv \/ ClearEv
         \/ CopyEv \/ SwapEv \/ EqEv \/ TextEv \/ ExpEv \/ AgainEv \/ ListEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
