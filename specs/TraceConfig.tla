---------------------------- MODULE TraceConfig ----------------------------
(* C22: one requested configuration, built along every way, then changed.     *)
EXTENDS Config, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* obj: what the ways so far gave ("" nothing); lim: limit of the direct object *)
VARIABLES c, l, obj, lim
vars == <<c, l, obj, lim>>
Case == Trace[c]
G == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
IsClock == G.kind \in {"Const", "ExpStep"}
Init == c \in 1..Len(Trace) /\ l = 1 /\ obj = "" /\ lim = NoLimit
(* the constructors of systems and the conversions refuse by a panic, as they  *)
(* return no result                                                            *)
Refused == {"err", "panic"}
MakeSystem ==
  /\ E.op = "make" /\ ~IsClock
  /\ IF (IF G.kind = "Inter" THEN InterUsable(G) ELSE SystemUsable(G)) THEN E.res = "ok" ELSE E.res \in Refused
  /\ IF E.res = "ok" THEN (obj = "" \/ obj = E.obj) /\ obj' = E.obj ELSE UNCHANGED obj
  /\ UNCHANGED lim
(* what a way of building a clock must do: "ok", "err" or either               *)
Shape(least) == IF G.kind = "Const" THEN "ok"
         ELSE IF G.dtmax < G.dt \/ G.dtmax = NaN \/ G.length = 0 THEN "err"
         ELSE IF G.length < least THEN "either" ELSE "ok"
StepVerdict == IF StepUsable(G.dt) THEN "ok" ELSE IF StepFree(G.dt) THEN "either" ELSE "err"
LimVerdict == IF LimitValid(G.tmax) THEN "ok" ELSE "err"
Verdict == LET v == IF E.path = "new" THEN {StepVerdict, Shape(1)} ELSE {StepVerdict, Shape(10), LimVerdict}
           IN IF "err" \in v THEN {"err"} ELSE IF "either" \in v THEN {"ok", "err"} ELSE {"ok"}
MakeClock == E.op = "make" /\ IsClock
             /\ (IF E.res = "panic" /\ E.path # "new" THEN "err" ELSE E.res) \in Verdict /\ lim' = NoLimit /\ UNCHANGED obj
TmaxEv == /\ E.op = "tmax"
          /\ IF LimitValid(E.v) THEN E.res = "ok" /\ E.now \in LimitOf(E.v)
             ELSE E.res = "err" /\ E.same /\ E.now = lim
          /\ lim' = E.now /\ UNCHANGED obj
IncEv == /\ E.op = "inc" /\ E.gt1
         /\ IF E.valid THEN E.res = "ok" /\ E.cap ELSE E.res = "err" /\ E.same
         /\ UNCHANGED <<obj, lim>>
ClockEv == /\ E.op = "clock" /\ E.dt = G.dt /\ E.dtf = G.dt /\ E.zero /\ E.gt1
           /\ E.tmax \in LimitOf(E.asked) /\ UNCHANGED <<obj, lim>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (MakeSystem \/ MakeClock \/ TmaxEv \/ IncEv \/ ClockEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
