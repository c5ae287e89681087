---------------------------- MODULE TraceRequests ----------------------------
(* C31: requests made to real analysis objects (obj: what each was last asked    *)
(* for) and to the analysis of a real directory with some results in it.         *)
EXTENDS Requests, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, obj
vars == <<c, l, obj>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ obj = <<Fresh, Fresh, Fresh>>
Take(verdict, ask) == /\ E.ok \in verdict
                      /\ ~E.ok => E.same
                      /\ obj' = (IF E.ok THEN [obj EXCEPT ![E.i] = ask] ELSE obj)
SizeEv == E.op = "size" /\ Take({SizeOK(E.a[1], E.a[2], E.a[3], E.a[4])}, Asked("size", E.a))
NumEv == E.op = "num" /\ Take(NumVerdict(E.a[1], E.a[2], E.a[3]), Asked("num", E.a))
(* a number of bins turned into sizes: they fill the range                        *)
ConvEv == /\ E.op = "conv" /\ E.ok \in NumVerdict(E.a[1], E.a[2], E.a[3])
          /\ E.ok => E.fills
          /\ UNCHANGED obj
FreshEv == E.op = "fresh" /\ obj' = [obj EXCEPT ![E.i] = Fresh]
(* two objects asked for the same are the same, others are not; requests of       *)
(* different forms may coincide                                                    *)
EqEv == /\ E.op = "eq" /\ UNCHANGED obj
        /\ LET x == obj[E.i]
               y == obj[E.j]
           IN x.form = y.form => E.eq = (x = y)
(* an untouched analysis has seen nothing, and sees exactly what it is given       *)
EmptyEv == E.op = "empty" /\ E.rows = 0 /\ E.clear /\ UNCHANGED obj
SeenEv == E.op = "seen" /\ E.fin /\ E.rows = 1 /\ E.n = 1 /\ E.ens = 1 /\ E.mean /\ UNCHANGED obj
(* a refused analysis leaves the directory as it was, any other adds one directory *)
AnalyzeEv == /\ E.op = "analyze" /\ E.res # "panic" /\ (E.res = "ok") \in WordsVerdict(Case.cfg.kind, E.words)
             /\ E.touched = <<>> /\ Len(E.made) = (IF E.res = "ok" THEN 1 ELSE 0)
             /\ UNCHANGED obj
CountEv == E.op = "count" /\ E.res = "err" /\ E.touched = <<>> /\ E.made = <<>> /\ UNCHANGED obj
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (SizeEv \/ NumEv \/ ConvEv \/ FreshEv \/ EqEv \/ EmptyEv \/ SeenEv \/ AnalyzeEv \/ CountEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
