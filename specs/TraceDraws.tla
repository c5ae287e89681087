----------------------------- MODULE TraceDraws -----------------------------
(* C19: what a generator yields is a function of its seed and of what was      *)
(* drawn from it before - whichever variant draws, whatever other generators   *)
(* do in between.  tape: everything learned so far, keyed by (seed, draws made *)
(* before, kind of draw).                                                      *)
EXTENDS Vectors, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, hist, tape
vars == <<c, l, hist, tape>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Gens == 1..Len(Case.cfg.seeds)
Seed(g) == Case.cfg.seeds[g]
Init == c \in 1..Len(Trace) /\ l = 1 /\ hist = [g \in 1..Len(Trace[c].cfg.seeds) |-> <<>>] /\ tape = {}
(* res = base + off + sc * value, in millionths *)
Rest(i) == E.res[i] - 1000000 * (E.base[i] + E.off)
Agrees(val) == Len(val) = Len(E.res) /\ \A i \in 1..Len(val) : Abs1(Rest(i) - E.sc * val[i]) <= 2 + 2 * E.sc
Learn == [i \in 1..Len(E.res) |-> Rest(i) \div E.sc]
Draw ==
  /\ E.op = "draw" /\ E.ok /\ E.range
  /\ LET known == {t \in tape : t.seed = Seed(E.g) /\ t.hist = hist[E.g] /\ t.kind = E.kind} IN
     /\ \A t \in known : Agrees(t.val)
     /\ E.sc = 0 => \A i \in 1..Len(E.res) : Abs1(Rest(i)) <= 2
     /\ tape' = IF known = {} /\ E.sc > 0 THEN tape \cup {[seed |-> Seed(E.g), hist |-> hist[E.g], kind |-> E.kind, val |-> Learn]} ELSE tape
  /\ hist' = [hist EXCEPT ![E.g] = Append(@, E.kind)]
(* exactly the same numbers, bit by bit, where the same variant drew *)
Twin == E.op = "twin" /\ E.equal /\ UNCHANGED <<hist, tape>>
(* different seeds: the sequences start differently *)
Start == /\ E.op = "start"
         /\ \A i, j \in 1..Len(E.first) : i # j => (E.first[i] = E.first[j]) = (E.seeds[i] = E.seeds[j])
         /\ UNCHANGED <<hist, tape>>
(* thousands of draws by one generator, then the same by another: stretch by *)
(* stretch the same numbers where the seeds are the same                     *)
Long == /\ E.op = "long"
        /\ Len(E.first) = (E.count + 63) \div 64 /\ Len(E.second) = Len(E.first)
        /\ Seed(E.a) = Seed(E.b) => E.first = E.second
        /\ UNCHANGED <<hist, tape>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (Draw \/ Twin \/ Start \/ Long)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
