---------------------------- MODULE TraceObjects ----------------------------
(* C24: objects made from read arguments carry exactly those arguments, and   *)
(* the agents of one declaration share nothing.                               *)
EXTENDS Naturals, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, fulls
vars == <<c, l, fulls>>
Case == Trace[c]
G == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ fulls = <<>>
Declared(o) ==
  /\ o.mtype = G.mtype /\ o.extra = G.extra
  /\ IF G.uniform THEN o.dim \in {0, G.d} ELSE o.dim = G.d /\ o.pos = G.pos
AgentsEv ==
  /\ E.op = "agents" /\ Len(E.objs) = G.n
  /\ \A k \in 1..G.n : Declared(E.objs[k])
  /\ \A k \in 1..G.n : E.objs[k].full = E.objs[1].full
  /\ fulls' = [k \in 1..G.n |-> E.objs[k].full]
DirectEv == /\ E.op = "direct" /\ Declared(E.obj)
            /\ \A k \in 1..Len(fulls) : fulls[k] = E.obj.full
            /\ UNCHANGED fulls
PokeEv == /\ E.op = "poke" /\ Len(E.fulls) = Len(fulls)
          /\ \A j \in 1..Len(fulls) : j # E.k => E.fulls[j] = fulls[j]
          /\ fulls' = E.fulls
CarryEv == E.op = "carry" /\ E.got = E.want /\ UNCHANGED fulls
TwinsEv == E.op = "twins" /\ E.eq /\ E.a = E.b /\ UNCHANGED fulls
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (AgentsEv \/ DirectEv \/ PokeEv \/ CarryEv \/ TwinsEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
