------------------------------ MODULE TraceHelp ------------------------------
(* C29: the help of every component and analysis, and which field each word sets. *)
EXTENDS Help, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, named
vars == <<c, l, named>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ named = <<>>
HelpEv ==
  /\ E.op = "help"
  /\ E.brief = Named(E.comp) /\ E.info = Named(E.comp) /\ E.nargs = Words(E.comp)
  /\ E.described /\ E.only
  /\ \A i \in 1..Len(E.info) : E.col[i] = Column(E.width, E.len[i])
  /\ named' = E.brief
(* changing the i-th word changes the field named i-th and no other *)
ProbeEv ==
  /\ E.op = "probe" /\ E.ok
  /\ LET f == Schema(Case.cfg.comp) IN
     /\ Len(E.before) = Len(f) /\ Len(E.after) = Len(f)
     /\ \A k \in 1..Len(f) : E.after[k] = (IF f[k].label = named[E.at] THEN E.val ELSE E.before[k])
  /\ UNCHANGED named
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (HelpEv \/ ProbeEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
