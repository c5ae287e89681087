----------------------------- MODULE DrawsModel -----------------------------
(* Generators as streams.  Several generators, some with equal seeds, are      *)
(* drawn from in every interleaving, through allocating and in-place variants. *)
(* With Cache = TRUE normal draws keep a spare value in a place shared by all  *)
(* generators: the observable behaviour is then no function of the generator.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Gens, SeedOf, MaxDraws, Cache
VARIABLES pos, hist, out, spare
vars == <<pos, hist, out, spare>>
Value(seed, n) == 100 * seed + n
Init == /\ pos = [g \in Gens |-> 0] /\ hist = [g \in Gens |-> <<>>] /\ out = [g \in Gens |-> <<>>] /\ spare = 0
Uniform(g) == /\ out' = [out EXCEPT ![g] = Append(@, Value(SeedOf[g], pos[g]))]
              /\ pos' = [pos EXCEPT ![g] = @ + 1] /\ hist' = [hist EXCEPT ![g] = Append(@, "u")] /\ UNCHANGED spare
Normal(g) == /\ hist' = [hist EXCEPT ![g] = Append(@, "n")]
             /\ IF Cache /\ spare # 0
                THEN out' = [out EXCEPT ![g] = Append(@, spare)] /\ spare' = 0 /\ UNCHANGED pos
                ELSE /\ out' = [out EXCEPT ![g] = Append(@, Value(SeedOf[g], pos[g]))]
                     /\ pos' = [pos EXCEPT ![g] = @ + 2]
                     /\ spare' = IF Cache THEN Value(SeedOf[g], pos[g] + 1) ELSE 0
(* a vector is drawn coordinate after coordinate, into new memory or a given vector *)
Next == \E g \in Gens : Len(hist[g]) < MaxDraws /\ (Uniform(g) \/ Normal(g))
Spec == Init /\ [][Next]_vars
Prefix(h, k) == h = k
Determined == \A g, h \in Gens : (SeedOf[g] = SeedOf[h] /\ hist[g] = hist[h]) => out[g] = out[h]
Apart == \A g, h \in Gens : (SeedOf[g] # SeedOf[h] /\ Len(out[g]) > 0 /\ Len(out[h]) > 0) => out[g] # out[h]
Seeds3 == <<1, 1, 2>>
=============================================================================
