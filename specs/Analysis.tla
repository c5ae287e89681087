------------------------------ MODULE Analysis ------------------------------
(* What an analysis states about pooled samples. Times and values are counted *)
(* in quarters; bins are half open, the last one of a given number of bins is *)
(* closed. g: the settings                                                    *)
(*   min, max      the range                                                  *)
(*   bn/bd         width of the linear bins, n: their number (0: as needed)   *)
(*   edges, mids   edges and centres of the logarithmic bins, in 1/1000       *)
(*   xq, xl        the edges are hit exactly in floating point arithmetic     *)
(* A sample is a pair <<x, e>>: x, moved by e units in the last place.        *)
EXTENDS Vectors, FiniteSets, TLC
In(g, s) == ~(s[1] < g.min \/ (s[1] = g.min /\ s[2] < 0) \/ s[1] > g.max \/ (s[1] = g.max /\ s[2] > 0))
Cap(g, K) == IF g.n = 0 THEN K ELSE {IF k > g.n - 1 THEN g.n - 1 ELSE k : k \in K}
LinMay(g, x, e) == LET q == (x - g.min) * g.bd
                    k == q \div g.bn
                IN Cap(g, IF q % g.bn = 0 /\ (~g.xq \/ e < 0) /\ k > 0 THEN {k - 1, k} ELSE {k})
LogMay(g, x, e) == LET X == 1000 * x
                    K == {k \in 0..(Len(g.edges) - 2) :
                            IF g.xl /\ e >= 0 THEN g.edges[k + 1] <= X /\ X < g.edges[k + 2]
                            ELSE g.edges[k + 1] - 2 <= X /\ X <= g.edges[k + 2] + 2}
                IN Cap(g, K)
May(g, log, s) == IF ~In(g, s) THEN {} ELSE IF log THEN LogMay(g, s[1], s[2]) ELSE LinMay(g, s[1], s[2])
(* ms: the possible bins of every sample                                       *)
Mays(g, log, S) == [i \in 1..Len(S) |-> May(g, log, S[i])]
Least(ms, k) == Cardinality({i \in 1..Len(ms) : ms[i] = {k}})
Most(ms, k) == Cardinality({i \in 1..Len(ms) : k \in ms[i]})
Counted(ms) == Cardinality({i \in 1..Len(ms) : ms[i] # {}})
LinCentre(g, k, c) == Abs1(2 * g.bd * c - 1000 * (2 * g.bd * g.min + (2 * k + 1) * g.bn)) <= 4 * g.bd
LogCentre(g, k, c) == Abs1(c - g.mids[k + 1]) <= 2 + g.mids[k + 1] \div 100000
LinBin(g, c) == LET k == TLCEval(((c - 1000 * g.min) * g.bd) \div (1000 * g.bn))
                IN IF c > 1000 * g.min - 10 /\ k >= 0 /\ LinCentre(g, k, c) THEN k ELSE -1
LogBin(g, c) == LET K == TLCEval({k \in 0..(Len(g.mids) - 1) : LogCentre(g, k, c)})
                IN IF K = {} THEN -1 ELSE CHOOSE k \in K : TRUE
BinOf(g, log, c) == IF log THEN LogBin(g, c) ELSE LinBin(g, c)
RECURSIVE SumSeq(_, _)
SumSeq(S, n) == IF n = 0 THEN 0 ELSE SumSeq(S, n - 1) + S[n]
Sum(S) == SumSeq(S, Len(S))
RECURSIVE SqSeq(_, _)
SqSeq(S, n) == IF n = 0 THEN 0 ELSE SqSeq(S, n - 1) + S[n] * S[n]
(* m: a mean in 1/1024 quarter; w: count * deviation, in 1/64 quarter           *)
Sane(m) == m < 2000000000 /\ m > -2000000000
MeanIs(m, S) == Sane(m) /\ Len(S) > 0 /\ Abs1(m) < 20000000 /\ Abs1(m * Len(S) - 1024 * Sum(S)) <= Len(S)
Spread(S) == Len(S) * SqSeq(S, Len(S)) - Sum(S) * Sum(S)
DevIs(w, S) == LET V == Spread(S) IN
  /\ Sane(w) /\ w >= 0
  /\ IF V <= 500000 THEN w < 46000 /\ LengthIs(w, V)
     ELSE LET u == w \div 64 IN u < 46000 /\ (u - 1) * (u - 1) <= V /\ V <= (u + 2) * (u + 2)
(* exported histogram of the samples vs[j] of each variable j                   *)
(* row: c centre, n counts, d densities in 1e-5, per variable                   *)
DensityOK(g, log, k, ens, n, d) ==
  Sane(d) /\ d >= 0 /\
  IF log THEN LET w == g.edges[k + 2] - g.edges[k + 1]
                  a == 100000000 \div w
              IN w < 100 \/ d > 20000000 \/ Abs1(d * ens - n * 4 * a) <= ens + 8 * n + (8 * n * a) \div w
  ELSE d > 20000000 \/ Abs1(d * ens * g.bn - n * 4 * g.bd * 100000) <= ens * g.bn
HistIs(g, log, rows, mss, ens, dens) ==
  LET ks == TLCEval([r \in 1..Len(rows) |-> IF Sane(rows[r].c) THEN BinOf(g, log, rows[r].c) ELSE -1]) IN
  /\ \A r \in 1..Len(rows) : ks[r] >= 0
  /\ \A r, s \in 1..Len(rows) : ks[r] = ks[s] => r = s
  /\ \A j \in 1..Len(mss) :
       LET ms == mss[j] IN
       /\ \A r \in 1..Len(rows) :
            /\ Len(rows[r].n) = Len(mss)
            /\ Least(ms, ks[r]) <= rows[r].n[j] /\ rows[r].n[j] <= Most(ms, ks[r])
            /\ dens => DensityOK(g, log, ks[r], ens, rows[r].n[j], rows[r].d[j])
       /\ Sum([r \in 1..Len(rows) |-> rows[r].n[j]]) = Counted(ms)
       /\ \A i \in 1..Len(ms) : \A k \in ms[i] : Cardinality(ms[i]) = 1 => \E r \in 1..Len(rows) : ks[r] = k
(* values of a process by bin: only where every point surely belongs to its bin  *)
RECURSIVE Pick(_, _, _, _)
Pick(ms, vals, k, n) == IF n = 0 THEN <<>> ELSE Pick(ms, vals, k, n - 1) \o (IF ms[n] = {k} THEN <<vals[n]>> ELSE <<>>)
BinStats(g, log, rows, ms, vals) ==
  \A r \in 1..Len(rows) :
    LET k == TLCEval(BinOf(g, log, rows[r].c))
        P == TLCEval(Pick(ms, vals, k, Len(vals)))
    IN (Least(ms, k) = Most(ms, k)) => MeanIs(rows[r].m, P) /\ DevIs(rows[r].s, P)
(* ens: the pooled ensembles, each a sequence of samples (one per variable), or  *)
(* of points <<t, v>> of a process                                               *)
RECURSIVE Flat(_, _)
Flat(ens, n) == IF n = 0 THEN <<>> ELSE Flat(ens, n - 1) \o ens[n]
Points(ens) == Flat(ens, Len(ens))
Var(ens, j) == [i \in 1..Len(ens) |-> ens[i][j]]
Firsts(S) == [i \in 1..Len(S) |-> S[i][1]]
SummaryHolds(g, row, ens) ==
  /\ row.ens = Len(ens)
  /\ IF g.kind = "proc"
     THEN LET P == TLCEval(Points(ens))
              V == TLCEval([i \in 1..Len(P) |-> P[i][2]]) IN MeanIs(row.mean[1], V) /\ DevIs(row.sd[1], V)
     ELSE /\ Len(row.mean) = g.nv /\ Len(row.sd) = g.nv
          /\ \A j \in 1..g.nv : LET V == TLCEval(Firsts(TLCEval(Var(ens, j)))) IN MeanIs(row.mean[j], V) /\ DevIs(row.sd[j], V)
DistHolds(g, log, rows, ens, counts, stats) ==
  IF g.kind = "proc"
  THEN LET P == TLCEval(Points(ens))
           ms == TLCEval(Mays(g, log, [i \in 1..Len(P) |-> <<P[i][1], 0>>]))
       IN /\ counts => HistIs(g, log, rows, <<ms>>, Len(ens), FALSE)
          /\ stats => BinStats(g, log, rows, ms, [i \in 1..Len(P) |-> P[i][2]])
  ELSE counts => HistIs(g, log, rows, TLCEval([j \in 1..g.nv |-> TLCEval(Mays(g, log, TLCEval(Var(ens, j))))]), Len(ens), TRUE)
(* the same data g.times times: so many more ensembles and counts, nothing else    *)
Thin(g, n) == IF n % g.times = 0 THEN n \div g.times ELSE -3
ThinRow(g, row) == [row EXCEPT !.ens = Thin(g, @)]
ThinRows(g, rows) == [r \in 1..Len(rows) |-> [rows[r] EXCEPT !.n = [j \in 1..Len(@) |-> IF Sane(@[j]) THEN Thin(g, @[j]) ELSE @[j]]]]
(* compared with TRUE: TLC then evaluates them as values, not as actions          *)
SummaryIs(g, row, ens) == SummaryHolds(g, ThinRow(g, row), ens) = TRUE
CountsAre(g, log, rows, ens) == DistHolds(g, log, TLCEval(ThinRows(g, rows)), ens, TRUE, FALSE) = TRUE
StatsAre(g, log, rows, ens) == DistHolds(g, log, TLCEval(ThinRows(g, rows)), ens, FALSE, TRUE) = TRUE
=============================================================================
