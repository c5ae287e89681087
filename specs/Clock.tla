------------------------------- MODULE Clock -------------------------------
(* Contract of the time schemes.  A clock is a record                        *)
(*   cur   time that the next emission carries                               *)
(*   d     step in force          n      emissions made in this stage        *)
(*   dmin, dmax, len              the declared schedule (len = 0: constant)  *)
(*   num/den                      growth factor                              *)
(*   tmax                         0: unlimited                               *)
EXTENDS Integers
Min2(a, b) == IF a < b THEN a ELSE b
(* the step with which the next emission is made *)
StepOf(k) == IF k.len > 0 /\ k.d < k.dmax /\ k.n = k.len
             THEN Min2((k.d * k.num) \div k.den, k.dmax) ELSE k.d
StageOf(k) == IF k.len > 0 /\ k.d < k.dmax /\ k.n = k.len THEN 1
              ELSE IF k.d < k.dmax \/ k.len = 0 THEN Min2(k.n + 1, k.len + 1) ELSE k.n
CanEmit(k) == k.tmax = 0 \/ k.cur <= k.tmax
EmitOf(k) == [k EXCEPT !.d = StepOf(k), !.n = StageOf(k), !.cur = @ + StepOf(k)]
RenewOf(k) == [k EXCEPT !.cur = 0, !.d = k.dmin, !.n = 0]
(* a factor larger than the stage can carry is limited: to len/2, or 1.2 for short stages *)
LimitNum(len, num, den) == IF len <= 2 THEN IF num * 5 <= 6 * den THEN num ELSE 6
                           ELSE IF 2 * num > len * den THEN len ELSE num
LimitDen(len, num, den) == IF len <= 2 THEN IF num * 5 <= 6 * den THEN den ELSE 5
                           ELSE IF 2 * num > len * den THEN 2 ELSE den
ValidInc(num, den) == num > den
(* schedules that can advance time as declared *)
Growing(k) == k.num > k.den
Usable(dmin, dmax) == dmin > 0 /\ dmin <= dmax
=============================================================================
