----------------------------- MODULE EstimatorModel -----------------------------
(* An estimator which remembers the bit length of the last count it saw, and may
   reuse it when it still fits.  Its answers must be close to m log n, and be those
   of an estimator which remembers nothing.  Every call out of every state is
   printed and carried out.                                                       *)
EXTENDS Estimates, Naturals, Sequences, TLC

CONSTANT MaxN
VARIABLES bits, hist, ans
vars == <<bits, hist, ans>>
View == bits

Bits(n) == CHOOSE k \in 0..30 : 2^k <= n /\ n < 2^(k + 1)
Value(m, n, k) == IF n = 0 THEN 0 ELSE (m * n) \div 2^k + (IF k = 0 THEN 0 ELSE m * (k - 1)) - (IF k = 0 THEN m ELSE 0)

Init == bits = 0 /\ hist = << >> /\ ans = <<0, 0, 0>>
Call(m, n) ==
  /\ bits' = IF n = 0 \/ n \div 2^bits = 1 THEN bits ELSE Bits(n)
  /\ ans' = <<m, n, Value(m, n, bits')>>
  /\ hist' = Append(hist, <<m, n>>)
Next == \E n \in 0..MaxN : \E m \in 0..(4 * n) : Call(m, n)
Spec == Init /\ [][Next]_vars

\* (as an action constraint, to see every step and not every new state only)
Right == Assert(/\ Close(ans'[3], ans'[1], ans'[2])
                /\ ans'[3] = Value(ans'[1], ans'[2], IF ans'[2] = 0 THEN 0 ELSE Bits(ans'[2])), ans')
Emit == Right /\ PrintT("RUN " \o ToString(hist'))
=================================================================================
