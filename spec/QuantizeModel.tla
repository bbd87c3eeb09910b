------------------------------ MODULE QuantizeModel -----------------------------
(* Quantization of a point with two coordinates, step by step, for every small
   mantissa and exponent and every grain: the smallest exponent in use, shifts with
   rounding, and at last the rational.  All are carried out by the real code.     *)
EXTENDS Floats, TLC, Naturals

CONSTANTS MaxM, Fine, MaxE
VARIABLES pc, in, den, out
vars == <<pc, in, den, out>>

MinE == 0 - Fine
Odd == { m \in (0 - MaxM)..MaxM : m % 2 = 1 }
Doubles == ({ <<0, 0>> } \cup (Odd \X (MinE..MaxE)))
Few == { d \in Doubles : d[1] \in {-1, 0, 3} }
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ pc = "start" /\ den = 0 /\ out = <<0, 0>>
        /\ in \in (Doubles \X Few \X ((MinE - 2)..(MaxE + 2)))
\* the unit of the result: not below the grain asked for, nor finer than needed
Choose == pc = "start" /\ pc' = "shift" /\ den' = Max(in[3], Min(0, Min(in[1][2], in[2][2]))) /\ UNCHANGED <<in, out>>
Shift(m, s) == IF s >= 0 THEN m * 2^s ELSE (m \div 2^(0 - s)) + ((m \div 2^(0 - s - 1)) % 2)
Round == pc = "shift" /\ pc' = "done" /\ out' = <<Shift(in[1][1], in[1][2] - den), Shift(in[2][1], in[2][2] - den)>> /\ UNCHANGED <<in, den>>
Next == Choose \/ Round \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Right == pc = "done" => \A i \in {1, 2} :
  Within(Rat(in[i]), Rat(<<out[i], den>>), 1, 2, in[3]) /\ den >= in[3]
Emit == pc # "done" \/ PrintT("RUN " \o ToString(in))
=================================================================================
