------------------------------- MODULE SourceMC --------------------------------
(* Every configuration's schedule, and the rules themselves on integer grids.   *)
EXTENDS SourceModel
CONSTANTS Grid
VARIABLE g
avars == <<cfg, pc, ver, iter, g>>
Cfgs == {c \in [fam : Fams, part : {0, 1}, alg : {"MM", "ME"}, p2 : 1..4, b10 : {5, 10, 19}, norm : {0, 1}, sp : {"IP1", "ISS1", "IPA"}, k : {1, 2}] : Valid(c)}
G == 1..Grid
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Pts == G \X G \X G \X G
AInit == MInit(Cfgs) /\ g = <<>>
CSpec == AInit /\ [][MStep /\ UNCHANGED g]_avars

(* one grid point per state *)
AInit2 == /\ cfg = [fam |-> "gauss", part |-> 0, alg |-> "MM", p2 |-> 4, b10 |-> 10, norm |-> 0, sp |-> "IP1", k |-> 2]
          /\ pc = 1 /\ iter = 0 /\ ver = [p \in Params |-> 0] /\ g \in Pts
ASpec == AInit2 /\ [][FALSE]_avars
(* 1 / (a + b) is touched at (c, d) and majorized by the convexity bound         *)
(*   1/(a+b) <= (c/(c+d))^2 / a + (d/(c+d))^2 / b                                *)
Jensen == LET a == g[1] b == g[2] c == g[3] d == g[4] IN
          /\ (c + d) * (c + d) * a * b <= (a + b) * (c * c * b + d * d * a)
          /\ (a * d = b * c) => (c + d) * (c + d) * a * b = (a + b) * (c * c * b + d * d * a)
(* the same with the power s = 2/p (s = 1, 2, 4): 1/(a+b)^s                       *)
JensenPow == LET a == g[1] b == g[2] c == g[3] d == g[4] IN
             \A s \in {1, 2} :
               /\ Pow(c + d, s + 1) * Pow(a, s) * Pow(b, s) <= Pow(a + b, s) * (Pow(c, s + 1) * Pow(b, s) + Pow(d, s + 1) * Pow(a, s))
               /\ (a * d = b * c) => Pow(c + d, s + 1) * Pow(a, s) * Pow(b, s) = Pow(a + b, s) * (Pow(c, s + 1) * Pow(b, s) + Pow(d, s + 1) * Pow(a, s))
(* majorizer of one factor t anchored at o, with num/denom = (m/o)^(s+1):         *)
(*   h(t) = m^(s+1) / t^s + s t   is smallest at t = m = o (num/denom)^(1/(s+1))   *)
Minimizer == LET t == g[1] m == g[2] IN
             \A s \in {1, 2, 4} : Pow(m, s + 1) + s * Pow(t, s + 1) >= (s + 1) * m * Pow(t, s)
(* exponent one (s = 1): the majorizer takes again the value of its anchor        *)
(*   h(o) = n/o... with num/denom = n/d: h(t) = n o o / t + d t, t = o n / d      *)
EqualizeM == LET o == g[1] n == g[2] d == g[3] IN
             (* h(o n / d) = n o o d / (o n) + d o n / d = o d + o n = h(o) *)
             (n * o * o * d) * 1 + o * n * (o * n) = o * n * (o * d + o * n)
(* and the minimizer, the square root, is never above it *)
BetweenMM == LET o == g[1] m == g[2] IN  (* num/denom = (m/o)^2 *) 2 * m * o <= m * m + o * o
(* Riccati equation of the covariance blocks, scalar case: h p h = q is the minimizer of p h + q / h *)
Riccati == LET h == g[1] r == g[2] p == g[3] IN  (* q = p r r: smallest at h = r *) p * h * h + p * r * r >= 2 * p * r * h
Arithmetic == Jensen /\ JensenPow /\ Minimizer /\ EqualizeM /\ BetweenMM /\ Riccati
================================================================================
