------------------------------ MODULE MCSpectrum ------------------------------
(***************************************************************************)
(* The spectrum has the shape the code of practice draws: continuous at    *)
(* 0.1 s, tg and 5 tg, rising to the plateau, highest on it, falling from  *)
(* tg on, positive up to 6 s, one on the plateau at 5 % damping, lower the *)
(* greater the damping.  For every damping and period of a grid.           *)
(***************************************************************************)
EXTENDS HSSpectrum, IOUtils

STEP == CHOOSE n \in 1..200 : ToString(n) = IOEnv.STEP
VARIABLES x, tg
Dampings == {5, 10, 20, 30, 35, 40, 45, 50, 55, 60, 80, 100, 150, 200, 300}
Init == x \in Dampings /\ tg \in {150, 200, 250, 350, 400, 450, 550, 650, 750, 900}
Next == UNCHANGED <<x, tg>>
Spec == Init /\ [][Next]_<<x, tg>>

Near(a, b, e) == a - b <= e /\ b - a <= e
Grid == {t \in 0..6000 : t % STEP = 0}
Values == [t \in Grid |-> Alpha(x, tg, t)]
Continuous == /\ Near(Rise(x, 100), Eta2(x), 2)
              /\ Near(Curved(x, tg, tg), Eta2(x), 8)
              /\ Near(Curved(x, tg, 5 * tg), Slope(x, tg, 5 * tg), 8)
Shape == LET v == TLCEval(Values) IN
  \A t \in Grid : /\ v[t] <= Eta2(x) + 8 /\ v[t] > 0
                  /\ t + STEP \in Grid => (IF t + STEP <= 100 THEN v[t] <= v[t + STEP] ELSE IF t >= tg THEN v[t] >= v[t + STEP] - 8 ELSE TRUE)
Standard == /\ x = 50 => Eta2(x) = ONE /\ Gamma(x) = 900000 /\ Eta1(x) = 20000
            /\ Eta2(x) >= 550000 /\ Eta1(x) >= 0
            /\ \A y \in Dampings : y > x => Eta2(y) <= Eta2(x) /\ Gamma(y) < Gamma(x) /\ Eta1(y) <= Eta1(x)
            /\ Alpha(x, tg, 0) = 450000
\* The arithmetic itself: logarithms and powers known to six digits.
Known == /\ Near(Ln(2, 1), 693147, 20) /\ Near(Ln(5, 1), 1609438, 30) /\ Near(Ln(3, 2), 405465, 20) /\ Near(Ln(1, 1), 0, 0)
         /\ Near(ExpNeg(ONE), 367879, 8) /\ Near(ExpNeg(0), ONE, 0) /\ Near(ExpNeg(1609438), 200000, 8)
         /\ \A a \in 2..5 : Near(PowDown(a, 1, ONE), Div(1, a), 12)
Circle == \A n \in 0..24 : Sine(n + 6) = -Sine(n) /\ Near(Mul(IF Sine(n) < 0 THEN -Sine(n) ELSE Sine(n), IF Sine(n) < 0 THEN -Sine(n) ELSE Sine(n))
                             + Mul(IF Cosine(n) < 0 THEN -Cosine(n) ELSE Cosine(n), IF Cosine(n) < 0 THEN -Cosine(n) ELSE Cosine(n)), ONE, 4)
=============================================================================
