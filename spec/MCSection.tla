------------------------------ MODULE MCSection ------------------------------
(***************************************************************************)
(* The catalogue's formulas against the geometry itself: a section of      *)
(* integer dimensions is a set of unit cells; area and second moments are  *)
(* sums over its cells.  All dimensions up to DMAX.                        *)
(***************************************************************************)
EXTENDS HSSection, IOUtils, FiniteSets

DMAX == CHOOSE n \in 1..40 : ToString(n) = IOEnv.DMAX
VARIABLES k, d
Init == \/ k = "rect" /\ d \in (1..DMAX) \X (1..DMAX)
        \/ k \in {"box", "I"} /\ d \in {x \in (1..DMAX) \X (1..DMAX) \X (1..DMAX) \X (1..DMAX) : 2 * x[4] < x[1] /\ (IF k = "box" THEN 2 * x[3] < x[2] ELSE x[3] <= x[2])}
Next == UNCHANGED <<k, d>>
Spec == Init /\ [][Next]_<<k, d>>

\* Cells by their doubled centre coordinates (y along h, z along b), corner at the origin.
In(y, z) == CASE k = "rect" -> TRUE
              [] k = "box"  -> ~(y > d[4] /\ y <= d[1] - d[4] /\ z > d[3] /\ z <= d[2] - d[3])
              [] k = "I"    -> y <= d[4] \/ y > d[1] - d[4] \/ (2 * z > d[2] - d[3] + 1 /\ 2 * z < d[2] + d[3] + 1)
Cells == {c \in (1..d[1]) \X (1..d[2]) : In(c[1], c[2])}
\* Twelve times the sum over the cells of the squared distance of each from the centre line, own moment included.
Term(c, x, n) == LET y == 2 * c[x] - 1 - n IN 3 * y * y + 1
RECURSIVE Sum(_, _, _)
Sum(S, x, n) == IF S = {} THEN 0 ELSE LET c == CHOOSE e \in S : TRUE IN Term(c, x, n) + Sum(S \ {c}, x, n)
Whole == k # "I" \/ (d[2] - d[3]) % 2 = 0       \* the web falls on whole cells
Area == Whole => Cardinality(Cells) = A1(k, d)
Second == Whole => I33n(k, d) = Sum(Cells, 1, d[1]) /\ I22n(k, d) = Sum(Cells, 2, d[2])
\* Turning a section by a quarter exchanges the axes; Bredt's constant lies below the polar moment.
Turned == /\ (k = "rect") => I22n(k, d) = I33n(k, <<d[2], d[1]>>)
          /\ (k = "box") => /\ I22n(k, d) = I33n(k, <<d[2], d[1], d[4], d[3]>>)
                            /\ Props(k, d).J = Props(k, <<d[2], d[1], d[4], d[3]>>).J
                            /\ Props(k, d).J <= Props(k, d).I22 + Props(k, d).I33 + 2
\* beta: known values to three digits, increasing with slenderness, and one third less 0.63025/3 per slenderness beyond 3.
Known == {<<1, 141>>, <<2, 229>>, <<3, 263>>, <<4, 281>>, <<5, 291>>, <<10, 312>>}
Saint == /\ \A x \in Known : (Beta[<<x[1], 1>>] + 500) \div 1000 = x[2]
         /\ \A r, s \in DOMAIN Beta : (r[1] * s[2] > s[1] * r[2]) <=> Beta[r] > Beta[s]
         /\ \A r \in DOMAIN Beta : r[1] >= 4 * r[2] => LET x == 333333 - (210083 * r[2]) \div r[1] IN Beta[r] - x < 5 /\ x - Beta[r] < 5
=============================================================================
