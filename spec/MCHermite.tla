------------------------------ MODULE MCHermite ------------------------------
(***************************************************************************)
(* Scalar Hermite evaluation: end tests, binary search, cell cubic.        *)
(* Explored for every grid of the menu and every lattice point around it.  *)
(***************************************************************************)
EXTENDS Hermite, Json, IOUtils, SequencesExt
CONSTANTS Grids, YVals, MVals, Margin
VARIABLES x, y, m, p, pc, lo, hi, res
vars == <<x, y, m, p, pc, lo, hi, res>>
RECURSIVE GapLcm(_, _)
Gcd2(a, b) == CHOOSE g \in 1..a : a % g = 0 /\ b % g = 0 /\ \A q \in 1..a : (a % q = 0 /\ b % q = 0) => q <= g
GapLcm(s, i) == IF i >= Len(s) THEN 1
                ELSE LET g == s[i + 1] - s[i]
                         r == GapLcm(s, i + 1) IN (g * r) \div Gcd2(g, r)
L == GapLcm(x, 1)
N == Len(x)
Init ==
    /\ x \in Grids
    /\ y \in [1..Len(x) -> YVals] /\ m \in [1..Len(x) -> MVals]
    /\ p \in (x[1] - Margin)..(x[Len(x)] + Margin)
    /\ pc = "ends" /\ lo = 0 /\ hi = 0 /\ res = 0
Ends ==
    /\ pc = "ends"
    /\ IF p <= x[1] THEN pc' = "done" /\ res' = y[1] * L * L * L /\ UNCHANGED <<lo, hi>>
       ELSE IF p >= x[N] THEN pc' = "done" /\ res' = y[N] * L * L * L /\ UNCHANGED <<lo, hi>>
       ELSE pc' = "search" /\ lo' = 1 /\ hi' = N /\ UNCHANGED res
    /\ UNCHANGED <<x, y, m, p>>
\* leftmost position with x >= p
Search ==
    /\ pc = "search" /\ lo < hi
    /\ LET mid == (lo + hi) \div 2
       IN IF x[mid] < p THEN lo' = mid + 1 /\ UNCHANGED hi ELSE hi' = mid /\ UNCHANGED lo
    /\ UNCHANGED <<x, y, m, p, pc, res>>
Cubic ==
    /\ pc = "search" /\ lo = hi
    /\ LET h == x[lo] - x[lo - 1]
       IN res' = HCellValue(y[lo - 1], y[lo], m[lo - 1], m[lo], h, p - x[lo - 1], L \div h)
    /\ pc' = "done"
    /\ UNCHANGED <<x, y, m, p, lo, hi>>
Next == Ends \/ Search \/ Cubic
Spec == Init /\ [][Next]_vars

Correct   == pc = "done" => res = HValue(x, y, m, L, p)
Once == pc = "ends" /\ p = x[1]      \* statements about the data alone: once per data
AtNodes   == Once => \A i \in 1..N : HValue(x, y, m, L, x[i]) = y[i] * L * L * L
\* either cell may be used at a node; slopes at the ends of a cell are the tangents
CellEnds  == Once => \A c \in 1..(N - 1) :
    LET h == x[c + 1] - x[c]
        f == L \div h
    IN /\ HCellValue(y[c], y[c + 1], m[c], m[c + 1], h, 0, f) = y[c] * L * L * L
       /\ HCellValue(y[c], y[c + 1], m[c], m[c + 1], h, h, f) = y[c + 1] * L * L * L
       /\ HCellSlope(y[c], y[c + 1], m[c], m[c + 1], h, 0, f) = m[c] * L * L * L
       /\ HCellSlope(y[c], y[c + 1], m[c], m[c + 1], h, h, f) = m[c + 1] * L * L * L
\* a cubic: fourth differences vanish, also across the ends of the cell
IsCubicPoly == Once => \A c \in 1..(N - 1) :
    LET h == x[c + 1] - x[c]
        v(u) == HCellValue(y[c], y[c + 1], m[c], m[c + 1], h, u, 1)
    IN \A u \in -1..h : v(u) - 4 * v(u + 1) + 6 * v(u + 2) - 4 * v(u + 3) + v(u + 4) = 0

G1 == { <<0, 1>>, <<0, 3>>, <<-2, 0, 1>>, <<0, 2, 3>>, <<1, 2, 4, 7>> }
G2 == { <<0, 1>>, <<0, 3>>, <<-2, 0, 1>>, <<0, 2, 3>> }
Y1 == {-2, 0, 3}
M1 == {-1, 0, 2}
Dump == IF "GEN_FILE" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(
          { [x |-> s, y |-> yy, m |-> mm] : s \in { g \in Grids : Len(g) <= 2 }, yy \in [1..2 -> YVals], mm \in [1..2 -> MVals] }
          \cup { [x |-> s, y |-> yy, m |-> [i \in 1..3 |-> yy[4 - i] - 1]] : s \in { g \in Grids : Len(g) = 3 }, yy \in [1..3 -> YVals] }))
        ELSE TRUE
ASSUME Dump
=============================================================================
