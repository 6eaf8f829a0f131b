------------------------------ MODULE MCBSpline ------------------------------
(***************************************************************************)
(* The Cox-de Boor recursion as a table filled degree by degree, for every *)
(* knot vector of the menu and every lattice point; the table agrees with  *)
(* the specified basis, which is non-negative, vanishes outside its        *)
(* support, sums to one on the interior range, and on unit knots is the    *)
(* basis used by cubic evaluation.                                         *)
(***************************************************************************)
EXTENDS Lattice, Json, IOUtils, SequencesExt
CONSTANTS Knots, MaxDeg
B == INSTANCE BBasis WITH M <- 0
S == INSTANCE Splines WITH M <- 0
VARIABLES u, x, q, tab
vars == <<u, x, q, tab>>
K == Len(u)
Init == /\ u \in Knots /\ x \in (u[1] - 1)..(u[Len(u)] + 1)
        /\ q = 0
        /\ tab = [i \in 0..(Len(u) - 2) |-> IF u[i + 1] <= x /\ x < u[i + 2] THEN 1 ELSE 0]
Raise == /\ q < MaxDeg /\ q + 3 <= K
         /\ LET p == q + 1
                lc == B!DiffLcm(u, p, 1)
            IN tab' = [i \in 0..(K - p - 2) |->
                        (x - u[i + 1]) * (lc \div (u[i + p + 1] - u[i + 1])) * tab[i]
                        + (u[i + p + 2] - x) * (lc \div (u[i + p + 2] - u[i + 2])) * tab[i + 1]]
         /\ q' = q + 1
         /\ UNCHANGED <<u, x>>
Spec == Init /\ [][Raise]_vars
Correct == \A i \in DOMAIN tab : tab[i] = B!BNum(u, q, i, x)
NonNeg  == \A i \in DOMAIN tab : tab[i] >= 0
Support == \A i \in DOMAIN tab : (x < u[i + 1] \/ x >= u[i + q + 2]) => tab[i] = 0
Unity   == (u[q + 1] <= x /\ x < u[K - q]) =>
             SumSeq([j \in 1..(K - q - 1) |-> tab[j - 1]]) = B!BDen(u, q)
\* unit knots, degree 3: the four functions alive in a cell are the cubic weights (over 6 h^3 at barycentre t/h)
Kn == { <<0, 1, 2, 3, 4, 5>>, <<0, 1, 3, 4, 6>>, <<-3, -1, 0, 2, 3, 4>>, <<0, 2, 3, 7>>, <<0, 4, 8, 12, 16, 20, 24, 28>> }
Cubic == (q = 3 /\ K >= 8 /\ \A j \in 1..(K - 1) : u[j + 1] - u[j] = 4 /\ u[4] <= x /\ x < u[5]) =>
    LET W == S!CubW([t |-> "u", a |-> u[4], h |-> 4, n |-> 2], 0, 0, x)
    IN \A j \in 1..4 : tab[j - 1] * (6 * 64) = W[j] * B!BDen(u, 3)
Dump == IF "GEN_FILE" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Knots)) ELSE TRUE
ASSUME Dump
=============================================================================
