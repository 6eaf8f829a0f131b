------------------------------ MODULE MCFilter ------------------------------
(***************************************************************************)
(* The banded solver of the prefilter as a state machine in exact rational *)
(* arithmetic: boundary rows, forward elimination row by row, last row,    *)
(* back substitution.  Explored for every vector of small values; the      *)
(* result satisfies the interpolation equations and both natural boundary  *)
(* conditions, no pivot vanishes, and the cell written in each step is the *)
(* only one that changes.                                                  *)
(***************************************************************************)
EXTENDS Lattice, Json, IOUtils, SequencesExt
CONSTANTS Sizes, Values, Delta

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % Abs(b))
Nrm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                 g == GCD(Abs(n), Abs(d))
             IN IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
R(n)      == <<n, 1>>
RAdd(a, b) == LET g == GCD(a[2], b[2]) IN Nrm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a)   == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == GCD(Abs(a[1]), b[2])
                  g2 == GCD(Abs(b[1]), a[2])
              IN IF a[1] = 0 \/ b[1] = 0 THEN R(0)
                 ELSE <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
RDiv(a, b) == RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)

VARIABLES data, bands, coefs, pc, row
vars == <<data, bands, coefs, pc, row>>
Mm == Len(data)                       \* number of nodes
Bnd == << R(Delta * Delta), R(-2 * Delta * Delta), R(Delta * Delta), R(0) >>

Vectors == UNION { [1..m -> Values] : m \in Sizes }
Init ==
    /\ data \in Vectors
    /\ bands = [r \in 0..(Len(data) + 1) |->
         IF r \in {0, Len(data) + 1} THEN Bnd ELSE << <<1, 6>>, <<2, 3>>, <<1, 6>>, R(data[r]) >>]
    /\ coefs = [r \in 0..(Len(data) + 1) |-> R(0)]
    /\ pc = "first" /\ row = 2
Piv(a) == a[1] # 0
First ==
    /\ pc = "first"
    /\ LET b0 == bands[0]
           n0 == << R(1), RDiv(b0[2], b0[1]), RDiv(b0[3], b0[1]), RDiv(b0[4], b0[1]) >>
           b1 == bands[1]
           c1 == << b1[1], RSub(b1[2], RMul(b1[1], n0[2])), RSub(b1[3], RMul(b1[1], n0[3])), RSub(b1[4], RMul(b1[1], n0[4])) >>
           n1 == << c1[1], R(1), RDiv(c1[3], c1[2]), RDiv(c1[4], c1[2]) >>
       IN bands' = [bands EXCEPT ![0] = n0, ![1] = n1]
    /\ pc' = "sweep"
    /\ UNCHANGED <<data, coefs, row>>
Sweep ==
    /\ pc = "sweep" /\ row <= Mm
    /\ LET b  == bands[row]
           p  == bands[row - 1]
           d1 == RSub(b[2], RMul(b[1], p[3]))
           d3 == RSub(b[4], RMul(b[1], p[4]))
       IN bands' = [bands EXCEPT ![row] = << R(0), R(1), RDiv(b[3], d1), RDiv(d3, d1) >>]
    /\ row' = row + 1
    /\ UNCHANGED <<data, coefs, pc>>
LastRow ==
    /\ pc = "sweep" /\ row = Mm + 1
    /\ LET b  == bands[Mm + 1]
           d1 == RSub(b[2], RMul(b[1], bands[Mm - 1][3]))
           v1 == RSub(b[4], RMul(b[1], bands[Mm - 1][4]))
           d2 == RSub(b[3], RMul(d1, bands[Mm][3]))
           v2 == RSub(v1, RMul(d1, bands[Mm][4]))
       IN /\ bands' = [bands EXCEPT ![Mm + 1] = << b[1], d1, R(1), RDiv(v2, d2) >>]
          /\ coefs' = [coefs EXCEPT ![Mm + 1] = RDiv(v2, d2)]
    /\ pc' = "back" /\ row' = Mm
    /\ UNCHANGED data
Back ==
    /\ pc = "back" /\ row >= 1
    /\ coefs' = [coefs EXCEPT ![row] = RSub(bands[row][4], RMul(bands[row][3], coefs[row + 1]))]
    /\ row' = row - 1
    /\ UNCHANGED <<data, bands, pc>>
Finish ==
    /\ pc = "back" /\ row = 0
    /\ coefs' = [coefs EXCEPT ![0] = RSub(RSub(bands[0][4], RMul(bands[0][2], coefs[1])), RMul(bands[0][3], coefs[2]))]
    /\ pc' = "done"
    /\ UNCHANGED <<data, bands, row>>
Next == First \/ Sweep \/ LastRow \/ Back \/ Finish
Spec == Init /\ [][Next]_vars

\* 6 x value at node i, twice the boundary second derivative
Interp == pc = "done" => \A i \in 1..Mm :
    RAdd(RAdd(coefs[i - 1], RMul(R(4), coefs[i])), coefs[i + 1]) = R(6 * data[i])
NaturalBC == pc = "done" =>
    /\ RAdd(RSub(coefs[0], RMul(R(2), coefs[1])), coefs[2]) = R(0)
    /\ RAdd(RSub(coefs[Mm - 1], RMul(R(2), coefs[Mm])), coefs[Mm + 1]) = R(0)
\* forward elimination keeps the super-diagonal in (0, 1): no later pivot can vanish
Pivots == pc = "sweep" => \A r \in 2..(row - 1) : Piv(bands[r][2]) /\ bands[r][3][1] > 0 /\ bands[r][3][1] < bands[r][3][2]

SmallVals == {-1, 0, 3}
Dump == IF "GEN_FILE" \in DOMAIN IOEnv
        THEN ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq({ v \in Vectors : \E i \in DOMAIN v : v[i] # 0 })) ELSE TRUE
ASSUME Dump
=============================================================================
