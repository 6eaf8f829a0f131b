------------------------------- MODULE BBasis -------------------------------
(***************************************************************************)
(* B-spline basis functions on strictly increasing integer knots, in the   *)
(* ring M (0: integers, prime: residues).  A degree-p value is a numerator *)
(* over BDen(u, p), the product over q = 1..p of the least common multiple *)
(* of all knot differences u[j+q] - u[j].                                  *)
(***************************************************************************)
EXTENDS Lattice
CONSTANT M
BX(a, b) == IF M = 0 THEN a * b ELSE ((a % M) * (b % M)) % M
BP(a, b) == IF M = 0 THEN a + b ELSE ((a % M) + (b % M)) % M
RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = 0 THEN a ELSE BGcd(b, a % b)
BLcm(a, b) == (a \div BGcd(a, b)) * b
RECURSIVE DiffLcm(_, _, _)
DiffLcm(u, q, j) == IF j + q > Len(u) THEN 1 ELSE BLcm(u[j + q] - u[j], DiffLcm(u, q, j + 1))
RECURSIVE BDen(_, _)
BDen(u, p) == IF p = 0 THEN 1 ELSE BX(DiffLcm(u, p, 1), BDen(u, p - 1))
\* i is 0-based; the value at x of the basis function of degree p starting at knot i, times BDen
RECURSIVE BNum(_, _, _, _)
BNum(u, p, i, x) ==
    IF p = 0 THEN (IF u[i + 1] <= x /\ x < u[i + 2] THEN 1 ELSE 0)
    ELSE LET l  == DiffLcm(u, p, 1)
             d1 == u[i + p + 1] - u[i + 1]
             d2 == u[i + p + 2] - u[i + 2]
         IN BP(BX(BX(x - u[i + 1], l \div d1), BNum(u, p - 1, i, x)),
               BX(BX(u[i + p + 2] - x, l \div d2), BNum(u, p - 1, i + 1, x)))
=============================================================================
