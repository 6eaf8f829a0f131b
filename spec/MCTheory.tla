------------------------------ MODULE MCTheory ------------------------------
(***************************************************************************)
(* The spline denotation has the properties users rely on, checked         *)
(* exhaustively over small one-dimensional grids and lattice points: node  *)
(* reproduction, partition of unity, continuity (C0 / C2), exact           *)
(* reproduction of affine data, linear continuation with the boundary      *)
(* slope, derivatives as differences, and uniqueness of the natural        *)
(* prefilter.                                                              *)
(***************************************************************************)
EXTENDS Lattice
CONSTANTS K, Grids, Mar
S == INSTANCE Splines WITH M <- 0
VARIABLES g, p
Init == g \in Grids /\ p \in (Lo(g) - Mar)..(Hi(g) + Mar)
Next == UNCHANGED <<g, p>>
Spec == Init /\ [][Next]_<<g, p>>

n == Size(g)
nb == IF K = 3 THEN n + 2 ELSE n
den == S!Den(K, g)
W(o, q, c) == S!Weights(K, g, c, o, q)
\* value functional of the spline: coefficient j (0-based) gets this weight
WJ(o, q, c, j) == LET m == j - c + 1 IN IF m \in 1..Len(W(o, q, c)) THEN W(o, q, c)[m] ELSE 0
F(o, q) == [j \in 0..(nb - 1) |-> WJ(o, q, Cell(g, q), j)]
Lin(a, f, b, h) == [j \in 0..(nb - 1) |-> a * f[j] + b * h[j]]
Zero == [j \in 0..(nb - 1) |-> 0]
CoefPos(j) == IF K = 1 THEN Node(g, j) ELSE Lo(g) + g.h * (j - 1)
RECURSIVE Dot(_, _)
Dot(f, j) == IF j < 0 THEN 0 ELSE f[j] * CoefPos(j) + Dot(f, j - 1)

Unity == SumSeq([j \in 1..nb |-> F(0, p)[j - 1]]) = den /\ SumSeq([j \in 1..nb |-> F(1, p)[j - 1]]) = 0
\* affine data are reproduced everywhere, also outside
Affine == Dot(F(0, p), nb - 1) = den * p /\ Dot(F(1, p), nb - 1) = den
NodeRepr == (K = 1 /\ \E i \in 0..(n - 1) : Node(g, i) = p) =>
    \E i \in 0..(n - 1) : Node(g, i) = p /\ F(0, p) = [j \in 0..(nb - 1) |-> IF j = i THEN den ELSE 0]
NonNeg == Inside(g, p) => \A j \in 0..(nb - 1) : F(0, p)[j] >= 0
\* at interior nodes both neighbouring cells agree (value; for cubic also slope)
Smooth == \A c \in Cells(g, p) :
    /\ [j \in 0..(nb - 1) |-> WJ(0, p, c, j)] = F(0, p)
    /\ K = 3 => [j \in 0..(nb - 1) |-> WJ(1, p, c, j)] = F(1, p)
\* f' is quadratic on a cell: f'' at its left end = (4 f'(1) - 3 f'(0) - f'(2))/2, right end mirrored
L2(c, q) == [j \in 0..(nb - 1) |-> 4 * WJ(1, q + 1, c, j) - 3 * WJ(1, q, c, j) - WJ(1, q + 2, c, j)]
R2(c, q) == [j \in 0..(nb - 1) |-> 3 * WJ(1, q, c, j) - 4 * WJ(1, q - 1, c, j) + WJ(1, q - 2, c, j)]
C2 == (K = 3 /\ g.h >= 2 /\ Cardinality(Cells(g, p)) = 2) => L2(Cell(g, p), p) = R2(Cell(g, p) - 1, p)
\* derivative: exact difference formulas inside a cell
InCell(c, q) == Node(g, c) <= q /\ q <= Node(g, c + 1)
Deriv ==
    LET c == Cell(g, p) IN
    IF K = 1 THEN F(1, p) = [j \in 0..(nb - 1) |-> WJ(0, p + 1, c, j) - WJ(0, p, c, j)]
    ELSE (InCell(c, p - 2) /\ InCell(c, p + 2)) =>
        \A j \in 0..(nb - 1) : 12 * F(1, p)[j] = -WJ(0, p + 2, c, j) + 8 * WJ(0, p + 1, c, j) - 8 * WJ(0, p - 1, c, j) + WJ(0, p - 2, c, j)
\* outside: value and slope continue from the boundary
Extrap ==
    /\ p < Lo(g) => F(0, p) = Lin(1, F(0, Lo(g)), p - Lo(g), F(1, Lo(g))) /\ F(1, p) = F(1, Lo(g))
    /\ p > Hi(g) => LET c == n - 2 IN
        /\ \A j \in 0..(nb - 1) : F(0, p)[j] = WJ(0, Hi(g), c, j) + (p - Hi(g)) * WJ(1, Hi(g), c, j)
        /\ \A j \in 0..(nb - 1) : F(1, p)[j] = WJ(1, Hi(g), c, j)
\* the continuation's second derivative is zero at the boundary for natural coefficients; and natural
\* coefficients reproduce node values: unit interior vectors map to columns of the <<1,4,1>> matrix
Natural == (K = 3 /\ p \in 0..(n - 1)) =>
    LET ci == [sh |-> <<n>>, flat |-> [i \in 1..n |-> IF i = p + 1 THEN 1 ELSE 0]]
        co == S!ExtCoefs(ci, <<n>>, 0)
        nv == S!NodeValues(co, <<n>>, 0)
        h3 == g.h * g.h * g.h
    IN /\ S!BoundaryDefects(co, <<n>>, 0) = {0}
       /\ \A i \in 0..(n - 1) : S!PointValue(<<g>>, 3, "linear", co, <<Node(g, i)>>) = nv.flat[i + 1] * h3
       \* strictly diagonally dominant system: the interior coefficients are unique
       /\ \A i \in 0..(n - 1) : nv.flat[i + 1] =
            (IF i = p THEN (IF i \in {0, n - 1} THEN 6 ELSE 4)
             ELSE IF Abs(i - p) = 1 /\ i \notin {0, n - 1} THEN 1 ELSE 0)

UG == { [t |-> "u", a |-> a, h |-> h, n |-> m] : a \in {-3, 0, 2}, h \in {1, 2, 4, 5, 8}, m \in 2..6 }
NG == { [t |-> "n", x |-> <<0, a, a + b>>, D |-> 12] : a \in {1, 2, 3, 4, 6}, b \in {1, 2, 3, 4, 6} }
   \cup { [t |-> "n", x |-> <<-2, -2 + a, -2 + a + b, -2 + a + b + c>>, D |-> 12] : a \in {1, 3}, b \in {1, 2, 4}, c \in {1, 6} }
   \cup { [t |-> "n", x |-> <<5, 5 + a>>, D |-> a] : a \in 1..6 }
G1 == UG \cup NG
G3 == UG
=============================================================================
