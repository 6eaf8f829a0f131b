------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Common vocabulary: integer lattice, dimensions, arrays, index helpers.  *)
(* All coordinates and values are integers in lattice units; the harness   *)
(* embeds them into floats by affine maps and projects results back.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x)        == IF x < 0 THEN -x ELSE x
Min2(x, y)    == IF x < y THEN x ELSE y
Max2(x, y)    == IF x > y THEN x ELSE y
Clamp(x, l, u) == Max2(l, Min2(x, u))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* concatenation of a sequence of sequences (iterative doubling keeps the recursion shallow)
RECURSIVE CatRange(_, _, _)
CatRange(f, i, j) ==
    IF i > j THEN <<>>
    ELSE IF i = j THEN f[i]
    ELSE LET m == (i + j) \div 2 IN CatRange(f, i, m) \o CatRange(f, m + 1, j)
Cat(f) == CatRange(f, 1, Len(f))

(***************************************************************************)
(* One-dimensional grids.                                                  *)
(*   uniform    [t |-> "u", a |-> first node, h |-> spacing, n |-> count]  *)
(*   nonuniform [t |-> "n", x |-> node sequence, D |-> common multiple of  *)
(*               the gaps]                                                 *)
(***************************************************************************)
Size(g)    == IF g.t = "u" THEN g.n ELSE Len(g.x)
Node(g, i) == IF g.t = "u" THEN g.a + g.h * i ELSE g.x[i + 1]
Lo(g)      == Node(g, 0)
Hi(g)      == Node(g, Size(g) - 1)
Gap(g, i)  == Node(g, i + 1) - Node(g, i)
WellFormed(g) ==
    /\ Size(g) >= 2
    /\ IF g.t = "u" THEN g.h > 0
       ELSE \A i \in 0..(Size(g) - 2) : Gap(g, i) > 0 /\ g.D % Gap(g, i) = 0
Inside(g, p)   == Lo(g) <= p /\ p <= Hi(g)

\* the cell that contains p (first/last cell when p is outside)
RECURSIVE Bisect(_, _, _, _)
Bisect(x, p, lo, hi) ==          \* largest i in lo..hi with i = lo or x[i+1] <= p
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF x[m + 1] <= p THEN Bisect(x, p, m, hi) ELSE Bisect(x, p, lo, m - 1)
Cell(g, p) ==
    IF g.t = "u" THEN Clamp((p - g.a) \div g.h, 0, g.n - 2)
    ELSE Bisect(g.x, p, 0, Len(g.x) - 2)
\* both cells that share node p, if p is an interior node
Cells(g, p) ==
    LET c == Cell(g, p)
    IN IF c > 0 /\ Node(g, c) = p THEN {c, c - 1} ELSE {c}

(***************************************************************************)
(* Arrays: C-ordered, either explicit or given by a generator formula on   *)
(* the flat offset (so that large arrays need not be logged).              *)
(***************************************************************************)
At(arr, off) ==
    IF "gen" \in DOMAIN arr
    THEN ((arr.gen[1] * off * off + arr.gen[2] * off + arr.gen[3]) % arr.gen[4]) - arr.gen[5]
    ELSE arr.flat[off + 1]
ArrLen(arr) == ProdSeq(arr.sh)

\* strides of the first d dimensions of a C-ordered array of shape sh
Strides(sh) == [i \in 1..Len(sh) |-> ProdSeq(SubSeq(sh, i + 1, Len(sh)))]

\* multi-index (0-based) of flat offset off in shape sh
Unravel(sh, off) ==
    LET s == Strides(sh) IN [i \in 1..Len(sh) |-> (off \div s[i]) % sh[i]]
RECURSIVE RavelR(_, _, _, _)
RavelR(sh, ix, i, acc) == IF i > Len(sh) THEN acc ELSE RavelR(sh, ix, i + 1, acc * sh[i] + ix[i])
Ravel(sh, ix) == RavelR(sh, ix, 1, 0)
=============================================================================
