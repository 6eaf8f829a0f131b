------------------------------ MODULE Splines ------------------------------
(***************************************************************************)
(* Meaning of linear (k = 1) and uniform cubic (k = 3) tensor splines, with *)
(* extrapolation policies and partial derivatives, in exact arithmetic.    *)
(* A result is an integer numerator over the product of the per-dimension  *)
(* denominators Den(k, g).                                                  *)
(*                                                                         *)
(* The module is parameterised by the ring it computes in: M = 0 is the    *)
(* integers; M > 0 (a prime below 46340, so that products fit TLC's 32-bit *)
(* integers) is the integers modulo M.  Large exact numerators are checked *)
(* by their residues modulo two such primes.                               *)
(***************************************************************************)
EXTENDS Lattice
CONSTANT M

N(x)      == IF M = 0 THEN x ELSE x % M
X(a, b)   == IF M = 0 THEN a * b ELSE ((a % M) * (b % M)) % M
X3(a, b, c) == X(X(a, b), c)
Pl(a, b)  == IF M = 0 THEN a + b ELSE ((a % M) + (b % M)) % M

Modes == {"linear", "nearest", "constant"}

Den(k, g) == IF k = 1 THEN N(IF g.t = "u" THEN g.h ELSE g.D) ELSE X(6, X3(g.h, g.h, g.h))
RECURSIVE ProdX(_)
ProdX(s) == IF s = <<>> THEN 1 ELSE X(Head(s), ProdX(Tail(s)))
DenAll(k, dims) == ProdX([i \in 1..Len(dims) |-> Den(k, dims[i])])

\* weights of the two nodes of cell i, derivative order o, at coordinate p
LinW(g, i, o, p) ==
    LET h == Gap(g, i)
        f == (IF g.t = "u" THEN g.h ELSE g.D) \div h
        u == p - Node(g, i)
    IN CASE o = 0 -> <<X(h - u, f), X(u, f)>>
         [] o = 1 -> <<N(-f), N(f)>>
         [] OTHER -> <<0, 0>>

\* weights of the four coefficients of cell i; linear continuation outside [0, h]
CubW(g, i, o, p) ==
    LET h  == g.h
        u  == p - Node(g, i)
        v  == h - u
        hh == X(h, h)
        h3 == X(hh, h)
        uu == X(u, u)
        u3 == X(uu, u)
        vv == X(v, v)
    IN IF o = 0 THEN
          IF u < 0 THEN << N(h3 - X(3, X(u, hh))), X(4, h3), N(h3 + X(3, X(u, hh))), 0>>
          ELSE IF u > h THEN <<0, N(h3 + X(3, X(v, hh))), X(4, h3), N(h3 - X(3, X(v, hh)))>>
          ELSE << X(vv, v),
                  Pl(Pl(X(3, u3), X(-6, X(uu, h))), X(4, h3)),
                  Pl(Pl(X(-3, u3), X(3, X(uu, h))), Pl(X(3, X(u, hh)), h3)),
                  u3 >>
       ELSE
          IF u < 0 THEN <<X(-3, hh), 0, X(3, hh), 0>>
          ELSE IF u > h THEN <<0, X(-3, hh), 0, X(3, hh)>>
          ELSE << X(-3, vv),
                  Pl(X(9, uu), X(-12, X(u, h))),
                  Pl(Pl(X(-9, uu), X(6, X(u, h))), X(3, hh)),
                  X(3, uu) >>

Weights(k, g, i, o, p) == IF k = 1 THEN LinW(g, i, o, p) ELSE CubW(g, i, o, p)

\* the shape of the coefficient array of a grid
CoefShape(k, dims) == [i \in 1..Len(dims) |-> Size(dims[i]) + (IF k = 3 THEN 2 ELSE 0)]

\* tensor reduction: W[j] weights along dimension j starting at index I[j]
RECURSIVE Red(_, _, _, _, _, _)
RECURSIVE RedSum(_, _, _, _, _, _, _)
Red(W, I, str, arr, j, off) ==
    IF j > Len(W) THEN N(At(arr, off))
    ELSE RedSum(W, I, str, arr, j, off, 1)
RedSum(W, I, str, arr, j, off, m) ==
    IF m > Len(W[j]) THEN 0
    ELSE IF W[j][m] = 0 THEN RedSum(W, I, str, arr, j, off, m + 1)
    ELSE Pl(X(W[j][m], Red(W, I, str, arr, j + 1, off + (I[j] + m - 1) * str[j])),
            RedSum(W, I, str, arr, j, off, m + 1))

\* coordinate actually used under a policy
Coord(mode, g, p) == IF mode = "nearest" THEN Clamp(p, Lo(g), Hi(g)) ELSE p
Zeroed(mode, dims, pt) == mode = "constant" /\ \E i \in 1..Len(dims) : ~Inside(dims[i], pt[i])

NComp(nx) == IF nx = 0 THEN 1 ELSE nx
OrdersOf(orders, d) == IF orders = <<>> THEN << [i \in 1..d |-> 0] >> ELSE orders

\* results at one point for the given cells: components outer, orders inner.
\* arr has shape CoefShape (+ nx as last dimension when nx > 0); orders = <<>> means the plain value.
PointInCells(dims, k, mode, orders, arr, nx, pt, cells) ==
    LET d    == Len(dims)
        os   == OrdersOf(orders, d)
        nc   == NComp(nx)
        no   == Len(os)
    IN IF Zeroed(mode, dims, pt) THEN [s \in 1..(nc * no) |-> 0]
       ELSE
       LET q    == [i \in 1..d |-> Coord(mode, dims[i], pt[i])]
           csh  == CoefShape(k, dims)
           str  == [i \in 1..d |-> ProdSeq(SubSeq(csh, i + 1, d)) * nc]
           W    == [j \in 1..no |-> [i \in 1..d |-> Weights(k, dims[i], cells[i], os[j][i], q[i])]]
       IN [s \in 1..(nc * no) |->
             Red(W[((s - 1) % no) + 1], cells, str, arr, 1, (s - 1) \div no)]

CellOf(dims, mode, pt) == [i \in 1..Len(dims) |-> Cell(dims[i], Coord(mode, dims[i], pt[i]))]

\* where a linear spline has a kink, a derivative may be that of either adjacent cell
CellChoices(dims, k, mode, orders, pt) ==
    LET d == Len(dims)
        c == CellOf(dims, mode, pt)
        kink(i) == /\ k = 1
                   /\ \E j \in 1..Len(orders) : orders[j][i] = 1
                   /\ c[i] > 0 /\ Node(dims[i], c[i]) = Coord(mode, dims[i], pt[i])
        K == { i \in 1..d : kink(i) }
    IN { [i \in 1..d |-> IF i \in S THEN c[i] - 1 ELSE c[i]] : S \in SUBSET K }

\* the set of admissible results at a point (a singleton except at kinks of linear derivatives)
PointResults(dims, k, mode, orders, arr, nx, pt) ==
    { PointInCells(dims, k, mode, orders, arr, nx, pt, c) : c \in CellChoices(dims, k, mode, orders, pt) }
PointResult(dims, k, mode, orders, arr, nx, pt) ==
    PointInCells(dims, k, mode, orders, arr, nx, pt, CellOf(dims, mode, pt))
PointValue(dims, k, mode, arr, pt) == PointResult(dims, k, mode, <<>>, arr, 0, pt)[1]

(***************************************************************************)
(* Prefiltering.  The natural interpolating spline is determined by its    *)
(* interior coefficients (one per node): the outermost ones are the linear *)
(* continuation along each dimension (zero second derivative).             *)
(***************************************************************************)
\* coefficient at multi-index ix (0-based in the extended array), component x, from the interior array ci
RECURSIVE ExtAt(_, _, _, _, _, _, _)
ExtAt(ci, nsh, nc, ix, x, j, acc) ==
    IF j > Len(nsh) THEN At(ci, acc * nc + x)
    ELSE LET e == ix[j] - 1
             n == nsh[j]
             Sub(i) == ExtAt(ci, nsh, nc, ix, x, j + 1, acc * n + i)
         IN IF e < 0 THEN 2 * Sub(0) - Sub(1)
            ELSE IF e >= n THEN 2 * Sub(n - 1) - Sub(n - 2)
            ELSE Sub(e)
\* nsh: node counts; ci has shape nsh (scalar) or nsh \o <<nx>>
ExtCoefs(ci, nsh, nx) ==
    LET nc  == NComp(nx)
        esh == [i \in 1..Len(nsh) |-> nsh[i] + 2]
    IN [sh |-> IF nx = 0 THEN esh ELSE esh \o <<nx>>,
        flat |-> [o \in 1..(ProdSeq(esh) * nc) |->
            ExtAt(ci, nsh, nc, Unravel(esh, (o - 1) \div nc), (o - 1) % nc, 1, 0)]]

\* 6^d times the node values of the spline with (extended) coefficients co
NodeValues(co, nsh, nx) ==
    LET nc  == NComp(nx)
        d   == Len(nsh)
        esh == [i \in 1..d |-> nsh[i] + 2]
        str == [i \in 1..d |-> ProdSeq(SubSeq(esh, i + 1, d)) * nc]
    IN [sh |-> IF nx = 0 THEN nsh ELSE nsh \o <<nx>>,
        flat |-> [o \in 1..(ProdSeq(nsh) * nc) |->
            Red([i \in 1..d |-> <<1, 4, 1>>], Unravel(nsh, (o - 1) \div nc), str, co, 1, (o - 1) % nc)]]

\* second differences across both boundaries of every dimension, as a set of numbers
BoundaryDefects(co, nsh, nx) ==
    LET nc  == NComp(nx)
        d   == Len(nsh)
        esh == [i \in 1..d |-> nsh[i] + 2]
        str == [i \in 1..d |-> ProdSeq(SubSeq(esh, i + 1, d)) * nc]
        tot == ProdSeq(esh) * nc
        IxOf(o, i) == (o \div str[i]) % esh[i]
        D2(o, s) == At(co, o) - 2 * At(co, o + s) + At(co, o + 2 * s)
    IN UNION { { D2(o, str[i]) : o \in { q \in 0..(tot - 1) : IxOf(q, i) \in {0, nsh[i] - 1} } } : i \in 1..d }
=============================================================================
