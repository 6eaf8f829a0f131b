--------------------------- MODULE SplineClauses ---------------------------
(***************************************************************************)
(* Verdicts on observed spline calls (evaluation, value-and-gradient,      *)
(* prefiltering).  Numerators are compared exactly: as integers (ring "z") *)
(* or by their residues modulo two primes (ring "m").                      *)
(***************************************************************************)
EXTENDS Lattice
Z == INSTANCE Splines WITH M <- 0
P == INSTANCE Splines WITH M <- 46337
Q == INSTANCE Splines WITH M <- 46327

\* points of a call: explicit, or a base list indexed by a formula (long batches)
NPts(r) == IF "tile" \in DOMAIN r THEN r.tile.n ELSE Len(r.pts)
BaseIx(r, n) ==
    IF "tile" \in DOMAIN r
    THEN ((r.tile.g[1] * n * n + r.tile.g[2] * n + r.tile.g[3]) % Len(r.pts)) + 1
    ELSE n + 1

\* admissible numerators at one base point: in ring "z" a set of sequences of integers,
\* in ring "m" a set of sequences of residue pairs
PtSet(r, arr, k, mode, orders, pt) ==
    IF r.ring = "z" THEN Z!PointResults(r.dims, k, mode, orders, arr, r.nx, pt)
    ELSE { LET a == P!PointInCells(r.dims, k, mode, orders, arr, r.nx, pt, c)
               b == Q!PointInCells(r.dims, k, mode, orders, arr, r.nx, pt, c)
           IN [s \in 1..Len(a) |-> <<a[s], b[s]>>]
           : c \in Z!CellChoices(r.dims, k, mode, orders, pt) }

DenOK(r, k) ==
    IF r.ring = "z" THEN r.den = <<Z!DenAll(k, r.dims)>>
    ELSE r.den = <<P!DenAll(k, r.dims), Q!DenAll(k, r.dims)>>

\* shape of the result
ExpShape(r) ==
    LET comp == (IF r.nx = 0 THEN <<>> ELSE <<r.nx>>) \o (IF r.orders = <<>> THEN <<>> ELSE <<Len(r.orders)>>)
    IN CASE r.form = "point" -> comp
         [] r.form = "batch" -> <<NPts(r)>> \o comp
         [] r.form = "cart"  -> r.csh \o comp
         [] OTHER -> <<-1>>

ArrOK(r, arr, k) ==
    arr.sh = Z!CoefShape(k, r.dims) \o (IF r.nx = 0 THEN <<>> ELSE <<r.nx>>)

\* at a point where a derivative has a kink each slot may take either side independently
SlotOK(S, got, s) == \E e \in S : e[s] = got

EvalClause(r, arr) ==
    LET o   == r.obs
        w   == Z!NComp(r.nx) * (IF r.orders = <<>> THEN 1 ELSE Len(r.orders))
        T   == TLCEval([b \in 1..Len(r.pts) |-> PtSet(r, arr, r.k, r.mode, r.orders, r.pts[b])])
        Bad == { n \in 0..(NPts(r) - 1) : \E s \in 1..w : ~SlotOK(T[BaseIx(r, n)], o.num[n * w + s], s) }
    IN IF \E i \in 1..Len(r.dims) : ~WellFormed(r.dims[i]) THEN "malformed-event"
       ELSE IF ~DenOK(r, r.k) \/ ~ArrOK(r, arr, r.k) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # ExpShape(r) THEN "shape"
       ELSE IF r.form = "point" /\ r.nx = 0 /\ r.orders = <<>> /\ o.kind # "float" THEN "kind"
       ELSE IF (r.form # "point" \/ r.nx > 0) /\ o.kind # "array" THEN "kind"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF Len(o.num) # NPts(r) * w THEN "shape"
       ELSE IF Bad # {} THEN "value"
       ELSE "ok"

(***************************************************************************)
(* Points far outside the grid (much more than fits the lattice integers). *)
(* Outside the grid the spline continues linearly, so along a dimension j  *)
(* that is t lattice units beyond a boundary the value is F(boundary) +    *)
(* t * (F(one unit beyond) - F(boundary)), and value / t tends to that     *)
(* difference; a first derivative along j is already the far one.  The     *)
(* observation is value / (product of the t's), rounded.  r.far is a       *)
(* sequence of <<dimension, side>>; r.pts hold the boundary coordinates.   *)
(***************************************************************************)
FarSets(r) == { r.far[i][1] : i \in 1..Len(r.far) }
FarSide(r, j) == LET i == CHOOSE i \in 1..Len(r.far) : r.far[i][1] = j IN r.far[i][2]
FarRes(r, arr, pt, cells, m) ==
    LET J  == FarSets(r)
        d  == Len(r.dims)
        os == Z!OrdersOf(r.orders, d)
        no == Len(os)
        At1(S) == LET q == [i \in 1..d |-> IF i \in S THEN pt[i] + FarSide(r, i) ELSE pt[i]]
                  IN CASE m = 0 -> Z!PointInCells(r.dims, r.k, "linear", r.orders, arr, r.nx, q, cells)
                       [] m = 46337 -> P!PointInCells(r.dims, r.k, "linear", r.orders, arr, r.nx, q, cells)
                       [] OTHER -> Q!PointInCells(r.dims, r.k, "linear", r.orders, arr, r.nx, q, cells)
        R  == [S \in SUBSET J |-> At1(S)]
        Sl(s) == LET o == os[((s - 1) % no) + 1]
                     E == { j \in J : o[j] = 0 }
                     terms == { S \in SUBSET J : (J \ E) \subseteq S }
                     Sum[U \in SUBSET terms] ==
                        IF U = {} THEN 0
                        ELSE LET S == CHOOSE x \in U : TRUE
                             IN (IF (Cardinality(J) - Cardinality(S)) % 2 = 0 THEN R[S][s] ELSE -R[S][s]) + Sum[U \ {S}]
                 IN IF m = 0 THEN Sum[terms] ELSE Sum[terms] % m
    IN [s \in 1..(Z!NComp(r.nx) * no) |-> Sl(s)]
FarSet(r, arr, pt) ==
    { IF r.ring = "z" THEN FarRes(r, arr, pt, c, 0)
      ELSE LET a == FarRes(r, arr, pt, c, 46337)
               b == FarRes(r, arr, pt, c, 46327)
           IN [s \in 1..Len(a) |-> <<a[s], b[s]>>]
      : c \in Z!CellChoices(r.dims, r.k, "linear", r.orders, pt) }
FarClause(r, arr) ==
    LET o == r.obs
        w == Z!NComp(r.nx) * (IF r.orders = <<>> THEN 1 ELSE Len(r.orders))
        T == TLCEval([b \in 1..Len(r.pts) |-> FarSet(r, arr, r.pts[b])])
    IN IF \E i \in 1..Len(r.dims) : ~WellFormed(r.dims[i]) THEN "malformed-event"
       ELSE IF ~DenOK(r, r.k) \/ ~ArrOK(r, arr, r.k) THEN "malformed-event"
       ELSE IF \E i \in 1..Len(r.far) : \E b \in 1..Len(r.pts) :
                 r.pts[b][r.far[i][1]] # (IF r.far[i][2] = 1 THEN Hi(r.dims[r.far[i][1]]) ELSE Lo(r.dims[r.far[i][1]])) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # ExpShape(r) THEN "shape"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF Len(o.num) # NPts(r) * w THEN "shape"
       ELSE IF \E n \in 0..(NPts(r) - 1) : \E s \in 1..w : ~SlotOK(T[BaseIx(r, n)], o.num[n * w + s], s) THEN "value"
       ELSE "ok"

(***************************************************************************)
(* Products of affine data.  Coefficient j of dimension i sits at lattice  *)
(* position CoefPos; when the coefficients are products over dimensions of *)
(* al + be * position, the spline of either order is that product at the   *)
(* point itself, everywhere (lemma Affine of MCTheory), its derivative     *)
(* along a dimension has be in place of the factor.  No denominators: so   *)
(* coordinates can be as fine as floats allow.  r.ab[x][i] = <<al, be>>.   *)
(***************************************************************************)
MulM(a, b, m) == IF m = 0 THEN a * b ELSE ((a % m) * (b % m)) % m
RECURSIVE AffProd(_, _, _, _, _)
AffProd(ab, os, q, i, m) ==
    IF i > Len(ab) THEN 1
    ELSE LET f == CASE os[i] = 0 -> ab[i][1] + ab[i][2] * q[i]
                    [] os[i] = 1 -> ab[i][2]
                    [] OTHER -> 0
         IN MulM(f, AffProd(ab, os, q, i + 1, m), m)
AffPoint(r, pt, m) ==
    LET d  == Len(r.dims)
        os == Z!OrdersOf(r.orders, d)
        no == Len(os)
        q  == [i \in 1..d |-> Z!Coord(r.mode, r.dims[i], pt[i])]
    IN [s \in 1..(Z!NComp(r.nx) * no) |->
          IF Z!Zeroed(r.mode, r.dims, pt) THEN 0
          ELSE AffProd(r.ab[((s - 1) \div no) + 1], os[((s - 1) % no) + 1], q, 1, m)]
AffineClause(r) ==
    LET o == r.obs
        w == Z!NComp(r.nx) * (IF r.orders = <<>> THEN 1 ELSE Len(r.orders))
        E == TLCEval([b \in 1..Len(r.pts) |->
               IF r.ring = "z" THEN AffPoint(r, r.pts[b], 0)
               ELSE LET x == AffPoint(r, r.pts[b], 46337)
                        y == AffPoint(r, r.pts[b], 46327)
                    IN [s \in 1..w |-> <<x[s] % 46337, y[s] % 46327>>]])
    IN IF \E i \in 1..Len(r.dims) : ~WellFormed(r.dims[i]) THEN "malformed-event"
       ELSE IF Len(r.ab) # Z!NComp(r.nx) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # ExpShape(r) THEN "shape"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF Len(o.num) # NPts(r) * w THEN "shape"
       ELSE IF \E n \in 0..(NPts(r) - 1) : \E s \in 1..w : o.num[n * w + s] # E[BaseIx(r, n)][s] THEN "value"
       ELSE "ok"

(***************************************************************************)
(* value-and-gradient: values (N, nx), derivatives (N, d, nx)              *)
(***************************************************************************)
GradOrders(d) == << [i \in 1..d |-> 0] >> \o [j \in 1..d |-> [i \in 1..d |-> IF i = j THEN 1 ELSE 0]]
GradClause(r, arr) ==
    LET o  == r.obs
        d  == Len(r.dims)
        nc == r.nx
        T  == TLCEval([b \in 1..Len(r.pts) |-> PtSet(r, arr, 3, "linear", GradOrders(d), r.pts[b])])
        E(n, x, j, got) == SlotOK(T[BaseIx(r, n)], got, x * (d + 1) + j)
    IN IF ~DenOK(r, 3) \/ ~ArrOK(r, arr, 3) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # <<NPts(r), nc>> THEN "shape"
       ELSE IF o.dshape # <<NPts(r), d, nc>> THEN "shape-gradient"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E n \in 0..(NPts(r) - 1) : \E x \in 0..(nc - 1) : ~E(n, x, 1, o.num[n * nc + x + 1]) THEN "value"
       ELSE IF \E n \in 0..(NPts(r) - 1) : \E x \in 0..(nc - 1) : \E j \in 1..d :
                 ~E(n, x, j + 1, o.dnum[(n * d + (j - 1)) * nc + x + 1]) THEN "gradient"
       ELSE "ok"

(***************************************************************************)
(* Prefiltering.  r.val are the node values times 6^d * r.mul.  Either the *)
(* observed coefficients are integers exactly (r.q = 0), or they are       *)
(* rounded fixed-point numbers scaled by r.q, and the defining equations   *)
(* hold up to the accumulated rounding.                                    *)
(***************************************************************************)
FilterClause(r) ==
    LET o   == r.obs
        d   == Len(r.nsh)
        esh == [i \in 1..d |-> r.nsh[i] + 2] \o (IF r.nx = 0 THEN <<>> ELSE <<r.nx>>)
        co  == [sh |-> esh, flat |-> o.num]
        nv  == TLCEval(Z!NodeValues(co, r.nsh, r.nx))
        tol == IF r.q = 0 THEN 0 ELSE Pow(6, d)
        bt  == IF r.q = 0 THEN 0 ELSE 4
        sc  == IF r.q = 0 THEN 1 ELSE r.q
    IN IF Len(r.val) # ProdSeq(r.nsh) * Z!NComp(r.nx) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # esh THEN "shape"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E e \in 1..Len(r.val) : Abs(nv.flat[e] - sc * r.val[e]) > tol THEN "interpolation"
       ELSE IF \E b \in Z!BoundaryDefects(co, r.nsh, r.nx) : Abs(b) > bt THEN "natural-boundary"
       ELSE "ok"

(***************************************************************************)
(* Values -> prefilter -> evaluation.  The values are the node values of   *)
(* the natural spline with integer interior coefficients r.ci.             *)
(***************************************************************************)
NSh(dims) == [i \in 1..Len(dims) |-> Size(dims[i])]
ValsMatch(ci, dims, nx, val) ==
    LET nsh == NSh(dims) IN Z!NodeValues(Z!ExtCoefs(ci, nsh, nx), nsh, nx).flat = val
CompClause(r) ==
    IF ~ValsMatch(r.ci, r.dims, r.nx, r.val) THEN "malformed-event"
    ELSE EvalClause(r, TLCEval(Z!ExtCoefs(r.ci, NSh(r.dims), r.nx)))
GradCompClause(r) ==
    IF ~ValsMatch(r.ci, r.dims, r.nx, r.val) THEN "malformed-event"
    ELSE GradClause(r, TLCEval(Z!ExtCoefs(r.ci, NSh(r.dims), r.nx)))
\* any values: the composition returns the value itself at the nodes
NodesClause(r) ==
    LET o   == r.obs
        nsh == NSh(r.dims)
        nc  == Z!NComp(r.nx)
    IN IF Len(r.val) # ProdSeq(nsh) * nc THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # <<Len(r.ixs)>> \o (IF r.nx = 0 THEN <<>> ELSE <<r.nx>>) THEN "shape"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E j \in 1..Len(r.ixs) : \E x \in 0..(nc - 1) :
                 o.num[(j - 1) * nc + x + 1] # r.val[Ravel(nsh, r.ixs[j]) * nc + x + 1] THEN "node-value"
       ELSE "ok"
=============================================================================
