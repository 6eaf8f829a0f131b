------------------------------- MODULE Smolyak -------------------------------
(***************************************************************************)
(* Smolyak sparse grids.  A density mu is a sequence of d positive         *)
(* integers (isotropic: all equal).  One-dimensional nodes -cos(pi a / R)  *)
(* are represented by their angle index a in 0..R, R = 2^lev.              *)
(***************************************************************************)
EXTENDS Lattice
MaxSeq(s) == CHOOSE x \in { s[i] : i \in 1..Len(s) } : \A j \in 1..Len(s) : s[j] <= x
SmSize(i) == IF i = 0 THEN 0 ELSE IF i = 1 THEN 1 ELSE Pow(2, i - 1) + 1

\* S_n and A_n as sets of angle indices with resolution R = 2^lev, lev >= n - 1, lev >= 1
SmS(n, lev) == IF n = 1 THEN {Pow(2, lev - 1)} ELSE { j * Pow(2, lev - n + 1) : j \in 0..Pow(2, n - 1) }
SmA(n, lev) == IF n = 1 THEN SmS(1, lev) ELSE SmS(n, lev) \ SmS(n - 1, lev)
\* basis polynomial numbers (1-based, as in the code: phi_k = T_{k-1})
SmPhi(n) == IF n = 1 THEN {1} ELSE (SmSize(n - 1) + 1)..SmSize(n)

\* multi-indices by recursion on the dimension
RECURSIVE SmTuples(_, _, _)
SmTuples(mu, j, left) ==     \* entries for dimensions j.., with total excess over 1 at most left
    IF j > Len(mu) THEN {<<>>}
    ELSE UNION { { <<e>> \o t : t \in SmTuples(mu, j + 1, left - (e - 1)) } : e \in 1..(1 + Min2(left, mu[j])) }
SmInds(mu) == SmTuples(mu, 1, MaxSeq(mu))
RECURSIVE SmProduct(_)
SmProduct(sets) ==            \* cartesian product of a sequence of sets, as sequences
    IF sets = <<>> THEN {<<>>}
    ELSE LET rest == SmProduct(Tail(sets)) IN { <<x>> \o t : x \in Head(sets), t \in rest }
SmGrid(mu, lev) == UNION { SmProduct([i \in 1..Len(mu) |-> SmA(ix[i], lev)]) : ix \in SmInds(mu) }
SmPolys(mu)     == UNION { SmProduct([i \in 1..Len(mu) |-> SmPhi(ix[i])]) : ix \in SmInds(mu) }
\* advertised count for isotropic grids
SmCount(d, m) == Cardinality(SmGrid([i \in 1..d |-> m], m))

SeqSet(s) == { s[i] : i \in 1..Len(s) }
NoDup(s)  == Cardinality(SeqSet(s)) = Len(s)

(***************************************************************************)
(* Chebyshev polynomials of both kinds at c/m, times m^n.                  *)
(***************************************************************************)
RECURSIVE ChebT(_, _, _)
ChebT(n, c, m) == IF n = 0 THEN 1 ELSE IF n = 1 THEN c
                  ELSE 2 * c * ChebT(n - 1, c, m) - m * m * ChebT(n - 2, c, m)
RECURSIVE ChebU(_, _, _)
ChebU(n, c, m) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 * c
                  ELSE 2 * c * ChebU(n - 1, c, m) - m * m * ChebU(n - 2, c, m)
\* derivative of T_n at c/m, times m^n
ChebDT(n, c, m) == IF n = 0 THEN 0 ELSE n * m * ChebU(n - 1, c, m)

\* k: degree vector; numerator over m^deg (deg >= total degree) of the product, or its derivative along dimension v
RECURSIVE TProd(_, _, _, _, _)
TProd(k, c, m, v, j) ==
    IF j > Len(k) THEN 1
    ELSE (IF j = v THEN ChebDT(k[j], c[j], m) ELSE ChebT(k[j], c[j], m)) * TProd(k, c, m, v, j + 1)
TNum(k, c, m, v, deg) == TProd(k, c, m, v, 1) * Pow(m, deg - SumSeq(k))
SmDeg(mu) == Pow(2, MaxSeq(mu))       \* largest total degree in the space
\* admissibility of a degree vector, by levels
Level(k) == CHOOSE l \in 1..12 : (k + 1) \in SmPhi(l)
InSpace(k, mu) ==
    /\ \A j \in 1..Len(k) : Level(k[j]) <= mu[j] + 1
    /\ SumSeq([j \in 1..Len(k) |-> Level(k[j])]) <= Len(k) + MaxSeq(mu)

(***************************************************************************)
(* Verdicts                                                                *)
(***************************************************************************)
SmBlockClause(r) ==
    LET o == r.obs
    IN IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.off # <<>> THEN "off-lattice"
       ELSE CASE r.what = "m_i" -> IF o.num = <<SmSize(r.n)>> THEN "ok" ELSE "set-size"
              [] r.what = "s_n" -> IF NoDup(o.num) /\ SeqSet(o.num) = SmS(r.n, r.lev)
                                      /\ \A i \in 1..(Len(o.num) - 1) : o.num[i] < o.num[i + 1]
                                   THEN "ok" ELSE "nested-set"
              [] r.what = "a_chain" ->      \* o.sets[i] for i in 1..n
                    IF Len(o.sets) = r.n /\ \A i \in 1..r.n : NoDup(o.sets[i]) /\ SeqSet(o.sets[i]) = SmA(i, r.lev)
                    THEN "ok" ELSE "disjoint-sets"
              [] r.what = "phi_chain" ->
                    IF Len(o.sets) = r.n /\ \A i \in 1..r.n : NoDup(o.sets[i]) /\ SeqSet(o.sets[i]) = SmPhi(i)
                    THEN "ok" ELSE "polynomial-ranges"
              [] r.what = "count" -> IF o.num = <<SmCount(r.d, r.n)>> THEN "ok" ELSE "count"
              [] OTHER -> "malformed-event"
SmIndsClause(r) ==
    LET o == r.obs
    IN IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF ~NoDup(o.inds) THEN "duplicate-index"
       ELSE IF SeqSet(o.inds) # SmInds(r.mu) THEN "index-set"
       ELSE "ok"
\* o.inds, o.pinds, o.cube, o.grid: sequences of tuples (grids as angle indices)
SmGridClause(r) ==
    LET o == r.obs
        g == TLCEval(SmGrid(r.mu, r.lev))
    IN IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.off # <<>> THEN "node-off-lattice"
       ELSE IF ~NoDup(o.inds) \/ SeqSet(o.inds) # SmInds(r.mu) THEN "index-set"
       ELSE IF ~NoDup(o.pinds) \/ SeqSet(o.pinds) # SmPolys(r.mu) THEN "polynomial-set"
       ELSE IF ~NoDup(o.cube) THEN "duplicate-node"
       ELSE IF SeqSet(o.cube) # g THEN "grid-nodes"
       ELSE IF o.grid # o.cube THEN "bounds"
       ELSE IF Len(o.cube) # Len(o.pinds) THEN "not-square"
       ELSE "ok"
\* Chebyshev tables: o.num is (n+1) x points
SmChebClause(r) ==
    LET o == r.obs
        K == Len(r.c)
        C(i, x) == (IF r.kind = 1 THEN ChebT(i, x, r.m) ELSE ChebU(i, x, r.m)) * Pow(r.m, r.n - i)
    IN IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # <<r.n + 1>> \o r.sh THEN "shape"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E i \in 0..r.n : \E k \in 1..K : o.num[i * K + k] # C(i, r.c[k]) THEN "value"
       ELSE "ok"
\* basis matrix at rational points: o.num is points x polys, columns labelled by o.pinds
SmBClause(r) ==
    LET o   == r.obs
        deg == SmDeg(r.mu)
        N   == Len(o.pinds)
    IN IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # <<Len(r.c), N>> THEN "shape"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF ~NoDup(o.pinds) \/ SeqSet(o.pinds) # SmPolys(r.mu) THEN "polynomial-set"
       ELSE IF \E i \in 1..Len(r.c) : \E j \in 1..N :
                 o.num[(i - 1) * N + j] # TNum([x \in 1..Len(r.mu) |-> o.pinds[j][x] - 1], r.c[i], r.m, 0, deg) THEN "value"
       ELSE "ok"

(***************************************************************************)
(* Interpolants: the abstract object holds its grid and its polynomial,    *)
(* as degree/coefficient pairs.                                            *)
(***************************************************************************)
PolyNum(terms, c, m, v, deg) == SumSeq([t \in 1..Len(terms) |-> terms[t].c * TNum(terms[t].k, c, m, v, deg)])
SmTermsOK(mu, terms) == \A t \in 1..Len(terms) : Len(terms[t].k) = Len(mu) /\ InSpace(terms[t].k, mu)
\* r.flags: <<interp, deriv, deriv_th, deriv_X>>; parts of the observation appear in that order
\* r.deg, when present: a smaller homogenising degree that covers the polynomial held (finer points)
SmEvalClause(obj, r) ==
    LET o   == r.obs
        deg == IF "deg" \in DOMAIN r THEN r.deg ELSE SmDeg(obj.mu)
        d   == Len(obj.mu)
        n   == Len(r.c)
        parts == { i \in 1..4 : r.flags[i] }
        np  == Cardinality(SmPolys(obj.mu))
        val(i)    == PolyNum(obj.terms, r.c[i], r.m, 0, deg)
        der(i, v) == PolyNum(obj.terms, r.c[i], r.m, v, deg)
    IN IF ~SmTermsOK(obj.mu, obj.terms) \/ parts = {} THEN "malformed-event"
       ELSE IF "deg" \in DOMAIN r /\ (r.flags[3] \/ \E t \in 1..Len(obj.terms) : SumSeq(obj.terms[t].k) > r.deg) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.single # (Cardinality(parts) = 1) THEN "result-kind"
       ELSE IF o.count # Cardinality(parts) THEN "result-count"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF r.flags[1] /\ o.vshape # <<n>> THEN "shape"
       ELSE IF r.flags[2] /\ o.dshape # <<n, d>> THEN "shape-gradient"
       ELSE IF r.flags[3] /\ o.tshape # <<n, np>> THEN "shape-theta"
       ELSE IF r.flags[4] /\ o.xshape # <<n, np>> THEN "shape-values"
       ELSE IF o.off # <<>> THEN "value-off-lattice:" \o o.off[1]
       ELSE IF r.flags[1] /\ \E i \in 1..n : o.v[i] # val(i) THEN "value"
       ELSE IF r.flags[2] /\ \E i \in 1..n : \E v \in 1..d : o.dv[(i - 1) * d + v] # der(i, v) THEN "gradient"
       ELSE IF r.flags[3] /\ \E i \in 1..n : \E j \in 1..np :
                 o.th[(i - 1) * np + j] # TNum([x \in 1..d |-> o.pinds[j][x] - 1], r.c[i], r.m, 0, deg) THEN "theta-map"
       ELSE IF r.flags[4] /\ \E i \in 1..n : o.xv[i] # val(i) THEN "value-map"
       ELSE "ok"
\* arbitrary integer values on the grid are reproduced at the grid points
SmNodesClause(r) ==
    LET o == r.obs
    IN IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF Len(o.num) # Cardinality(SmGrid(r.mu, MaxSeq(r.mu))) THEN "shape"
       ELSE IF o.off # <<>> \/ \E i \in 1..Len(o.num) : o.num[i] # At(r.val, i - 1) THEN "node-value"
       ELSE "ok"
=============================================================================
