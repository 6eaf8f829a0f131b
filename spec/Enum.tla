-------------------------------- MODULE Enum --------------------------------
(***************************************************************************)
(* Enumerations of cartesian grids.  nodes is a sequence of coordinate     *)
(* sequences, one per dimension.                                           *)
(***************************************************************************)
EXTENDS Lattice

NodeCounts(nodes) == [i \in 1..Len(nodes) |-> Len(nodes[i])]
EnumSize(nodes)   == ProdSeq(NodeCounts(nodes))
\* multi-index of the k-th point: last index fastest ("C") or first index fastest ("F")
RECURSIVE FStride(_, _)
FStride(sh, i) == IF i = 1 THEN 1 ELSE sh[i - 1] * FStride(sh, i - 1)
EnumIndex(sh, order, k) ==
    IF order = "C" THEN Unravel(sh, k)
    ELSE [i \in 1..Len(sh) |-> (k \div FStride(sh, i)) % sh[i]]
EnumPoint(nodes, order, k) ==
    LET ix == EnumIndex(NodeCounts(nodes), order, k)
    IN [i \in 1..Len(nodes) |-> nodes[i][ix[i] + 1]]
DimNodes(g) == [i \in 1..Size(g) |-> Node(g, i - 1)]

\* observed: rows (or columns) of coordinates
EnumClause(r) ==
    LET o == r.obs
        n == EnumSize(r.nodes)
        d == Len(r.nodes)
        cols == r.cols
        sh == NodeCounts(r.nodes)
        At2(k, i) == IF cols THEN o.num[(i - 1) * n + k + 1] ELSE o.num[k * d + i]
    IN IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # (IF cols THEN <<d, n>> ELSE <<n, d>>) THEN "shape"
       ELSE IF o.off # <<>> THEN "node-off-lattice"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF \E k \in 0..(n - 1) : LET p == EnumPoint(r.nodes, r.order, k)
                                     IN \E i \in 1..d : At2(k, i) # p[i] THEN "node-order"
       ELSE "ok"
=============================================================================
