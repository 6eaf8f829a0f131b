------------------------------ MODULE Clauses ------------------------------
(***************************************************************************)
(* The interface specification as total verdicts: Clause(store, r) is "ok"  *)
(* or the name of the violated clause for the observed call r in abstract  *)
(* state `store`; NextStore is the abstract state after it.                *)
(***************************************************************************)
EXTENDS Session, Hermite, Validation
BZ == INSTANCE BBasis WITH M <- 0
BP1 == INSTANCE BBasis WITH M <- 46337
BP2 == INSTANCE BBasis WITH M <- 46327

EmptyStore == [x \in {} |-> 0]

BSplineClause(r) ==
    LET o == r.obs
        want(x) == IF r.ring = "z" THEN BZ!BNum(r.u, r.p, r.i, x) ELSE <<BP1!BNum(r.u, r.p, r.i, x), BP2!BNum(r.u, r.p, r.i, x)>>
    IN IF r.i + r.p + 2 > Len(r.u) \/ \E j \in 1..(Len(r.u) - 1) : r.u[j] >= r.u[j + 1] THEN "malformed-event"
       ELSE IF r.den # (IF r.ring = "z" THEN <<BZ!BDen(r.u, r.p)>> ELSE <<BP1!BDen(r.u, r.p), BP2!BDen(r.u, r.p)>>) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E n \in 1..Len(r.pts) : o.num[n] # want(r.pts[n]) THEN "value"
       ELSE "ok"

Clause(store, r) ==
    CASE r.op \in SessionOps -> SessionClause(store, r)
      [] r.op = "eval"     -> EvalClause(r, r.arr)
      [] r.op = "affine"   -> AffineClause(r)
      [] r.op = "far"      -> FarClause(r, r.arr)
      [] r.op = "grad"     -> GradClause(r, r.arr)
      [] r.op = "filter"   -> FilterClause(r)
      [] r.op = "comp"     -> CompClause(r)
      [] r.op = "gradcomp" -> GradCompClause(r)
      [] r.op = "nodes"    -> NodesClause(r)
      [] r.op = "enum"     -> EnumClause(r)
      [] r.op = "hermite"  -> HermiteClause(r)
      [] r.op = "hcell"    -> HermiteCellClause(r)
      [] r.op = "bspline"  -> BSplineClause(r)
      [] r.op = "cpbasis"  -> CPBasisClause(r)
      [] r.op = "cpcount"  -> CPCountClause(r)
      [] r.op = "smblock"  -> SmBlockClause(r)
      [] r.op = "sminds"   -> SmIndsClause(r)
      [] r.op = "smgrid"   -> SmGridClause(r)
      [] r.op = "smcheb"   -> SmChebClause(r)
      [] r.op = "smB"      -> SmBClause(r)
      [] r.op = "smnodes"  -> SmNodesClause(r)
      [] r.op = "gridctor" -> GridCtorClause(r)
      [] r.op = "objctor"  -> ObjCtorClause(r)
      [] r.op = "smctor"   -> SmCtorClause(r)
      [] OTHER -> "unknown-op"

NextStore(store, r) == IF r.op \in SessionOps THEN SessionNext(store, r) ELSE store
=============================================================================
