----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* Which inputs the constructors and evaluators accept.                    *)
(*                                                                         *)
(* A dimension argument is described by                                    *)
(*   [c |-> "tuple", t |-> types, cmp |-> "lt"|"eq"|"gt"|"nan", n |-> node *)
(*     count] (types: sequence over "f64" "i64" "f32" "i32" "bool" "str"   *)
(*     "none"),                                                            *)
(*   [c |-> "array", nd |-> ndim, len |-> length of the first dimension],  *)
(*   [c |-> "other"].                                                      *)
(***************************************************************************)
EXTENDS Lattice
GoodTuple(a) == a.c = "tuple" /\ a.t = <<"f64", "f64", "i64">> /\ a.cmp = "lt" /\ a.n >= 2
GoodArray(a) == a.c = "array" /\ a.nd = 1 /\ a.len >= 2
AcceptsGrid(kind, args) ==
    \A i \in 1..Len(args) : IF kind = "UCGrid" THEN GoodTuple(args[i]) ELSE GoodTuple(args[i]) \/ GoodArray(args[i])
\* o.same: for every returned dimension the position of the equal argument, 0 when there is none
GridCtorClause(r) ==
    LET o == r.obs
    IN IF AcceptsGrid(r.kind, r.args)
       THEN IF o.st # "ok" THEN "well-formed-refused"
            ELSE IF o.kind # "tuple" \/ o.same # [i \in 1..Len(r.args) |-> i] THEN "dimensions-changed" ELSE "ok"
       ELSE IF o.st = "raised" THEN "ok" ELSE "ill-formed-accepted"

\* cubic spline objects: la, lb, lo lengths of the bounds and node counts; vals, point: what is given
ObjAccepts(r) ==
    /\ r.la = r.lb /\ r.la = r.lo
    /\ r.vals \in {"ok", "flat", "none"}
    /\ r.point \in {"ok", "none"}
ObjCtorClause(r) ==
    LET o == r.obs
    IN IF ObjAccepts(r) THEN (IF o.st = "ok" THEN "ok" ELSE "well-formed-refused")
       ELSE IF o.st = "raised" THEN "ok" ELSE "ill-formed-accepted"

\* Smolyak grids: d, mu as sequence, iso, sizes of the bounds (-1: default, 0: scalar)
SmAccepts(r) ==
    /\ r.d >= 2
    /\ \A i \in 1..Len(r.mu) : r.mu[i] >= 1
    /\ r.iso \/ Len(r.mu) = r.d
    /\ r.nlb \in {-1, 0, r.d} /\ r.nub \in {-1, 0, r.d}
SmCtorClause(r) ==
    LET o == r.obs
    IN IF SmAccepts(r) THEN (IF o.st = "ok" THEN "ok" ELSE "well-formed-refused")
       ELSE IF o.st = "raised" THEN "ok" ELSE "ill-formed-accepted"
=============================================================================
