------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The abstract state of a user session: arrays the user owns, arrays the  *)
(* library returned, spline / polynomial / Smolyak objects; and the effect *)
(* of every public call and of the user's in-place changes on that state.  *)
(*                                                                         *)
(*   arrays   [t |-> "arr", kind |-> "raw" | "nat" | "coef" | "pts" |      *)
(*             "grid", ...]  raw: integer node values of linear splines;   *)
(*             nat: values at the nodes of the natural cubic spline with   *)
(*             integer interior coefficients ci; coef: cubic coefficients; *)
(*             pts, grid: coordinates                                      *)
(*   objects  [t |-> "obj", cls, dims, nx, has, arr]: arr is the node      *)
(*             values (linear) or the coefficients (cubic) the object      *)
(*             represents                                                  *)
(*                                                                         *)
(* No call changes any array except a designated output, and no call       *)
(* except set_values changes what an object represents.                    *)
(***************************************************************************)
EXTENDS SplineClauses, Enum, CPoly, Smolyak

Known(st, n)  == n \in DOMAIN st
Put(st, n, v) == [x \in DOMAIN st \cup {n} |-> IF x = n THEN v ELSE st[x]]

IsCubic(cls) == cls \in {"CubicSpline", "CubicSplines"}
IsMulti(cls) == cls \in {"LinearSplines", "CubicSplines"}
Order(cls)   == IF IsCubic(cls) THEN 3 ELSE 1

\* the dimensions of a call agree with the live grid arrays and points it names
DimsMatch(st, r) ==
    /\ "grefs" \in DOMAIN r => \A i \in 1..Len(r.dims) :
         r.grefs[i] # "" => Known(st, r.grefs[i]) /\ st[r.grefs[i]].kind = "grid" /\ r.dims[i].x = st[r.grefs[i]].x
    /\ ("pref" \in DOMAIN r /\ r.pref # "") => Known(st, r.pref) /\ st[r.pref].kind = "pts" /\ r.pts = st[r.pref].pts

\* functional evaluation of a live coefficient array
SEvalClause(st, r) ==
    IF ~Known(st, r.C) \/ st[r.C].kind # (IF r.k = 3 THEN "coef" ELSE "raw") \/ ~DimsMatch(st, r) THEN "malformed-event"
    ELSE EvalClause(r, st[r.C].arr)
\* functional prefiltering of a live natural-value array: exact coefficients
SFilterClause(st, r) ==
    LET o == r.obs
    IN IF ~Known(st, r.V) \/ st[r.V].kind # "nat" THEN "malformed-event"
       ELSE LET want == TLCEval(Z!ExtCoefs(st[r.V].ci, r.nsh, r.nx))
            IN IF o.st # "ok" THEN "outcome:" \o o.st
               ELSE IF o.shape # want.sh THEN "shape"
               ELSE IF o.frame # <<>> THEN "frame"
               ELSE IF o.off # <<>> \/ o.num # want.flat THEN "coefficients"
               ELSE "ok"
UserClause(r) == IF r.obs.st # "ok" THEN "outcome:" \o r.obs.st
                 ELSE IF r.obs.frame # <<>> THEN "frame" ELSE "ok"

\* assignment of values: accepted unless r.bad names a reason for rejection
SetOK(st, cls, dims, r) ==
    r.V = "" \/ (Known(st, r.V) /\ st[r.V].kind = (IF IsCubic(cls) THEN "nat" ELSE "raw"))
SetOutcome(r) ==
    IF r.obs.frame # <<>> THEN "frame"
    ELSE IF r.bad = "" THEN (IF r.obs.st = "ok" THEN "ok" ELSE "outcome:" \o r.obs.st)
    ELSE IF r.obs.st = "raised" THEN "ok" ELSE "rejectable-accepted"
Represented(st, cls, dims, v) ==
    IF IsCubic(cls) THEN Z!ExtCoefs(st[v].ci, NSh(dims), IF IsMulti(cls) THEN st[v].nx ELSE 0) ELSE st[v].arr
OEvalClause(st, r) ==
    IF ~Known(st, r.name) THEN "malformed-event"
    ELSE LET ob == st[r.name]
         IN IF ~ob.has \/ r.dims # ob.dims \/ r.k # Order(ob.cls) \/ r.nx # ob.nx \/ ~DimsMatch(st, r) THEN "malformed-event"
            ELSE EvalClause(r, ob.arr)
OGradClause(st, r) ==
    IF ~Known(st, r.name) THEN "malformed-event"
    ELSE LET ob == st[r.name]
         IN IF ~ob.has \/ r.dims # ob.dims \/ r.nx # ob.nx \/ ob.cls # "CubicSplines" THEN "malformed-event"
            ELSE GradClause(r, ob.arr)
OGridClause(st, r) ==
    IF ~Known(st, r.name) \/ r.nodes # [i \in 1..Len(st[r.name].dims) |-> DimNodes(st[r.name].dims[i])]
       \/ r.cols # ~IsCubic(st[r.name].cls) THEN "malformed-event"
    ELSE EnumClause(r)

SessionOps == {"reset", "user", "scribble", "seval", "sfilter", "onew", "oset", "oeval", "ograd", "ogrid",
               "cpnew", "cpfit", "cpeval", "smnew", "smupd", "smeval"}
SessionClause(st, r) ==
    CASE r.op = "reset"   -> "ok"
      [] r.op = "user"    -> UserClause(r)
      [] r.op = "scribble" -> UserClause(r)      \* overwriting a result changes nothing else
      [] r.op = "seval"   -> SEvalClause(st, r)
      [] r.op = "sfilter" -> SFilterClause(st, r)
      [] r.op = "onew"    -> IF ~SetOK(st, r.cls, r.dims, r) THEN "malformed-event" ELSE SetOutcome(r)
      [] r.op = "oset"    -> IF ~Known(st, r.name) \/ ~SetOK(st, st[r.name].cls, st[r.name].dims, r) THEN "malformed-event"
                             ELSE SetOutcome(r)
      [] r.op = "oeval"   -> OEvalClause(st, r)
      [] r.op = "ograd"   -> OGradClause(st, r)
      [] r.op = "ogrid"   -> OGridClause(st, r)
      [] r.op = "cpnew"   -> UserClause(r)
      [] r.op = "cpfit"   -> IF ~Known(st, r.name) THEN "malformed-event" ELSE CPFitClause(st[r.name], r)
      [] r.op = "cpeval"  -> IF ~Known(st, r.name) THEN "malformed-event" ELSE CPEvalClause(st[r.name], r)
      [] r.op = "smnew"   -> IF ~SmTermsOK(r.mu, r.terms) THEN "malformed-event" ELSE UserClause(r)
      [] r.op = "smupd"   -> IF ~Known(st, r.name) \/ ~SmTermsOK(st[r.name].mu, r.terms) THEN "malformed-event" ELSE UserClause(r)
      [] r.op = "smeval"  -> IF ~Known(st, r.name) THEN "malformed-event" ELSE SmEvalClause(st[r.name], r)

\* the abstract state after the call
SessionNext(st, r) ==
    CASE r.op = "reset"   -> [x \in {} |-> 0]
      [] r.op = "user"    -> Put(st, r.name, r.v)
      [] r.op = "sfilter" -> IF Known(st, r.V) /\ st[r.V].kind = "nat"
                             THEN Put(st, r.res, [t |-> "arr", kind |-> "coef", arr |-> TLCEval(Z!ExtCoefs(st[r.V].ci, r.nsh, r.nx))])
                             ELSE st
      [] r.op = "onew"    ->
            IF r.V = "" \/ r.bad # ""
            THEN IF r.bad # "" THEN st
                 ELSE Put(st, r.name, [t |-> "obj", cls |-> r.cls, dims |-> r.dims, has |-> FALSE, nx |-> 0, arr |-> <<>>])
            ELSE Put(st, r.name, [t |-> "obj", cls |-> r.cls, dims |-> r.dims, has |-> TRUE, nx |-> st[r.V].nx,
                                  arr |-> TLCEval(Represented(st, r.cls, r.dims, r.V))])
      [] r.op = "oset"    ->
            IF r.bad # "" \/ ~Known(st, r.name) THEN st
            ELSE Put(st, r.name, [st[r.name] EXCEPT !.has = TRUE, !.nx = st[r.V].nx,
                                  !.arr = TLCEval(Represented(st, st[r.name].cls, st[r.name].dims, r.V))])
      [] r.op = "cpnew"   -> Put(st, r.name, [t |-> "cp", n |-> r.n, d |-> r.d, k |-> 0, den |-> 1, co |-> <<>>])
      [] r.op = "cpfit"   -> IF Known(st, r.name) /\ CPFitOK(st[r.name], r) THEN Put(st, r.name, CPFit(st[r.name], r)) ELSE st
      [] r.op = "smnew"   -> Put(st, r.name, [t |-> "sm", mu |-> r.mu, terms |-> r.terms])
      [] r.op = "smupd"   -> IF Known(st, r.name) THEN Put(st, r.name, [st[r.name] EXCEPT !.terms = r.terms]) ELSE st
      [] OTHER -> st
=============================================================================
