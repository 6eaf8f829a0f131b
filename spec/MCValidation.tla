---------------------------- MODULE MCValidation ----------------------------
(***************************************************************************)
(* The grid constructors check their arguments one at a time and stop at   *)
(* the first ill-formed one.  Explored for every argument list of the menu;*)
(* the outcome is acceptance exactly of lists of well-formed dimensions.   *)
(***************************************************************************)
EXTENDS Validation, Json, IOUtils, SequencesExt
CONSTANT MaxArgs
VARIABLES kind, args, i, outcome
vars == <<kind, args, i, outcome>>
T(ty, c, m) == [c |-> "tuple", t |-> ty, cmp |-> c, n |-> m]
FFI == <<"f64", "f64", "i64">>
\* one representative per way of being well or ill formed
Menu == { T(FFI, c, m) : c \in {"lt", "eq", "gt", "nan", "nan2"}, m \in {-1, 0, 1, 2, 5} }
   \cup { T(ty, "lt", 5) : ty \in { <<"i64", "f64", "i64">>, <<"f64", "i64", "i64">>, <<"f64", "f64", "f64">>, <<"f64", "f64">>,
                                   <<"f64", "f64", "i64", "i64">>, <<"f32", "f64", "i64">>, <<"f64", "f64", "i32">>,
                                   <<"str", "f64", "i64">>, <<"f64", "f64", "none">>, <<"bool", "f64", "i64">>, <<"f64", "f64", "bool">> } }
   \cup { [c |-> "array", nd |-> nd, len |-> ln] : nd \in {1, 2, 3}, ln \in {1, 2, 5} } \cup { [c |-> "array", nd |-> 0, len |-> 0], [c |-> "array", nd |-> 1, len |-> 0] }
   \cup { [c |-> "other"] }
Good == { T(FFI, "lt", 2), T(FFI, "lt", 5), [c |-> "array", nd |-> 1, len |-> 2], [c |-> "array", nd |-> 1, len |-> 5] }
\* every single argument, and every argument in every position among well-formed ones
Lists == { <<a>> : a \in Menu } \cup { <<>> }
   \cup UNION { { [j \in 1..m |-> IF j = k THEN a ELSE g] : a \in Menu, g \in Good, k \in 1..m } : m \in 2..MaxArgs }
Init == kind \in {"UCGrid", "CGrid"} /\ args \in Lists /\ i = 1 /\ outcome = "open"
One(a) ==
    IF kind = "UCGrid" \/ a.c # "array"
    THEN a.c = "tuple" /\ a.t = FFI /\ a.cmp = "lt" /\ a.n > 1
    ELSE a.nd = 1 /\ a.len >= 2
Check == /\ outcome = "open" /\ i <= Len(args)
         /\ IF One(args[i]) THEN i' = i + 1 /\ UNCHANGED outcome ELSE outcome' = "raised" /\ UNCHANGED i
         /\ UNCHANGED <<kind, args>>
Return == outcome = "open" /\ i > Len(args) /\ outcome' = "ok" /\ UNCHANGED <<kind, args, i>>
Next == Check \/ Return
Spec == Init /\ [][Next]_vars
Correct == /\ outcome = "ok" => AcceptsGrid(kind, args)
           /\ outcome = "raised" => ~AcceptsGrid(kind, args)
Dump == IF "GEN_FILE" \in DOMAIN IOEnv
        THEN ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq({ [kind |-> k, args |-> l] : k \in {"UCGrid", "CGrid"}, l \in Lists })) ELSE TRUE
ASSUME Dump
=============================================================================
