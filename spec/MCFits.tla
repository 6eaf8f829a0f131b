------------------------------- MODULE MCFits -------------------------------
(***************************************************************************)
(* Fitted objects over any history of fits (with damping), value updates   *)
(* and evaluations.  A fit is an abstract vector; damping a/b mixes it with*)
(* the previous coefficients.  The implementation fields hold exact        *)
(* numerators over a common power of the damping denominator.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Fits, Damps, MaxFits, Keep, Depth
VARIABLES coefs,   \* object -> [num, den] (num = -1000000: never fitted)
          trail,   \* object -> fits since the last undamped one, newest last
          count, h
vars == <<coefs, trail, count, h>>
Unset == [num |-> 0, den |-> 0]
Init == coefs = [o \in Objs |-> Unset] /\ trail = [o \in Objs |-> <<>>] /\ count = 0 /\ h = <<>>
More == ~Keep \/ Len(h) < Depth
Log(e) == h' = IF Keep THEN Append(h, e) ELSE h
Fit(o, f, a, b) ==      \* damping a/b
    /\ More /\ count < MaxFits
    /\ a # 0 => coefs[o] # Unset
    /\ coefs' = [coefs EXCEPT ![o] = IF a = 0 THEN [num |-> f, den |-> 1]
                                     ELSE [num |-> (b - a) * f * @.den + a * @.num, den |-> @.den * b]]
    /\ trail' = [trail EXCEPT ![o] = IF a = 0 THEN <<[f |-> f, a |-> 0, b |-> 1]>> ELSE Append(@, [f |-> f, a |-> a, b |-> b])]
    /\ count' = IF Keep THEN count ELSE count + 1
    /\ Log([a |-> "fit", o |-> o, f |-> f, p |-> a, q |-> b])
Eval(o) == /\ More /\ coefs[o] # Unset /\ Log([a |-> "eval", o |-> o]) /\ UNCHANGED <<coefs, trail, count>>
Next == \E o \in Objs : Eval(o) \/ \E f \in Fits, ab \in Damps : Fit(o, f, ab[1], ab[2])
Spec == Init /\ [][Next]_vars
\* closed form: weight of fit i is (1 - damp_i) times the product of later dampings
RECURSIVE Num(_, _), DenOf(_)
DenOf(t) == IF t = <<>> THEN 1 ELSE t[Len(t)].b * DenOf(SubSeq(t, 1, Len(t) - 1))
Num(t, d) == IF t = <<>> THEN 0
             ELSE LET l == t[Len(t)]
                      r == SubSeq(t, 1, Len(t) - 1)
                  IN (l.b - l.a) * l.f * DenOf(r) + l.a * Num(r, d)
Convex == \A o \in Objs : coefs[o] # Unset => coefs[o] = [num |-> Num(trail[o], 0), den |-> DenOf(trail[o])]
\* a convex combination stays between the fits it combines
Between == \A o \in Objs : coefs[o] # Unset =>
    /\ \E i \in 1..Len(trail[o]) : trail[o][i].f * coefs[o].den <= coefs[o].num
    /\ \E i \in 1..Len(trail[o]) : trail[o][i].f * coefs[o].den >= coefs[o].num
Emit == (Keep /\ Len(h) = Depth) => PrintT("HIST " \o ToJson(h))
DampSet == { <<0, 1>>, <<1, 2>>, <<1, 4>>, <<3, 4>>, <<1, 1>> }
DampNone == { <<0, 1>> }
=============================================================================
