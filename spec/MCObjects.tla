------------------------------ MODULE MCObjects ------------------------------
(***************************************************************************)
(* Spline objects over their whole life, at the level of the fields the    *)
(* implementation keeps: the stored values (a private copy or, with Alias, *)
(* the caller's array itself), the coefficients derived from them, the     *)
(* node list computed on first use.  Contents of arrays are abstract       *)
(* version numbers.  `rep' is the specification: what was last accepted.   *)
(* With Keep, the history is recorded and printed for replay; without it   *)
(* the whole reachable state graph is explored.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Arrays, MaxVer, Alias, Keep, Depth, Lazy
VARIABLES cont,    \* array -> current version of its contents
          store,   \* object -> stored values: none, copy of a version, or reference to an array
          coef,    \* object -> version the coefficients were computed from (0: none)
          cache,   \* object -> node list computed
          rep,     \* object -> last accepted version (0: no values, -1: not constructed)
          h
vars == <<cont, store, coef, cache, rep, h>>
None == [t |-> "none", v |-> 0]
Copy(v) == [t |-> "copy", v |-> v]
Ref(a)  == [t |-> "ref", v |-> a]
Init == /\ cont = [a \in Arrays |-> a]
        /\ store = [o \in Objs |-> None] /\ coef = [o \in Objs |-> 0]
        /\ cache = [o \in Objs |-> FALSE] /\ rep = [o \in Objs |-> -1] /\ h = <<>>
Log(e) == h' = IF Keep THEN Append(h, e) ELSE h
More == ~Keep \/ Len(h) < Depth
Alive(o) == rep[o] # -1
Put(o, a) == /\ store' = [store EXCEPT ![o] = IF Alias THEN Ref(a) ELSE Copy(cont[a])]
             /\ coef' = [coef EXCEPT ![o] = IF Lazy THEN 0 ELSE cont[a]]
             /\ rep' = [rep EXCEPT ![o] = cont[a]]
New(o, a) ==   \* a = 0: without values; constructing again replaces the object
    /\ More
    /\ cache' = [cache EXCEPT ![o] = FALSE]
    /\ IF a = 0 THEN /\ store' = [store EXCEPT ![o] = None] /\ coef' = [coef EXCEPT ![o] = 0]
                     /\ rep' = [rep EXCEPT ![o] = 0]
       ELSE Put(o, a)
    /\ Log([a |-> "new", o |-> o, v |-> a]) /\ UNCHANGED cont
Set(o, a) ==
    /\ More /\ Alive(o) /\ Put(o, a)
    /\ Log([a |-> "set", o |-> o, v |-> a]) /\ UNCHANGED <<cont, cache>>
Bad(o, a, why) ==      \* rejected before anything is stored
    /\ More /\ Alive(o)
    /\ Log([a |-> "bad", o |-> o, v |-> a, why |-> why]) /\ UNCHANGED <<cont, store, coef, cache, rep>>
Mut(a) ==
    /\ More /\ cont[a] < MaxVer
    /\ cont' = [cont EXCEPT ![a] = cont[a] + Cardinality(Arrays)]
    /\ Log([a |-> "mut", v |-> a]) /\ UNCHANGED <<store, coef, cache, rep>>
Held(o) == IF store[o].t = "ref" THEN cont[store[o].v] ELSE store[o].v
Eval(o) ==
    /\ More /\ Alive(o) /\ rep[o] # 0
    /\ coef' = [coef EXCEPT ![o] = IF coef[o] = 0 THEN Held(o) ELSE coef[o]]
    /\ Log([a |-> "eval", o |-> o]) /\ UNCHANGED <<cont, store, cache, rep>>
Grid(o) ==
    /\ More /\ Alive(o)
    /\ cache' = [cache EXCEPT ![o] = TRUE]
    /\ Log([a |-> "grid", o |-> o]) /\ UNCHANGED <<cont, store, coef, rep>>
Next == \/ \E o \in Objs : \/ \E a \in Arrays \cup {0} : New(o, a)
                           \/ \E a \in Arrays : Set(o, a) \/ \E w \in {"size", "nonfinite"} : Bad(o, a, w)
                           \/ Eval(o) \/ Grid(o)
        \/ \E a \in Arrays : Mut(a)
Spec == Init /\ [][Next]_vars
\* what an evaluation would return now
Returned(o) == IF coef[o] # 0 THEN coef[o] ELSE Held(o)
LastAccepted == \A o \in Objs : rep[o] > 0 => Returned(o) = rep[o] /\ (store[o] # None => Held(o) = rep[o])
\* nothing that happens to one object or array changes another object
Private == [][\A o \in Objs : rep'[o] # rep[o] => \E a \in Arrays \cup {0} :
                 h' # h \/ rep'[o] = (IF a = 0 THEN 0 ELSE cont[a])]_vars
Emit == (Keep /\ Len(h) = Depth) => PrintT("HIST " \o ToJson(h))
=============================================================================
