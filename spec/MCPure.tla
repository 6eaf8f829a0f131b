------------------------------- MODULE MCPure -------------------------------
(***************************************************************************)
(* Functional calls in a session.  Arrays hold abstract contents; each     *)
(* call compiles (once per signature) and then reads its arguments.  The   *)
(* caller may overwrite its own arrays in place, replace an array by a new *)
(* one (which may well live at the address of the old one), and overwrite  *)
(* arrays the library returned.  `last' is the result of the last call and *)
(* the contents it should depend on.                                       *)
(*   Sticky: a compiled specialisation remembers contents                  *)
(*   Memo:   results are kept by contents of the arguments and shared      *)
(*   ById:   results are kept by identity of the arguments                 *)
(* - three kinds of hidden state the property excludes (negative controls).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Coefs, Vals, Points, Grids, Sigs, MaxVer, Sticky, Memo, ById, Keep, Depth
VARIABLES cont, out, compiled, last, kept, h
vars == <<cont, out, compiled, last, kept, h>>
Arrays == Coefs \cup Vals \cup Points \cup Grids
Outs == {"outA"}
Nothing == [want |-> <<>>, got |-> <<>>]
Init == /\ cont = [a \in Arrays |-> 0] /\ out = [b \in Outs |-> <<>>]
        /\ compiled = [s \in Sigs |-> <<>>] /\ last = Nothing
        /\ kept = {} /\ h = <<>>
More == ~Keep \/ Len(h) < Depth
Log(e) == h' = IF Keep THEN Append(h, e) ELSE h
Mut(a) == /\ More /\ cont[a] < MaxVer /\ cont' = [cont EXCEPT ![a] = @ + 1]
          /\ \E w \in {"inplace", "renew"} : Log([a |-> "mut", n |-> a, w |-> w])
          /\ UNCHANGED <<out, compiled, last, kept>>
Reads(c, p, g) == <<c, cont[c], p, cont[p], g, cont[g]>>
Ids(c, p, g) == <<c, p, g>>
Call(s, c, p, g, b) ==
    /\ More
    /\ LET now  == Reads(c, p, g)
           key  == IF ById THEN <<s, Ids(c, p, g)>> ELSE <<s, now>>
           hit  == { k \in kept : k.key = key }
           used == IF Sticky /\ compiled[s] # <<>> THEN compiled[s]
                   ELSE IF (Memo \/ ById) /\ hit # {} THEN (CHOOSE k \in hit : TRUE).res ELSE now
       IN /\ last' = [want |-> now, got |-> used]
          /\ compiled' = [compiled EXCEPT ![s] = IF @ = <<>> THEN now ELSE @]
          /\ kept' = IF (Memo \/ ById) /\ hit = {} THEN kept \cup {[key |-> key, res |-> now, cur |-> TRUE]} ELSE kept
          /\ out' = IF b \in Outs THEN [out EXCEPT ![b] = used] ELSE out
    /\ Log([a |-> "eval", s |-> s, c |-> c, p |-> p, g |-> g, b |-> b]) /\ UNCHANGED cont
Filter(v, b) ==
    /\ More
    /\ last' = [want |-> <<v, cont[v]>>, got |-> <<v, cont[v]>>]
    /\ Log([a |-> "filter", v |-> v, b |-> b]) /\ UNCHANGED <<cont, out, compiled, kept>>
\* the caller overwrites the array the last call returned (x > 1: one returned earlier)
Scribble(x) ==
    /\ More /\ last # Nothing /\ (x > 1 => Keep)
    /\ kept' = { IF Memo /\ k.res = last.got THEN [k EXCEPT !.res = <<"overwritten">>] ELSE k : k \in kept }
    /\ last' = IF x = 1 THEN Nothing ELSE last
    /\ Log([a |-> "scribble", x |-> x]) /\ UNCHANGED <<cont, out, compiled>>
\* the same call once more: the contents of its arguments may have changed since
Again(x) ==
    /\ More /\ Keep /\ h # <<>>
    /\ LET J == { j \in 1..Len(h) : h[j].a \in {"eval", "filter"} }
       IN /\ J # {}
          /\ LET j == CHOOSE j \in J : \A i \in J : i <= j
             IN h' = Append(h, [h[j] EXCEPT !.b = IF x > 2 THEN "new" ELSE @])
    /\ UNCHANGED <<cont, out, compiled, last, kept>>
Next == \/ \E a \in Arrays : Mut(a)
        \/ \E s \in Sigs, c \in Coefs, p \in Points, g \in Grids, b \in Outs \cup {"new"} : Call(s, c, p, g, b)
        \/ \E v \in Vals, b \in {"new", "outF"} : Filter(v, b)
        \/ \E x \in 1..4 : Scribble(x)
        \/ \E x \in 1..4 : Again(x)
Spec == Init /\ [][Next]_vars
Pure == last.got = last.want
\* calls change no array but the designated output
Frame == [][(\E a \in Arrays : cont'[a] # cont[a]) => last' = last /\ out' = out]_vars
Emit == (Keep /\ Len(h) = Depth) => PrintT("HIST " \o ToJson(h))
=============================================================================
