------------------------------ MODULE MCSmolyak ------------------------------
(***************************************************************************)
(* Construction of Smolyak index sets: sorted combinations are visited one *)
(* at a time, each is expanded by the next-permutation generator, and      *)
(* anisotropic limits filter the result; nested sets are built by halving. *)
(***************************************************************************)
EXTENDS Smolyak, Json, IOUtils, SequencesExt
CONSTANTS MaxMuOf          \* dimension -> largest density
VARIABLES mu, todo, cur, inds, pc, level, rest, achain
vars == <<mu, todo, cur, inds, pc, level, rest, achain>>
D == Len(mu)
MuS == UNION { [1..dd -> 1..MaxMuOf[dd]] : dd \in DOMAIN MaxMuOf }
Sorted(c) == \A i \in 1..(Len(c) - 1) : c[i] <= c[i + 1]
Combos(m) == { c \in [1..Len(m) -> 1..(MaxSeq(m) + 1)] :
                 Sorted(c) /\ Len(m) < SumSeq(c) /\ SumSeq(c) <= Len(m) + MaxSeq(m) }
Res(m) == MaxSeq(m)          \* resolution: 2^MaxSeq(m) angle steps
Lex(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
LexSeq(S) == SetToSortSeq(S, Lex)
Init ==
    /\ mu \in MuS
    /\ todo = LexSeq(Combos(mu)) /\ cur = <<>> /\ inds = <<>> /\ pc = "next"
    /\ level = MaxSeq(mu) + 1
    /\ rest = [i \in 1..(Pow(2, MaxSeq(mu)) + 1) |-> i - 1]     \* all angles, in order
    /\ achain = [i \in {1, 2} |-> IF i = 1 THEN {Pow(2, Res(mu) - 1)} ELSE {0, Pow(2, Res(mu))}]
Admit(c) == \A i \in 1..D : c[i] <= mu[i] + 1
Take ==
    /\ pc = "next" /\ todo # <<>>
    /\ cur' = Head(todo) /\ todo' = Tail(todo)
    /\ inds' = IF Admit(Head(todo)) THEN Append(inds, Head(todo)) ELSE inds
    /\ pc' = "permute"
    /\ UNCHANGED <<mu, level, rest, achain>>
Pivots(c) == { i \in 1..(Len(c) - 1) : c[i] < c[i + 1] }
SetMax(S) == CHOOSE s \in S : \A t \in S : t <= s
NextPerm(c) ==
    LET i == SetMax(Pivots(c))
        j == SetMax({ t \in (i + 1)..Len(c) : c[t] > c[i] })
        s == [c EXCEPT ![i] = c[j], ![j] = c[i]]
    IN [t \in 1..Len(c) |-> IF t <= i THEN s[t] ELSE s[Len(c) + i + 1 - t]]
Permute ==
    /\ pc = "permute"
    /\ IF Pivots(cur) = {} THEN pc' = "next" /\ UNCHANGED <<cur, inds>>
       ELSE /\ cur' = NextPerm(cur)
            /\ inds' = IF Admit(NextPerm(cur)) THEN Append(inds, NextPerm(cur)) ELSE inds
            /\ pc' = "permute"
    /\ UNCHANGED <<mu, todo, level, rest, achain>>
Finish ==
    /\ pc = "next" /\ todo = <<>>
    /\ inds' = Append(inds, [i \in 1..D |-> 1])
    /\ pc' = "halve"
    /\ UNCHANGED <<mu, todo, cur, level, rest, achain>>
\* odd positions of the current set are the new nodes of this level, even positions go on
Halve ==
    /\ pc = "halve" /\ level > 2
    /\ achain' = [i \in DOMAIN achain \cup {level} |->
                    IF i = level THEN { rest[j] : j \in { t \in 1..Len(rest) : t % 2 = 0 } } ELSE achain[i]]
    /\ rest' = [j \in 1..((Len(rest) + 1) \div 2) |-> rest[2 * j - 1]]
    /\ level' = level - 1
    /\ UNCHANGED <<mu, todo, cur, inds, pc>>
Next == Take \/ Permute \/ Finish \/ Halve
Spec == Init /\ [][Next]_vars

Done == pc = "halve" /\ level = 2
NoDupInds == pc = "halve" => NoDup(inds)
IndexSet  == pc = "halve" => SeqSet(inds) = SmInds(mu)
Chain     == Done => \A i \in 1..(MaxSeq(mu) + 1) : achain[i] = SmA(i, Res(mu))
\* the grid is a disjoint union, as large as the polynomial basis
Disjoint  == Done =>
    LET g == TLCEval(SmGrid(mu, Res(mu)))
    IN /\ Cardinality(g) = SumSeq([t \in 1..Len(inds) |-> ProdSeq([i \in 1..D |-> Cardinality(SmA(inds[t][i], Res(mu)))])])
       /\ Cardinality(g) = Cardinality(SmPolys(mu))
       /\ \A t \in g : \A i \in 1..D : t[i] \in 0..Pow(2, Res(mu))
\* basis polynomials have admissible degree vectors
Space     == Done => \A t \in SmPolys(mu) : InSpace([i \in 1..D |-> t[i] - 1], mu)
\* closed formulas of the isotropic counts
Iso == \A i \in 1..D : mu[i] = mu[1]
Counts == (Done /\ Iso) =>
    /\ mu[1] = 1 => SmCount(D, 1) = 2 * D + 1
    /\ mu[1] = 2 => SmCount(D, 2) = 1 + 4 * D + 2 * D * (D - 1)
    /\ mu[1] = 3 => SmCount(D, 3) = 1 + 8 * D + 6 * D * (D - 1) + (8 * D * (D - 1) * (D - 2)) \div 6

Mm == [dd \in {2, 3, 4} |-> IF dd = 2 THEN 4 ELSE IF dd = 3 THEN 3 ELSE 2]
MmT == [dd \in {2, 3, 4, 5} |-> IF dd = 2 THEN 5 ELSE IF dd = 3 THEN 4 ELSE IF dd = 4 THEN 3 ELSE 2]
Dump == IF "GEN_FILE" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(MuS)) ELSE TRUE
ASSUME Dump
=============================================================================
