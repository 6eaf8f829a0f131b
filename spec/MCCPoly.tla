------------------------------- MODULE MCCPoly -------------------------------
(***************************************************************************)
(* The nested loops that fill the basis (and derivative basis) vector, one *)
(* monomial per step, with the loop indices as an explicit stack, the      *)
(* occurrence counter and the running factors of the derivative.           *)
(***************************************************************************)
EXTENDS CPoly, Json, IOUtils, SequencesExt
CONSTANTS NV, MaxD
VARIABLES n, d, der, z, w, ix, out, phase
vars == <<n, d, der, z, w, ix, out, phase>>
Points(k) == { [i \in 1..k |-> i + 1], [i \in 1..k |-> IF i % 2 = 0 THEN 0 ELSE -i] }
Init ==
    /\ n \in NV /\ d \in 0..MaxD /\ der \in 0..n /\ z \in Points(n)
    /\ w = <<>> /\ ix = 0 /\ out = <<>> /\ phase = "first"
\* value stored for the stack w of loop indices
Cnt(s) == Cardinality({ k \in 1..Len(s) : s[k] = der })
Fac(s) == ProdSeq([k \in 1..Len(s) |-> IF s[k] = der THEN 1 ELSE z[s[k]]])
Stored(s) ==
    IF der = 0 THEN ProdSeq([k \in 1..Len(s) |-> z[s[k]]])
    ELSE IF Cnt(s) > 0 THEN Cnt(s) * Fac(s) * Pow(z[der], Cnt(s) - 1) ELSE 0
First ==
    /\ phase = "first"
    /\ out' = <<Stored(<<>>)>> \o (IF d >= 1 THEN [i \in 1..n |-> Stored(<<i>>)] ELSE <<>>)
    /\ ix' = n
    /\ phase' = IF d <= 1 THEN "done" ELSE "loop"
    /\ w' = <<1, 1>>
    /\ UNCHANGED <<n, d, der, z>>
\* successor of a stack in the nested loops: deeper, else next value at the innermost level that has one
RECURSIVE Advance(_)
Advance(s) == IF s = <<>> THEN <<>>
              ELSE IF s[Len(s)] < n THEN [s EXCEPT ![Len(s)] = s[Len(s)] + 1]
              ELSE Advance(SubSeq(s, 1, Len(s) - 1))
Succ(s) ==
    LET t == IF Len(s) < d THEN Append(s, s[Len(s)]) ELSE Advance(s)
    IN IF Len(t) = 1 THEN <<t[1], t[1]>> ELSE t     \* a new outermost index opens its second loop at once
Loop ==
    /\ phase = "loop"
    /\ ix' = ix + 1
    /\ out' = Append(out, Stored(w))
    /\ w' = Succ(w)
    /\ phase' = IF Succ(w) = <<>> THEN "done" ELSE "loop"
    /\ UNCHANGED <<n, d, der, z>>
Next == First \/ Loop
Spec == Init /\ [][Next]_vars

Index == phase = "loop" => Len(out) = ix + 1
Correct == phase = "done" => out = [j \in 1..NComplete(n, d) |-> BasisNum(Monomials(n, d)[j], der, z, 1, d)]
\* the specified order lists every exponent vector of total degree at most d once
Total(e) == SumSeq(e)
AllExp(k, m) == { e \in [1..k -> 0..m] : Total(e) <= m }
Complete == phase = "done" =>
    LET ms == Monomials(n, d)
    IN /\ Len(ms) = NComplete(n, d)
       /\ { Exponents(n, ms[j]) : j \in 1..Len(ms) } = AllExp(n, d)
       /\ Cardinality(AllExp(n, d)) = Len(ms)
\* running count of the advertised length: sum over degrees of rising factorial over factorial
RECURSIVE Rising(_, _)
Rising(k, i) == IF i = 0 THEN 1 ELSE Rising(k, i - 1) * (k + i - 1)
RECURSIVE Fact(_)
Fact(i) == IF i = 0 THEN 1 ELSE i * Fact(i - 1)
CountLoop == phase = "done" => SumSeq([i \in 1..(d + 1) |-> Rising(n, i - 1) \div Fact(i - 1)]) = NComplete(n, d)

Dump == IF "GEN_FILE" \in DOMAIN IOEnv
        THEN ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq({ [n |-> a, d |-> b, der |-> c - 1, z |-> zz] :
               a \in NV, b \in 0..MaxD, c \in 0..5, zz \in {1, 2} })) ELSE TRUE
ASSUME Dump
=============================================================================
