------------------------------- MODULE MCCart -------------------------------
(***************************************************************************)
(* The repeat loops that fill the table of a cartesian product, one write  *)
(* per step, for every shape in Shapes and both orders.  When the loops    *)
(* end the table is the enumeration of Enum; every combination occurs      *)
(* exactly once; no cell is written twice.                                 *)
(***************************************************************************)
EXTENDS Enum, Json, IOUtils, SequencesExt
CONSTANTS MaxDim, MaxSize
VARIABLES sh, order, i, n, k, l, out
vars == <<sh, order, i, n, k, l, out>>

Shapes == UNION { [1..d -> 1..MaxSize] : d \in 1..MaxDim }
D == Len(sh)
Total == ProdSeq(sh)
Empty == 0
Init ==
    /\ sh \in Shapes /\ order \in {"C", "F"}
    /\ i = 1 /\ n = 0 /\ k = 0 /\ l = 0
    /\ out = [r \in 0..(ProdSeq(sh) - 1) |-> [j \in 1..Len(sh) |-> Empty]]
\* number of times each node is repeated in the outer loop
K == IF order = "C" THEN ProdSeq(SubSeq(sh, 1, i - 1)) ELSE ProdSeq(SubSeq(sh, i + 1, D))
L == Total \div (K * sh[i])
Ind == k * sh[i] * L + n * L + l
Write ==
    /\ i <= D
    /\ out' = [out EXCEPT ![Ind][i] = n + 1]
    /\ IF l + 1 < L THEN l' = l + 1 /\ UNCHANGED <<n, k, i>>
       ELSE /\ l' = 0
            /\ IF k + 1 < K THEN k' = k + 1 /\ UNCHANGED <<n, i>>
               ELSE /\ k' = 0
                    /\ IF n + 1 < sh[i] THEN n' = n + 1 /\ UNCHANGED i
                       ELSE n' = 0 /\ i' = i + 1
    /\ UNCHANGED <<sh, order>>
Spec == Init /\ [][Write]_vars

Fresh == [][i <= D => out[Ind][i] = Empty]_vars
Nodes == [j \in 1..D |-> [m \in 1..sh[j] |-> m]]
Done  == i > D
Correct == Done => \A r \in 0..(Total - 1) : out[r] = EnumPoint(Nodes, order, r)
Once    == Done => Cardinality({ out[r] : r \in 0..(Total - 1) }) = Total
\* the position of a node is the position of its entry in the flattened values array
Storage == (Done /\ order = "C") => \A r \in 0..(Total - 1) : Ravel(sh, [j \in 1..D |-> out[r][j] - 1]) = r

Dump == IF "GEN_FILE" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Shapes)) ELSE TRUE
ASSUME Dump
=============================================================================
