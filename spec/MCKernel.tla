------------------------------ MODULE MCKernel ------------------------------
(***************************************************************************)
(* The batch evaluator as a state machine, one action per stage of the     *)
(* implementation's loop body (policy, locate, blend, store), explored     *)
(* exhaustively over a menu of calls.  The invariants relate it to the     *)
(* denotation in Splines and to the frame of the output array.             *)
(* The menu is dumped as JSON and replayed into the real code.             *)
(***************************************************************************)
EXTENDS Lattice, Json, IOUtils, SequencesExt
CONSTANT Calls          \* set of [dims, k, mode, orders, nx, arr, pts]
S == INSTANCE Splines WITH M <- 0

VARIABLES call, pc, n, x, cell, w, out
vars == <<call, pc, n, x, cell, w, out>>

Garbage == -999999
Width(c) == S!NComp(c.nx) * Len(S!OrdersOf(c.orders, Len(c.dims)))
Dim(c)   == Len(c.dims)

Init ==
    /\ call \in Calls
    /\ pc = "policy" /\ n = 1 /\ x = <<>> /\ cell = <<>> /\ w = <<>>
    /\ out = [i \in 1..(Len(call.pts) * Width(call)) |-> Garbage]

More == n <= Len(call.pts)
Row(i) == (n - 1) * Width(call) + i

\* constant policy: the row is zeroed as soon as one coordinate is out of range
ZeroRow ==
    /\ pc = "policy" /\ More
    /\ S!Zeroed(call.mode, call.dims, call.pts[n])
    /\ out' = [i \in DOMAIN out |-> IF i \in {Row(s) : s \in 1..Width(call)} THEN 0 ELSE out[i]]
    /\ n' = n + 1
    /\ UNCHANGED <<call, pc, x, cell, w>>
Project ==
    /\ pc = "policy" /\ More
    /\ ~S!Zeroed(call.mode, call.dims, call.pts[n])
    /\ x' = [i \in 1..Dim(call) |-> S!Coord(call.mode, call.dims[i], call.pts[n][i])]
    /\ pc' = "locate"
    /\ UNCHANGED <<call, n, cell, w, out>>

\* the implementation's own way of finding the cell: floor for uniform dimensions, left binary
\* search minus one for nonuniform ones, clamped to the first and last cell
CodeCell(g, p) ==
    IF g.t = "u" THEN Clamp((p - g.a) \div g.h, 0, g.n - 2)
    ELSE Clamp(Cardinality({ i \in 1..Len(g.x) : g.x[i] < p }) - 1, 0, Len(g.x) - 2)
Locate ==
    /\ pc = "locate"
    /\ cell' = [i \in 1..Dim(call) |-> CodeCell(call.dims[i], x[i])]
    /\ pc' = "blend"
    /\ UNCHANGED <<call, n, x, w, out>>
Blend ==
    /\ pc = "blend"
    /\ LET os == S!OrdersOf(call.orders, Dim(call))
       IN w' = [j \in 1..Len(os) |-> [i \in 1..Dim(call) |-> S!Weights(call.k, call.dims[i], cell[i], os[j][i], x[i])]]
    /\ pc' = "store"
    /\ UNCHANGED <<call, n, x, cell, out>>
Store ==
    /\ pc = "store"
    /\ LET no  == Len(w)
           csh == S!CoefShape(call.k, call.dims)
           nc  == S!NComp(call.nx)
           str == [i \in 1..Dim(call) |-> ProdSeq(SubSeq(csh, i + 1, Dim(call))) * nc]
       IN out' = [i \in DOMAIN out |->
                    IF i \in {Row(s) : s \in 1..Width(call)}
                    THEN LET s == i - Row(0) IN S!Red(w[((s - 1) % no) + 1], cell, str, call.arr, 1, (s - 1) \div no)
                    ELSE out[i]]
    /\ n' = n + 1
    /\ pc' = "policy"
    /\ x' = <<>> /\ cell' = <<>> /\ w' = <<>>
    /\ UNCHANGED call
Next == ZeroRow \/ Project \/ Locate \/ Blend \/ Store
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* rows already processed hold an admissible result, later rows are untouched
RowOf(i) == [s \in 1..Width(call) |-> out[(i - 1) * Width(call) + s]]
Admissible(i) ==
    LET R == S!PointResults(call.dims, call.k, call.mode, call.orders, call.arr, call.nx, call.pts[i])
    IN \A s \in 1..Width(call) : \E e \in R : e[s] = RowOf(i)[s]
\* only the row written last can have changed, so checking it in every state checks them all
Correct == (pc = "policy" /\ n > 1) => Admissible(n - 1)
Frame   == \A i \in 1..Len(call.pts) : i >= n => \A s \in 1..Width(call) : RowOf(i)[s] = Garbage
Rows    == [][\A i \in 1..Len(call.pts) : i < n => RowOf(i)' = RowOf(i)]_vars
\* the located cell is in range and contains the (projected) coordinate when that is inside
CellInv == (pc \in {"blend", "store"}) =>
    \A i \in 1..Dim(call) :
        /\ cell[i] \in 0..(Size(call.dims[i]) - 2)
        /\ Inside(call.dims[i], x[i]) => Node(call.dims[i], cell[i]) <= x[i] /\ x[i] <= Node(call.dims[i], cell[i] + 1)
\* weights of order zero sum to the denominator, derivatives to zero
Unity == (pc = "store") =>
    \A j \in 1..Len(w) : \A i \in 1..Dim(call) :
        SumSeq(w[j][i]) = IF S!OrdersOf(call.orders, Dim(call))[j][i] = 0 THEN S!Den(call.k, call.dims[i]) ELSE 0
Nearest == call.mode = "nearest" /\ pc # "policy" => \A i \in 1..Dim(call) : Inside(call.dims[i], x[i])

----------------------------------------------------------------------------
\* menus
U(a, h, m) == [t |-> "u", a |-> a, h |-> h, n |-> m]
NU(s, D)   == [t |-> "n", x |-> s, D |-> D]
Vals(sh, s) == [sh |-> sh, gen |-> <<s, 2 * s + 3, s + 1, 23, 11>>]
PtsOf(dims, mar) ==
    LET d == Len(dims)
        R(i) == (Lo(dims[i]) - mar)..(Hi(dims[i]) + mar)
    IN IF d = 1 THEN [j \in 1..Cardinality(R(1)) |-> <<Lo(dims[1]) - mar + j - 1>>]
       ELSE LET n2 == Cardinality(R(2))
            IN [j \in 1..(Cardinality(R(1)) * n2) |->
                 <<Lo(dims[1]) - mar + ((j - 1) \div n2), Lo(dims[2]) - mar + ((j - 1) % n2)>>]
MkCall(dims, k, mode, orders, nx, mar) ==
    [dims |-> dims, k |-> k, mode |-> mode, orders |-> orders, nx |-> nx, pts |-> PtsOf(dims, mar),
     arr |-> Vals(S!CoefShape(k, dims) \o (IF nx = 0 THEN <<>> ELSE <<nx>>), 5)]

D1 == { <<U(0, h, m)>> : h \in {1, 3}, m \in {2, 3, 5} } \cup { <<U(-2, 2, 4)>> }
N1 == { <<NU(<<0, 1>>, 1)>>, <<NU(<<0, 1, 3>>, 2)>>, <<NU(<<-1, 2, 3, 7>>, 12)>>, <<NU(<<0, 4, 5, 7, 8>>, 4)>> }
D2 == { <<U(0, 1, 2), U(0, 2, 3)>>, <<U(-1, 2, 3), U(1, 1, 2)>>, <<U(0, 3, 2), U(0, 1, 4)>> }
N2 == { <<NU(<<0, 1, 3>>, 2), U(0, 2, 3)>>, <<U(0, 2, 2), NU(<<-1, 0, 2>>, 2)>>, <<NU(<<0, 2, 3>>, 2), NU(<<0, 1>>, 1)>> }
DC1 == { <<U(0, h, m)>> : h \in {1, 2, 4}, m \in {2, 3, 4} }
DC2 == { <<U(0, 1, 2), U(0, 2, 3)>>, <<U(-1, 2, 3), U(1, 1, 2)>> }
AllModes == {"linear", "nearest", "constant"}

CallsLinear == { MkCall(dm, 1, "linear", <<>>, nx, 0) : dm \in D1 \cup N1 \cup D2 \cup N2, nx \in {0, 2} }
CallsPolicy == { MkCall(dm, 1, m, <<>>, nx, 3) : dm \in D1 \cup N1 \cup D2 \cup N2, m \in AllModes, nx \in {0, 2} }
        \cup { MkCall(dm, 3, m, <<>>, nx, 3) : dm \in DC1 \cup DC2, m \in AllModes, nx \in {0, 2} }
CallsCubic  == { MkCall(dm, 3, "linear", <<>>, nx, 0) : dm \in DC1 \cup DC2, nx \in {0, 2} }
O1 == { << <<1>> >>, << <<0>>, <<1>> >>, << <<1>>, <<0>>, <<1>> >> }
O2 == { << <<1, 0>>, <<0, 1>> >>, << <<0, 1>>, <<0, 0>>, <<1, 1>>, <<1, 0>> >> }
CallsDeriv  == { MkCall(dm, 1, m, o, nx, 2) : dm \in D1 \cup N1, m \in AllModes, nx \in {0, 2}, o \in O1 \cup {<< <<2>>, <<1>> >>} }
        \cup { MkCall(dm, 1, m, o, nx, 2) : dm \in D2 \cup N2, m \in AllModes, nx \in {0, 2}, o \in O2 \cup {<< <<1, 2>>, <<1, 1>> >>} }
        \cup { MkCall(dm, 3, m, o, nx, 2) : dm \in DC1, m \in AllModes, nx \in {0, 2}, o \in O1 }
        \cup { MkCall(dm, 3, m, o, nx, 2) : dm \in DC2, m \in AllModes, nx \in {0, 2}, o \in O2 }

CallsInterp == { MkCall(dm, 1, m, <<>>, 0, 2) : dm \in D1 \cup N1 \cup D2 \cup N2, m \in {"nearest", "linear"} }
CallsGrad   == { MkCall(dm, 3, "linear", << <<0>>, <<1>> >>, nx, 3) : dm \in DC1, nx \in {1, 2} }
        \cup { MkCall(dm, 3, "linear", << <<0, 0>>, <<1, 0>>, <<0, 1>> >>, nx, 2) : dm \in DC2, nx \in {1, 2} }

Dump == IF "GEN_FILE" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Calls)) ELSE TRUE
ASSUME Dump
=============================================================================
