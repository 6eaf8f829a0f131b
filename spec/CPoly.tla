-------------------------------- MODULE CPoly --------------------------------
(***************************************************************************)
(* Complete polynomials: monomials of total degree at most d in n          *)
(* variables.  A monomial is a non-decreasing sequence of variables.       *)
(* Arguments are z/q; basis numerators are over q^d (derivatives over      *)
(* q^(d-1), scaled to q^d).                                                *)
(***************************************************************************)
EXTENDS Lattice
\* all extensions of the monomial w, each followed by its own extensions
RECURSIVE Nest(_, _, _)
Nest(n, d, w) ==
    IF Len(w) >= d THEN <<>>
    ELSE LET last == w[Len(w)]
         IN Cat([j \in 1..(n - last + 1) |-> <<Append(w, last + j - 1)>> \o Nest(n, d, Append(w, last + j - 1))])
\* the basis: constant, the variables in order, then the products in nested order
Monomials(n, d) ==
    << <<>> >>
    \o (IF d >= 1 THEN [i \in 1..n |-> <<i>>] ELSE <<>>)
    \o Cat([i \in 1..n |-> Nest(n, d, <<i>>)])
Exponents(n, w) == [i \in 1..n |-> Cardinality({ k \in 1..Len(w) : w[k] = i })]
Binomial(a, b) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 1 ELSE (F(k - 1) * (a - k + 1)) \div k IN F(b)
NComplete(n, d) == Binomial(n + d, d)

RECURSIVE MonoVal(_, _)
MonoVal(w, z) == IF w = <<>> THEN 1 ELSE z[Head(w)] * MonoVal(Tail(w), z)
\* remove one occurrence of variable v
Drop1(w, v) == LET k == CHOOSE k \in 1..Len(w) : w[k] = v
               IN SubSeq(w, 1, k - 1) \o SubSeq(w, k + 1, Len(w))
Mult(w, v) == Cardinality({ k \in 1..Len(w) : w[k] = v })
\* numerator over q^d of the monomial (v = 0) or its derivative with respect to variable v, at z/q
BasisNum(w, v, z, q, d) ==
    IF v = 0 THEN MonoVal(w, z) * Pow(q, d - Len(w))
    ELSE IF Mult(w, v) = 0 THEN 0
    ELSE Mult(w, v) * MonoVal(Drop1(w, v), z) * Pow(q, d - Len(w) + 1)

\* r.z: sequence of observations, each a sequence of n integers; r.der: 0-based variable or -1
CPSupported(r) == r.d \in 0..5 /\ (r.der = -1 \/ r.der \in 0..(r.n - 1))
CPBasisClause(r) ==
    LET o  == r.obs
        ms == Monomials(r.n, r.d)
        N  == Len(ms)
        K  == Len(r.z)
        want(j, k) == BasisNum(ms[j], r.der + 1, r.z[k], r.q, r.d)
    IN IF ~CPSupported(r) THEN (IF o.st = "raised" THEN "ok" ELSE "unsupported-accepted")
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # (IF r.form = "vec" THEN <<N>> ELSE <<N, K>>) THEN "shape"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E j \in 1..N : \E k \in 1..K : o.num[(j - 1) * K + k] # want(j, k) THEN "basis-value"
       ELSE "ok"
CPCountClause(r) ==
    IF r.obs.st # "ok" THEN "outcome:" \o r.obs.st
    ELSE IF r.obs.num # <<NComplete(r.n, r.d)>> THEN "count" ELSE "ok"

(***************************************************************************)
(* Fitted objects.  The abstract object holds the coefficients in basis    *)
(* order as numerators over den (k columns, 0 for scalar values).          *)
(* A fit event carries the sampled polynomial as exponent/coefficient      *)
(* pairs; damping is damp[1]/damp[2].                                      *)
(***************************************************************************)
CPCols(k) == IF k = 0 THEN 1 ELSE k
\* terms: sequence of [e |-> exponents, c |-> coefficients per column]
CoefOf(terms, n, w, col) ==
    LET S == { t \in 1..Len(terms) : terms[t].e = Exponents(n, w) }
    IN IF S = {} THEN 0 ELSE terms[CHOOSE t \in S : TRUE].c[col]
CPFit(obj, r) ==
    LET ms  == Monomials(obj.n, obj.d)
        K   == CPCols(r.k)
        new == [i \in 1..(Len(ms) * K) |-> CoefOf(r.terms, obj.n, ms[((i - 1) \div K) + 1], ((i - 1) % K) + 1)]
        a   == r.damp[1]
        b   == r.damp[2]
    IN IF a = 0 THEN [obj EXCEPT !.k = r.k, !.den = 1, !.co = new]
       ELSE [obj EXCEPT !.den = obj.den * b,
                        !.co = [i \in 1..Len(new) |-> (b - a) * new[i] * obj.den + a * obj.co[i]]]
CPFitOK(obj, r) ==
    /\ \A t \in 1..Len(r.terms) : Len(r.terms[t].e) = obj.n /\ SumSeq(r.terms[t].e) <= obj.d
    /\ r.damp[1] = 0 \/ (obj.k = r.k /\ obj.co # <<>>)
CPFitClause(obj, r) ==
    LET o == r.obs
        n == CPFit(obj, r)
        N == Len(Monomials(obj.n, obj.d))
    IN IF ~CPFitOK(obj, r) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF r.den # n.den THEN "malformed-event"
       ELSE IF o.shape # (IF r.k = 0 THEN <<N>> ELSE <<N, r.k>>) THEN "shape"
       ELSE IF o.off # <<>> \/ o.num # n.co THEN "coefficients"
       ELSE "ok"
\* evaluation (der = -1) or partial derivative; r.z observations, argument z/q; numerators over den * q^d
CPEvalClause(obj, r) ==
    LET o  == r.obs
        ms == Monomials(obj.n, obj.d)
        K  == CPCols(obj.k)
        val(z, c) == SumSeq([j \in 1..Len(ms) |-> obj.co[(j - 1) * K + c] * BasisNum(ms[j], r.der + 1, z, r.q, obj.d)])
    IN IF obj.co = <<>> \/ r.den # obj.den * Pow(r.q, obj.d) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF o.shape # (IF r.form = "vec" THEN <<>> ELSE <<Len(r.z)>>) \o (IF obj.k = 0 THEN <<>> ELSE <<obj.k>>) THEN "shape"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E i \in 1..Len(r.z) : \E c \in 1..K : o.num[(i - 1) * K + c] # val(r.z[i], c) THEN "value"
       ELSE "ok"
=============================================================================
