------------------------------ MODULE Hermite ------------------------------
(***************************************************************************)
(* Piecewise cubic Hermite interpolation on an increasing grid x, with     *)
(* values y and tangents m (in value units per coordinate unit).  Results  *)
(* are numerators over L^3, where every gap divides L.                     *)
(***************************************************************************)
EXTENDS Lattice
HGapsOK(x, L) == Len(x) >= 2 /\ \A i \in 1..(Len(x) - 1) : x[i + 1] > x[i] /\ L % (x[i + 1] - x[i]) = 0
\* index of the cell to the right of which p does not lie: x[c] < p <= x[c+1], interior points only
HCell(x, p) == CHOOSE c \in 1..(Len(x) - 1) : x[c] < p /\ p <= x[c + 1]
HCellValue(y0, y1, m0, m1, h, u, f) ==      \* times L^3 = (h f)^3
    LET u2 == u * u
        u3 == u2 * u
        f3 == f * f * f
    IN f3 * (y0 * (2 * u3 - 3 * u2 * h + h * h * h) + m0 * h * (u3 - 2 * u2 * h + u * h * h)
             + y1 * (3 * u2 * h - 2 * u3) + m1 * h * (u3 - u2 * h))
\* derivative times L^3 (in value units per coordinate unit)
HCellSlope(y0, y1, m0, m1, h, u, f) ==
    LET f3 == f * f * f
    IN f3 * (y0 * (6 * u * u - 6 * u * h) + m0 * h * (3 * u * u - 4 * u * h + h * h)
             + y1 * (6 * u * h - 6 * u * u) + m1 * h * (3 * u * u - 2 * u * h))
HValue(x, y, m, L, p) ==
    IF p <= x[1] THEN y[1] * L * L * L
    ELSE IF p >= x[Len(x)] THEN y[Len(x)] * L * L * L
    ELSE LET c == HCell(x, p)
             h == x[c + 1] - x[c]
         IN HCellValue(y[c], y[c + 1], m[c], m[c + 1], h, p - x[c], L \div h)

HermiteClause(r) ==
    LET o == r.obs
    IN IF ~HGapsOK(r.x, r.L) \/ Len(r.y) # Len(r.x) \/ Len(r.m) # Len(r.x) THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.shape # (IF r.form = "scalar" THEN <<>> ELSE <<Len(r.pts)>>) THEN "shape"
       ELSE IF o.frame # <<>> THEN "frame"
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E n \in 1..Len(r.pts) : o.num[n] # HValue(r.x, r.y, r.m, r.L, r.pts[n]) THEN "value"
       ELSE "ok"
\* the cell cubic and the basis by themselves
HermiteCellClause(r) ==
    LET o == r.obs
        h == r.x[2] - r.x[1]
    IN IF h <= 0 \/ r.L # h THEN "malformed-event"
       ELSE IF o.st # "ok" THEN "outcome:" \o o.st
       ELSE IF o.off # <<>> THEN "value-off-lattice"
       ELSE IF \E n \in 1..Len(r.pts) :
                 o.num[n] # HCellValue(r.y[1], r.y[2], r.m[1], r.m[2], h, r.pts[n] - r.x[1], 1) THEN "value"
       ELSE "ok"
=============================================================================
