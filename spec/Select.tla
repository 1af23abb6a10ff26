------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* Averages over the wavevectors of one ring and sector.  A request e has  *)
(* mode, plane size h x w, frame shape sh, sector edges lo and hi, ring    *)
(* width step, and the mask of computed wavevectors.                       *)
(***************************************************************************)
EXTENDS MapOps
Abs(x) == IF x < 0 THEN -x ELSE x
NAN == 2000000002
Ix(n) == 0..(n - 1)

Value(e, x, i, j) == IF e.mode = "fft2" \/ j < Cols(x) THEN At(x, i, j) ELSE LET z == At(x, Neg(i, e.h), Neg(j, e.w)) IN
                     [t \in DOMAIN z |-> Conj(z[t])]
Masked(e, i, j) == IF e.mode = "fft2" \/ j < Cols(e.mask) THEN At(e.mask, i, j) = 0 ELSE At(e.mask, Neg(i, e.h), Neg(j, e.w)) = 0
VecAt(e, i, j) == Vec(i, j, e.h, e.w, e.sh)
Chosen(e, m) == { p \in Ix(e.h) \X Ix(e.w) :
                    /\ ~Masked(e, p[1], p[2])
                    /\ m \in Index(VecAt(e, p[1], p[2]), VDen(e.sh), e.step, e.lo, e.hi) }
\* no wavevector on an edge or a border: the selection is certain
Certain(e) == \A i \in Ix(e.h), j \in Ix(e.w) : Cardinality(Index(VecAt(e, i, j), VDen(e.sh), e.step, e.lo, e.hi)) = 1
IsNan(z) == z[1] = NAN \/ z[2] = NAN
\* one delay t of one data set x: mean over the valid values of the chosen wavevectors (out is 1000 times it)
MeanOk(e, x, C, t, o) ==
    LET V == { p \in C : ~IsNan(Value(e, x, p[1], p[2])[t]) }  n == Cardinality(V) IN
    IF n = 0 THEN o = <<NAN, NAN>>
    ELSE \A c \in 1..2 : Abs(o[c] * n - 1000 * SumSet(LAMBDA p : Value(e, x, p[1], p[2])[t][c], V)) <= n
KOk(e, C, kv) == Abs(kv * Cardinality(C) - SumSet(LAMBDA p : (ISqrt(10000 * Sq(VecAt(e, p[1], p[2]))) * 10) \div VDen(e.sh), C)) <= 12 * Cardinality(C)
=============================================================================
