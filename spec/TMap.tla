-------------------------------- MODULE TMap --------------------------------
(***************************************************************************)
(* Trace validation of wavevector maps and selections.                     *)
(***************************************************************************)
EXTENDS Select, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
\* values of the plane under an element's index in a list of planes
Each(P, F(_)) == [k \in DOMAIN P |-> F(P[k])]

\* self-conjugate entries of a half plane: they must be consistent to be recoverable
Fits(b, f) == \A i \in Ix(Rows(b)), j \in Ix(Cols(b)) : At(f, i, j) = At(b, i, j)

SelectOk(e, m, r) == LET C == Chosen(e, m) IN
    IF r = <<>> THEN {}
    ELSE Clause("k-average", KOk(e, C, r.k))
         \cup Clause("data-average", \A i \in DOMAIN e.x : \A t \in DOMAIN r.out[i] : MeanOk(e, e.x[i], C, t, r.out[i][t]))
\* the requested indices for which there is data, in order
Present(e) == SelectSeq(e.want, LAMBDA m : Chosen(e, m) # {})

Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "half" -> Clause("half", e.out = Each(e.x, Half)) \cup Clause("input-modified", e.same = 1) \cup Clause("dtype", e.dt = 1)
      [] e.k = "conj" -> Clause("conjugate-half", e.out = Each(e.x, LAMBDA a : ConjHalf(a, e.none)))
                         \cup Clause("input-modified", e.same = 1) \cup Clause("dtype", e.dt = 1)
      [] e.k = "mask" -> LET Or(a, b) == Table(Rows(a), Cols(a), LAMBDA i, j : IF At(a, i, j) = <<1, 0>> \/ At(b, i, j) = <<1, 0>> THEN <<1, 0>> ELSE <<0, 0>>) IN
                         Clause("half-mask", e.out = Each(e.x, LAMBDA a : Or(Half(a), ConjHalf(a, <<0, 0>>)))) \cup Clause("input-modified", e.same = 1)
      [] e.k = "full" ->
            LET kis == Rows(e.x[1])  kjs == Cols(e.x[1]) IN
            IF e.raised = 1 THEN Clause("refused", ~ShapeOk(kis, kjs, e.sh[1], e.sh[2]))
            ELSE IF ~ShapeOk(kis, kjs, e.sh[1], e.sh[2]) THEN {"not-refused"}
            ELSE Clause("full", e.out = Each(e.x, LAMBDA a : Full(a, FullWidth(kjs, e.sh[2]))))
                 \cup Clause("input-modified", e.same = 1) \cup Clause("dtype", e.dt = 1)
      [] e.k = "shape" -> IF e.raised = 1 THEN Clause("refused", ~ShapeOk(e.kis, e.kjs, e.sh[1], e.sh[2]))
                          ELSE IF ~ShapeOk(e.kis, e.kjs, e.sh[1], e.sh[2]) THEN {"not-refused"}
                          ELSE Clause("shape", e.out = <<FullHeight(e.kis, e.sh[1]), FullWidth(e.kjs, e.sh[2])>>)
      [] e.k = "grid" ->   \* coordinates, moduli and directions, times VDen
            IF e.raised = 1 THEN Clause("refused", e.known = 0)
            ELSE IF e.known = 0 THEN {"not-refused"}
            ELSE LET V == Table(e.h, e.cols, LAMBDA i, j : IF e.mode = "fft2" THEN Vec(i, j, e.h, e.cols, e.sh)
                                                       ELSE LET f == Vec(i, 0, e.h, 1, e.sh) IN <<j * (IF e.sh[1] = 0 THEN 1 ELSE e.sh[1]), f[2]>>) IN
                 Clause("grid", e.grid = Table(e.h, e.cols, LAMBDA i, j : <<-At(V, i, j)[2], At(V, i, j)[1]>>))
                 \cup Clause("modulus", e.k2 = Table(e.h, e.cols, LAMBDA i, j : Sq(At(V, i, j))))
                 \cup Clause("angle", e.dir = V)
      [] e.k = "index" ->
            IF e.raised = 1 THEN {"refused"}
            ELSE Clause("shape", Rows(e.out) = e.h /\ \A p \in DOMAIN e.out : Len(e.out[p]) = e.cols)
                 \cup Clause("index", \A i \in Ix(Rows(e.out)), j \in Ix(Cols(e.out)) :
                     At(e.out, i, j) \in
                       IF e.mode = "half"
                       THEN IF j = 0 /\ i > e.h \div 2 THEN {-1}
                            ELSE IndexHalf(LET f == Vec(i, 0, e.h, 1, e.sh) IN <<j * (IF e.sh[1] = 0 THEN 1 ELSE e.sh[1]), f[2]>>, VDen(e.sh), e.step, e.lo, e.hi)
                       ELSE Index(Vec(i, j, e.h, e.cols, e.sh), VDen(e.sh), e.step, e.lo, e.hi))
      [] e.k = "range" -> Clause("refused", (e.raised = 1) = (e.angle < -e.lim \/ e.angle > e.lim \/ e.sector <= 0 \/ e.sector > 180))
      [] e.k = "tiles" -> Clause("partition", \A i \in Ix(e.h), j \in Ix(e.w) :
                             (i + j > 0 /\ ~(e.mode = "half" /\ j = 0 /\ 2 * i = e.h)) =>     \* that column is its own opposite
                                 At(e.out, i, j) = IF e.mode = "half" /\ j = 0 /\ 2 * i > e.h THEN 0 ELSE 1)
                          \cup Clause("centre", At(e.out, 0, 0) = e.n)
      [] e.k = "select" ->
            Clause("harness", Certain(e))
            \cup Clause("input-modified", e.same = 1)
            \cup LET P == Present(e) IN
                 IF Len(e.out) # Len(P) THEN {"rings"}
                 ELSE UNION { SelectOk(e, P[q], e.out[q]) : q \in DOMAIN P }
      [] e.k = "point" -> Clause("plane-wave", e.out = Table(e.h, e.w, LAMBDA i, j :
                             LET n == (i * e.ki * (4 \div e.h) + j * e.kj * (4 \div e.w)) % 4  g == e.win[i + 1][j + 1] IN
                             CASE n = 0 -> <<g, 0>> [] n = 1 -> <<0, -g>> [] n = 2 -> <<-g, 0>> [] n = 3 -> <<0, g>>)) \cup Clause("input-modified", e.same = 1)
      [] e.k = "plot" -> IF e.raised = 1 THEN Clause("refused", e.mode \notin {"rfft2", "fft2"})
                         ELSE LET h == Rows(e.x)  w == Cols(e.x)
                                  B == IF e.mode = "rfft2" THEN 0 ELSE w \div 2 IN
                              Clause("not-refused", e.mode \in {"rfft2", "fft2"})
                              \cup Clause("image", e.out = Table(h, w, LAMBDA i, j : At(e.x, (i - h \div 2) % h, (j - B) % w)))

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1])
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
