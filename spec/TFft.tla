-------------------------------- MODULE TFft --------------------------------
(***************************************************************************)
(* Trace validation of Fourier transforms of videos.                       *)
(***************************************************************************)
EXTENDS FftOps, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, d) == /\ Len(a) = Len(b)
                 /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= d

Can(mode, h, w, e) == IF mode = "rfft2" THEN CanCropHalf(h, w, e.ki, e.kj) ELSE CanCropFull(h, w, e.ki, e.kj)
Crop(mode, x, e) == IF mode = "rfft2" THEN CropHalf(x, e.ki, e.kj) ELSE CropFull(x, e.ki, e.kj)
Transform(mode, x) == IF mode = "rfft2" THEN Rfft2(x) ELSE Fft2(x)
Cols(mode, w) == IF mode = "rfft2" THEN w \div 2 + 1 ELSE w

\* normalisation to the zero component d: x * conj(d) / |d|^2, times 8
NormFft(x) == LET d == x[1][1]  m == d[1] * d[1] + d[2] * d[2] IN
              [p \in 1..H(x) |-> [q \in 1..W(x) |-> LET z == CMul(x[p][q], Conj(d)) IN <<(8 * z[1]) \div m, (8 * z[2]) \div m>>]]

\* the image shown for a transform, times 5040
Part(mode, z) == CASE mode = "real" -> z[1] [] mode = "imag" -> z[2]
                   [] mode = "abs" -> CHOOSE m \in 0..400 : m * m = z[1] * z[1] + z[2] * z[2]
RECURSIVE MaxUpTo(_, _)
MaxUpTo(F(_), n) == IF n = 1 THEN F(1) ELSE LET a == MaxUpTo(F, n - 1) IN IF F(n) > a THEN F(n) ELSE a
Shift(y) == [p \in 1..H(y) |-> y[((p - 1 - (H(y) \div 2)) % H(y)) + 1]]
Image(x, mode, clip) ==
    LET f == Rfft2(x)  h == H(f)  w == W(f)
        y == [p \in 1..h |-> [q \in 1..w |-> IF p = 1 /\ q = 1 THEN 0 ELSE Part(mode, f[p][q])]]
        at(n) == y[(n - 1) \div w + 1][((n - 1) % w) + 1]
        m == IF clip = 0 THEN MaxUpTo(at, h * w) ELSE clip
        lim(v) == IF v < 0 THEN 0 ELSE IF v > 5040 THEN 5040 ELSE v
        pix(v) == IF mode = "abs" THEN lim((5040 * v) \div m) ELSE lim((2520 * v) \div m + 2520)
    IN Shift([p \in 1..h |-> [q \in 1..w |-> pix(y[p][q])]])

Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "crop" ->
            LET h == Len(e.x[1])  w == Len(e.x[1][1])  ok == Can(e.mode, h, w, e) IN
            IF e.raised = 1 THEN Clause("refused", ~ok)
            ELSE IF ~ok THEN {"not-refused"}
            ELSE Clause("coefficients", e.out = [i \in DOMAIN e.x |-> Crop(e.mode, e.x[i], e)])
                 \cup Clause("shape", e.lead = 1) \cup Clause("dtype", e.dt = e.dt0) \cup Clause("input-modified", e.same = 1)
      [] e.k = "video" ->
            LET ok == Len(e.x) = 0 \/ Can(e.mode, Len(e.x[1][1]), Cols(e.mode, Len(e.x[1][1][1])), e) IN
            IF e.raised = 1 THEN Clause("refused", ~ok)
            ELSE IF ~ok THEN {"not-refused"}
            ELSE Clause("length", Len(e.out) = Len(e.x))
                 \cup Clause("transform", e.out = [k \in DOMAIN e.x |-> [c \in DOMAIN e.x[k] |-> Crop(e.mode, Transform(e.mode, e.x[k][c]), e)]])
                 \cup Clause("dtype", e.dt = 1) \cup Clause("input-modified", e.same = 1)
                 \cup Clause("lookahead", e.ahead = 0)
      [] e.k = "libs" -> Clause("library-dependent", Near(e.a, e.b, 1)) \cup Clause("input-modified", e.same = 1)
      [] e.k = "normfft" -> Clause("normalised", e.out = [k \in DOMAIN e.x |-> [c \in DOMAIN e.x[k] |-> NormFft(e.x[k][c])]])
                            \cup Clause("inplace", e.src = IF e.inplace = 1 THEN e.out ELSE
                                    [k \in DOMAIN e.x |-> [c \in DOMAIN e.x[k] |-> [p \in DOMAIN e.x[k][c] |-> [q \in DOMAIN e.x[k][c][p] |->
                                        <<8 * e.x[k][c][p][q][1], 8 * e.x[k][c][p][q][2]>>]]]])
                            \cup Clause("dtype", e.dt = e.wantdt)
      [] e.k = "image" -> Clause("image", e.out = Image(e.x, e.mode, e.clip))
      [] e.k = "imagemode" -> Clause("refused", (e.raised = 1) = (e.mode \notin {"real", "imag", "abs"}))
      [] e.k = "shown" -> Clause("image", e.im = [k \in DOMAIN e.x |-> Image(e.x[k], e.mode, e.clip)])
                          \cup Clause("passed-on", e.ok = 1)
      [] e.k = "dls" -> Clause("filtered", e.out = [i \in DOMAIN e.kv |->
                            LET y == Dls(e.x, e.win, e.kv[i]) IN
                            IF e.one = 1 THEN <<<<CSum(LAMBDA m : y[(m - 1) \div W(y) + 1][((m - 1) % W(y)) + 1], H(y) * W(y))>>>> ELSE y])
                        \cup Clause("input-modified", e.same = 1)

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1])
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
