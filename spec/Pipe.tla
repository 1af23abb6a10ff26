-------------------------------- MODULE Pipe ---------------------------------
(***************************************************************************)
(* A whole experiment: a source video goes through video operators, the    *)
(* transform and the selection of wavevectors into a correlator.  Every    *)
(* stage is the operator of its own module; stages only hand on finished   *)
(* multi-frames, so the result is their composition, whatever stages in    *)
(* between just look at the video or move it to another thread.            *)
(***************************************************************************)
EXTENDS MultiTau
V == INSTANCE VideoOps
F == INSTANCE FftOps

\* multi-frames that reach the transform
Shown(cfg) == V!Length(cfg.ops, Len(cfg.src))
Rows(f) == [p \in 1..f.s[1] |-> [q \in 1..f.s[2] |-> <<f.v[(p - 1) * f.s[2] + q], 0>>]]
Transformed(cfg, f) ==
    CASE cfg.mode = "none" -> Rows(f)
      [] cfg.mode = "fft2" -> F!CropFull(F!Fft2(Rows(f)), cfg.ki, cfg.kj)
      [] cfg.mode = "rfft2" -> F!CropHalf(F!Rfft2(Rows(f)), cfg.ki, cfg.kj)
FlatRows(x) == [i \in 1..(Len(x) * Len(x[1])) |-> x[((i - 1) \div Len(x[1])) + 1][((i - 1) % Len(x[1])) + 1]]
\* spectra[k][c]: numbers of camera c in multi-frame k
Spectra(cfg) ==
    TLCEval([k \in 1..Shown(cfg) |->
        LET fs == V!Run(cfg.ops, cfg.src[k], k, 1) IN
        [c \in DOMAIN fs |-> FlatRows(Transformed(cfg, fs[c]))]])
\* what the correlator sees of camera c: pixel-major real and imaginary parts of the selected points
Chosen(cfg, n) == IF cfg.kmask = <<>> THEN [i \in 1..n |-> i]
                  ELSE SelectSeq([i \in 1..n |-> i], LAMBDA i : cfg.kmask[i] = 1)
Part(cfg, sp, c, z, used) ==
    LET idx == Chosen(cfg, Len(sp[1][c])) IN
    TLCEval([p \in 1..Len(idx) |-> [k \in 1..used |-> sp[k][c][idx[p]][z]]])
\* sums of a level of T items with delays below n
LevelSums(T, n, auto, cplx, xr, xi, yr, yi) ==
    LET t == Regular(T)
        B == Bins(t, t, n, auto, cplx)
        All(Op(_)) == TLCEval([p \in DOMAIN xr |-> Op(p)])
    IN [count |-> BinCount(B),
        re |-> All(LAMBDA p : CorrRe(B, xr[p], xi[p], yr[p], yi[p])),
        im |-> All(LAMBDA p : CorrIm(B, xr[p], xi[p], yr[p], yi[p])),
        diff |-> All(LAMBDA p : DiffSq(B, xr[p], xi[p], yr[p], yi[p]))]
=============================================================================
