-------------------------------- MODULE TSim --------------------------------
(***************************************************************************)
(* Trace validation of simulated experiments.                              *)
(***************************************************************************)
EXTENDS Sim, TLC, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}

\* where the particles are at step k: recorded, or walked from the start
Where(e, k) == IF e.pos # <<>> THEN e.pos[k + 1]
               ELSE [p \in DOMAIN e.x0 |-> At(k, e.x0[p], e.v, e.field, e.dt[1], e.dt[2], e.box)]
\* camera 1 is displaced and turned, camera 2 is the reference
OnCamera1(e, k) == LET w == Where(e, k) IN [p \in DOMAIN w |-> Seen(w[p], e.shape, e.off, e.quarter)]
OnCamera2(e, k) == LET w == Where(e, k) IN [p \in DOMAIN w |-> Mirror(w[p], e.shape)]

VideoOk(e) ==
    LET n == IF e.dual = 1 THEN Delivered(e.t1, e.t2, e.n) ELSE Len(Reached(e.t1, e.n)) IN
    IF Len(e.out) # n THEN {"number-of-frames"}
    ELSE Clause("cameras", \A k \in 1..n : Len(e.out[k]) = 1 + e.dual)
         \cup Clause("camera-1", \A k \in 1..n : Shows(e.out[k][1], e.bg, OnCamera1(e, e.t1[k]), e.amps, e.sigma, e.shape))
         \cup Clause("camera-2", e.dual = 0 \/ \A k \in 1..n : Shows(e.out[k][2], e.bg, OnCamera2(e, e.t2[k]), e.amps, e.sigma, e.shape))
         \cup Clause("lookahead", e.reads = <<>> \/ \A k \in 1..n : e.reads[k] = IF e.dual = 1 THEN ReadFor(k, e.t1, e.t2) ELSE e.t1[k] + 1)
         \cup Clause("frame-type", e.types = 1)
         \cup Clause("input-modified", e.same = 1)
         \cup Clause("frames-change", e.kept = 1)

(* form factor: rms over the mesh of the spectrum of a spot, frames of 4 x 4 *)
Unit(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, -1>> [] n % 4 = 2 -> <<-1, 0>> [] n % 4 = 3 -> <<0, 1>>
SpotImage(e, p, up) == [i \in 1..4 |-> [j \in 1..4 |-> e.win[i][j] * Pixel(0, <<p>>, <<e.amp>>, e.sigma, i - 1, j - 1, <<4, 4>>, up)]]
Power(X, ki, kj) ==
    LET part(c) == SumOver(LAMBDA n : LET i == (n - 1) \div 4  j == (n - 1) % 4 IN X[i + 1][j + 1] * Unit(i * ki + j * kj)[c], 16)
    IN part(1) * part(1) + part(2) * part(2)
MeshPoint(e, n) == LET i == (n - 1) \div e.navg  j == (n - 1) % e.navg IN <<(i * 32) \div e.navg, (j * 32) \div e.navg>>
Sharp(e) == \A n \in 1..(e.navg * e.navg) : SpotImage(e, MeshPoint(e, n), TRUE) = SpotImage(e, MeshPoint(e, n), FALSE)
\* out is navg^2 times the squared result
FormOk(e) == \A ki \in 0..3 : \A kj \in 0..(e.cols - 1) :
    e.out[ki + 1][kj + 1] = SumOver(LAMBDA n : Power(SpotImage(e, MeshPoint(e, n), TRUE), ki, kj), e.navg * e.navg)

Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "walk" ->
            Clause("number-of-steps", Len(e.out) = e.count)
            \cup Clause("positions", \A k \in DOMAIN e.out : e.out[k] = Where(e, k - 1))
            \cup Clause("input-modified", e.same = 1)
      [] e.k = "box" -> Clause("number-of-particles", \A k \in DOMAIN e.out : Len(e.out[k]) = e.num)
                        \cup Clause("inside", \A k \in DOMAIN e.out : \A p \in DOMAIN e.out[k] : \A c \in 1..2 :
                               e.out[k][p][c] >= 0 /\ e.out[k][p][c] <= 1000 * e.shape[c])
                        \cup Clause("below-edge", e.edge = 0)
      [] e.k = "scale" ->
            \* u: unit walk, y: walk with scale num/den per particle and drift
            Clause("scaling", \A k \in DOMAIN e.y : \A p \in DOMAIN e.y[k] : \A c \in 1..2 :
                AbsI(e.y[k][p][c] * e.den[p] - e.num[p] * e.u[k][p][c] - e.den[p] * (k - 1) * e.drift[p][c]) <= 2 * (e.num[p] + e.den[p]))
      [] e.k = "seed" -> Clause("reproducible", e.same = 1) \cup Clause("seed-matters", e.other = 0)
      [] e.k = "noise" ->
            \* moments of N samples in thousandths; each bound is six standard errors and more
            Clause("mean", AbsI(e.mean - e.wantmean) <= e.tolmean)
            \cup Clause("variance", AbsI(e.var - e.wantvar) <= e.tolvar)
            \cup Clause("independent", AbsI(e.next) <= e.tolcor /\ AbsI(e.cross) <= e.tolcor)
            \cup Clause("kurtosis", AbsI(e.kurt - 3000) <= e.tolkurt)
      [] e.k = "transform" -> Clause("transformed", e.out = [p \in DOMAIN e.x |-> Seen(e.x[p], e.shape, e.off, e.quarter)])
                              \cup Clause("input-modified", e.same = 1)
      [] e.k = "video" -> VideoOk(e)
      [] e.k = "refuse" -> IF e.valid = 1 THEN Clause("refused", e.raised = 0) ELSE Clause("not-refused", e.raised = 1)
      [] e.k = "trigger" -> Clause("selected", e.out = Selected(e.indices, e.n))
                            \cup Clause("consumed", e.used = Consumed(e.indices, e.n))
                            \cup Clause("lookahead", \A k \in DOMAIN e.out : e.reads[k] = e.out[k] + 1)
      [] e.k = "times" -> Clause("number", Len(e.t1) = e.num)
                          \cup Clause("schedule", CASE e.kind = 0 -> RandomTime(e.t1, e.n, e.gap)
                                                    [] e.kind = 1 -> Times1(e.t1, e.t2, e.n)
                                                    [] e.kind = 2 -> Times2(e.t1, e.t2, e.n))
      [] e.k = "cover" ->
            \* many random schedules: every offset is used, and simultaneous frames are as frequent as they should be
            LET q == 4 * e.n * e.n
                p == CASE e.kind = 0 -> 0 [] e.kind = 1 -> 2 * e.n [] e.kind = 2 -> 4 * e.n - 1
            IN Clause("offsets", {e.o1[i] : i \in DOMAIN e.o1} = 0..(e.n - 1))
               \cup Clause("offsets-2", e.kind = 0 \/ {0, e.n} \subseteq {e.o2[i] : i \in DOMAIN e.o2})
               \cup Clause("simultaneous", e.kind = 0 \/ AbsI(e.both * q - e.num * p) <= 3 * e.root * q)
               \cup Clause("uniform", \A i \in DOMAIN e.hist : AbsI(e.hist[i] * e.n - e.num) <= 3 * e.root * e.n)
      [] e.k = "count" ->
            Clause("length", Len(e.out) = e.num * e.n + 1)
            \cup Clause("expected", \A d \in 0..(Len(e.out) - 1) :
                   AbsI(e.out[d + 1] - Expected(d, e.num, e.n)) <= IF d > 0 /\ d < e.n THEN 1 + (e.n \div 4) ELSE 0)
      [] e.k = "adc" -> Clause("converted", \A i \in DOMAIN e.f : Converted(e.out[i], e.f[i], e.b, e.s, e.mx))
                        \cup Clause("image-type", e.bits = IF e.mx < 256 THEN 8 ELSE 16)
                        \cup Clause("given-output", e.given = 1) \cup Clause("input-modified", e.same = 1)
      [] e.k = "form" -> Clause("harness", Sharp(e)) \cup Clause("form-factor", FormOk(e))

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1])
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
