------------------------------- MODULE TNorm --------------------------------
(***************************************************************************)
(* Trace validation of normalisation: requests on one set of raw data (the *)
(* data are the state; no request may change them).                        *)
(*                                                                         *)
(* cfg: diff, cplx, hassq, hasm, el = elements of the raw data (Norm.tla). *)
(* Events                                                                  *)
(*  "norm"   a normalisation request and its result (scaled to integers)   *)
(*  "wdef"   a weighted request with the default weight: result, weight,   *)
(*           structured and standard parts in 1/1000                       *)
(*  "wexact" the default weight where both parts agree                     *)
(*  "scale", "delta", "mean"   helper values                               *)
(*  "compute" a computation with normalisation flags                       *)
(*  "words", "flags"           flags from strings and keywords             *)
(***************************************************************************)
EXTENDS Norm, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}
NonFinite(x) == x \in {NAN, INF}

\* the flags that a request stands for
Asked(e, g) == IF e.words # <<>> THEN FromWords(e.words)
               ELSE IF e.norm = -1 THEN DefaultNorm(g.diff = 1, g.hassq = 1, g.hasm = 1) ELSE e.norm
KnownWords(e) == \A i \in DOMAIN e.words : e.words[i] \in DOMAIN Strings

Want(e, g, el, norm, k, re) ==
    Result(norm, el, g.diff = 1, e.mode, IF Weighted(norm) THEN e.w4[k] ELSE 0, re) * (IF e.scale = 1 THEN 2 ELSE 1)
ValueClauses(e, g, norm) ==
    Clause("length", Len(e.re) = Len(e.sel))
    \cup (IF Len(e.re) # Len(e.sel) THEN {} ELSE
          Clause("value", \A k \in DOMAIN e.sel : LET el == g.el[e.sel[k]] IN
                IF el.c = 0 THEN NonFinite(e.re[k]) ELSE e.re[k] = Want(e, g, el, norm, k, TRUE))
          \cup (IF g.cplx = 0 THEN Clause("complex-result", e.im = <<>>) ELSE
                Clause("real-result", Len(e.im) = Len(e.sel))
                \cup Clause("imag-value", \A k \in DOMAIN e.im : LET el == g.el[e.sel[k]] IN
                       IF el.c = 0 THEN NonFinite(e.im[k]) ELSE e.im[k] = Want(e, g, el, norm, k, FALSE))))

Near(a, b, tol) == a = b \/ (Abs(a) < 1000000000 /\ Abs(b) < 1000000000 /\ Abs(a - b) <= tol)
\* 1000 * result = weight * structured + (1000 - weight) * standard
BlendOK(r, w, x, y) == Near(1000 * r, w * x + (1000 - w) * y, Abs(x - y) + 2000)

Event(e, g) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "norm" ->
            LET ok == KnownWords(e) /\ Served(Asked(e, g), g.diff = 1, g.hassq = 1, g.hasm = 1, e.mode,
                            e.scale = 1 \/ Weighted(Asked(e, g)), e.hasbg = 1, e.hasvar = 1)
            IN IF e.raised = 1 THEN Clause("refused", ~ok)
               ELSE IF ~ok THEN {"not-refused"}
               ELSE ValueClauses(e, g, Asked(e, g)) \cup Clause("input-modified", e.inputsame = 1)
                    \cup Clause("shape", e.shape = e.wantshape)
                    \cup Clause("out", e.outsame = 1)
      [] e.k = "wdef" ->
            Clause("weighted-sum", \A k \in DOMAIN e.r : BlendOK(e.r[k], e.w[k], e.x[k], e.y[k]))
            \cup Clause("weighted-sum-imag", \A k \in DOMAIN e.ri : BlendOK(e.ri[k], e.wi[k], e.xi[k], e.yi[k]))
            \cup Clause("weight-range", \A k \in DOMAIN e.w : Abs(e.w[k]) <= 1000 /\ Abs(e.wi[k]) <= 1000)
            \cup Clause("weight-depends-on-representation", \A i \in DOMAIN e.others : \A k \in DOMAIN e.w : Near(e.others[i][k], e.w[k], 1))
            \cup Clause("given-weight", e.again = e.r)
      [] e.k = "wexact" ->     \* both parts agree, so the weight belongs to that value
            Clause("weight", \A k \in DOMAIN e.w :
                LET el == g.el[e.sel[k]]  x == Simple(e.norm - 2, el)
                    q == Sq(el.c) * (el.v1 + el.v2)
                IN  /\ x = Simple(e.norm - 1, el)
                    /\ e.w[k] = 2 * x * q
                    /\ e.den[k] = Sq(x) + Sq(q) + Sq(Sq(el.c) * (el.v2 - el.v1)))
            \cup Clause("value", \A k \in DOMAIN e.w : LET el == g.el[e.sel[k]] IN e.r[k] = Simple(e.norm - 2, el))
      [] e.k = "scale" -> Clause("scale-factor", e.obs = [k \in DOMAIN e.v1 |-> e.v1[k] + e.v2[k]])
      [] e.k = "delta" -> Clause("noise-delta", e.obs = [k \in DOMAIN e.v1 |-> e.v2[k] - e.v1[k]])
      [] e.k = "mean" ->
            Clause("noise-mean", e.obs = [k \in DOMAIN e.g0 |->
                IF e.mode = "corr" THEN Max(0, Min(e.s[k], e.s[k] - e.g0[k]))
                                   ELSE Max(0, Min(2 * e.s[k], e.g0[k]))])
      [] e.k = "noise" -> Clause("noise-level", e.obs = e.intensity * Sum([i \in DOMAIN e.w |-> Sq(e.w[i])]))
      [] e.k = "take" -> Clause("take-data", e.obs = e.want)
      [] e.k = "compute" ->
            LET n == IF e.norm = -1 THEN DefaultCompute(e.diff = 1, e.auto = 1) ELSE e.norm
                ok == n \in ComputeNorms(e.diff = 1, e.auto = 1)
            IN IF e.raised = 1 THEN Clause("refused", ~ok)
               ELSE Clause("not-refused", ok)
                    \cup Clause("squares-presence", \A i \in DOMAIN e.has : (e.has[i][1] = 1) = (e.diff = 0 /\ Flag(n, 2)))
                    \cup Clause("mean1-presence", \A i \in DOMAIN e.has : (e.has[i][2] = 1) = Flag(n, 4))
                    \cup Clause("mean2-presence", \A i \in DOMAIN e.has : (e.has[i][3] = 1) = (Flag(n, 4) /\ e.auto = 0))
      [] e.k = "words" ->
            IF e.raised = 1 THEN Clause("refused", ~KnownWords(e))
            ELSE Clause("not-refused", KnownWords(e)) \cup (IF KnownWords(e) THEN Clause("words", e.obs = FromWords(e.words)) ELSE {})
      [] e.k = "flags" -> Clause("flags", e.obs = FromFlags(e.structured, e.subtracted, e.weighted, e.compensated))

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1], Cases[tr].cfg)
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
