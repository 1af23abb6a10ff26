-------------------------------- MODULE TPipe --------------------------------
(***************************************************************************)
(* Trace validation of whole experiments (Pipe).  A trace is one           *)
(* experiment: "frames" are the multi-frames as the end of the pipeline    *)
(* delivers them, all of them kept until the end; "data" is what a         *)
(* correlator computed from a second run of it, with the statistics.       *)
(***************************************************************************)
EXTENDS Pipe, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad, sp
vars == <<tr, l, bad, sp>>
Clause(name, ok) == IF ok THEN {} ELSE {name}

RECURSIVE Level(_, _, _)
Level(x, binning, j) == IF j = 0 THEN x ELSE TLCEval([p \in DOMAIN x |-> BinSeq(Level(x, binning, j - 1)[p], binning)])
Data(cfg, e) ==
    LET c2 == IF e.auto = 1 THEN 1 ELSE 2
        xr == Part(cfg, sp, 1, 1, e.used)  xi == Part(cfg, sp, 1, 2, e.used)
        yr == Part(cfg, sp, c2, 1, e.used)  yi == Part(cfg, sp, c2, 2, e.used)
        Sc(x) == [p \in DOMAIN x |-> [k \in DOMAIN x[p] |-> x[p][k] * e.scale]]
        L(j) == LET b == e.binning
                    a1 == Level(Sc(xr), b, j)  a2 == Level(Sc(xi), b, j)  a3 == Level(Sc(yr), b, j)  a4 == Level(Sc(yi), b, j)
                    s == LevelSums(Len(a1[1]), e.n, e.auto = 1, e.cplx = 1, a1, a2, a3, a4)
                    o == e.levels[j + 1]
                IN Clause("count", o.count = s.count)
                   \cup Clause("value", o.re = (IF e.diff = 1 THEN s.diff ELSE s.re) /\ (e.cplx = 0 \/ o.im = s.im))
        Mean(z, o) == \A p \in DOMAIN z : o[p] = Sum(z[p])
        Var(a, b, o) == \A p \in DOMAIN a :
            o[p] = e.used * Sum([k \in DOMAIN a[p] |-> a[p][k] * a[p][k] + b[p][k] * b[p][k]]) - Sum(a[p]) * Sum(a[p]) - Sum(b[p]) * Sum(b[p])
    IN UNION {L(j) : j \in 0..(Len(e.levels) - 1)}
       \cup Clause("levels", Len(e.levels) = e.want)
       \cup Clause("background", e.stats = 0 \/ (Mean(xr, e.bg1[1]) /\ Mean(xi, e.bg1[2]) /\ Mean(yr, e.bg2[1]) /\ Mean(yi, e.bg2[2])))
       \cup Clause("variance", e.stats = 0 \/ (Var(xr, xi, e.var1) /\ Var(yr, yi, e.var2)))
Event(e, cfg) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "frames" ->
            Clause("number", Len(e.f) = Len(sp))
            \cup Clause("frames", Len(e.f) = Len(sp) => \A k \in DOMAIN sp : e.f[k] = sp[k])
      [] e.k = "data" -> IF e.used > Len(sp) THEN {"number"} ELSE Data(cfg, e)
TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {} /\ sp = Spectra(Cases[tr].cfg)
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED <<tr, sp>>
             /\ bad' = Event(Cases[tr].ev[l + 1], Cases[tr].cfg)
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
