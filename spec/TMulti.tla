------------------------------- MODULE TMulti -------------------------------
(***************************************************************************)
(* Trace validation of the multiple-tau and of the iterative correlators   *)
(* against MultiTau (DMulti shows that the ring-buffer algorithm computes  *)
(* exactly the sums that this module accumulates).                         *)
(*                                                                         *)
(* A trace is one run.  cfg holds the request and the data; the events are *)
(*   "show"   what a viewer was given after half-chunk number idx+1        *)
(*            (or, for the last one, after the end of the data)            *)
(*   "return" what the call returned                                       *)
(*   "error"  the call raised                                              *)
(* cfg.inmem = 1: the in-memory function (a single "return").              *)
(***************************************************************************)
EXTENDS Correlator, MultiTau, Json

CONSTANTS TraceFile,
          Parts       \* what is compared, subset of {"fast", "slow", "stats", "mask"}

Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l,
          c,      \* half-chunks processed
          acc,    \* acc[j+1] : sums of level j
          lev,    \* lev[j+1] : data of level j
          fin,    \* the levels above the ring buffers are done
          bad
vars == <<tr, l, c, acc, lev, fin, bad>>
All3 == {"cor", "count", "sums"}

\* ---- the parameters of a run
RECURSIVE Halve(_, _)
Halve(x, lsize) == IF (x \div 2) >= lsize /\ x > 128 THEN Halve(x \div 2, lsize) ELSE x
HalfOf(g) == IF g.half > 0 THEN g.half ELSE Halve(g.count, g.lsize)
FramesOf(g) == IF g.inmem = 1 THEN g.T ELSE FramesUsed(g.count, HalfOf(g))
NLOf(g) == IF g.inmem = 1 /\ g.asked >= 0 THEN g.asked ELSE NLevels(FramesOf(g), g.lsize, g.asked)
SLOf(g) == IF g.inmem = 1 THEN 1 ELSE Min(StreamLevels(g.count, HalfOf(g), g.lsize, g.asked), NLOf(g) + 1)
\* the iterator must deliver every frame that is to be processed
Valid(g) == g.inmem = 1 \/ g.T >= FramesOf(g)
NFast(g) == g.period * g.lsize
TimesOf(g, t) == IF g.irr = 1 THEN t ELSE Regular(g.T)
ChunksOf(g) == FramesOf(g) \div HalfOf(g)

\* ---- the data of every level
Cut(x, n) == [p \in DOMAIN x |-> SubSeq(x[p], 1, n)]
MinusBg(x, g) ==    \* first half-chunk defines the background
    IF g.bgsub = 0 \/ g.T < HalfOf(g) THEN x
    ELSE LET h == HalfOf(g) IN [p \in DOMAIN x |->
            LET b == SumF(x[p], 1..h) \div h IN [i \in DOMAIN x[p] |-> x[p][i] - b]]
Level0(g) ==
    LET n == Min(FramesOf(g), g.T)
        a == MinusBg(Cut(g.f1r, n), g)  b == MinusBg(Cut(g.f1i, n), g)
        u == MinusBg(Cut(g.f2r, n), g)  v == MinusBg(Cut(g.f2i, n), g)
    IN TLCEval([f1r |-> a, f1i |-> b, f2r |-> u, f2i |-> v, s1 |-> Squares(a, b), s2 |-> Squares(u, v)])
Up(d, Op(_)) == TLCEval([x \in DOMAIN d |-> [p \in DOMAIN d[x] |-> Op(d[x][p])]])
\* Random choice: the frames that were chosen are read off the result itself.  cfg.ident = 1 says that pixel
\* 2+t of every frame is dark except in frame t, so that the mean-sum of that pixel at zero delay tells whether
\* frame t is an item of the level.  Everything else must follow from this one choice.
Revealed(g, j) ==
    LET e == Cases[tr].ev[Len(Cases[tr].ev)]
        n == FramesOf(g) \div Pow2(j)
        Off(t) == IF g.bgsub = 1 /\ t <= HalfOf(g) THEN n ELSE 0
    IN IF e.k # "return" \/ j > Len(e.slow.lv) \/ Len(e.slow.lv[j].om1r) # g.P THEN {}
       ELSE {t \in 1..FramesOf(g) : e.slow.lv[j].om1r[2 + t][1] + Off(t) = HalfOf(g)}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})
ItemsOf(g, j) == IF j = 0 THEN [i \in 1..FramesOf(g) |-> i] ELSE Ascending(Revealed(g, j))
ChoiceOK(g, j) ==
    LET lo == ItemsOf(g, j - 1)  hi == ItemsOf(g, j)
    IN Len(hi) = Len(lo) \div 2 /\ \A i \in DOMAIN hi : hi[i] \in {lo[2*i-1], lo[2*i]}
RECURSIVE LevelsUpTo(_, _)
LevelsUpTo(g, j) ==
    IF j = 0 THEN <<Level0(g)>>
    ELSE IF g.ident = 1 /\ ChoiceOK(g, j)
    THEN LET s == LevelsUpTo(g, j - 1)  it == ItemsOf(g, j)
         IN Append(s, Up(s[1], LAMBDA v : [i \in DOMAIN it |-> v[it[i]]]))
    ELSE LET s == LevelsUpTo(g, j - 1) IN Append(s, Up(s[j], LAMBDA v : BinSeq(v, g.binning)))

\* ---- accumulate
ZeroAcc(g, j) ==
    LET n == IF j = 0 THEN NFast(g) ELSE g.lsize
    IN SumsOf([k \in 1..(IF g.cplx = 1 /\ g.auto = 0 THEN 2 * n - 1 ELSE n) |-> {}], g, lev[1], All3)
SumsFor(g, j, S, d) ==
    LET n == IF j = 0 THEN NFast(g) ELSE g.lsize
        m == Len(d.f1r[1])
        ta == IF j = 0 THEN TimesOf(g, g.t1) ELSE Regular(m)
        tb == IF j = 0 THEN (IF g.auto = 1 THEN ta ELSE TimesOf(g, g.t2)) ELSE ta
        filed == IF j = 0 /\ g.irr = 1 THEN File(S, ta, tb, n, g.auto = 1, g.cplx = 1)
                 ELSE FileEqual(S, m, n, g.auto = 1, g.cplx = 1)
    IN SumsOf(filed, g, d, All3)
AllPairs(d) == (1..Len(d.f1r[1])) \X (1..Len(d.f1r[1]))

\* one more half-chunk: feeds every level whose half-chunk is complete
ChunkStep(g, k, a) ==       \* k = number of the new half-chunk
    [j1 \in DOMAIN a |->
        LET j == j1 - 1 IN
        IF j < SLOf(g) /\ k % Pow2(j) = 0
        THEN LET s == SumsFor(g, j, NewPairs(k \div Pow2(j), HalfOf(g), g.full = 1), lev[j1])
             IN IF a[j1] = <<>> THEN s ELSE Accumulate(a[j1], s)
        ELSE a[j1]]
RECURSIVE ChunksTo(_, _, _, _)
ChunksTo(g, k, goal, a) == IF k >= goal THEN a ELSE ChunksTo(g, k + 1, goal, ChunkStep(g, k + 1, a))
RestStep(g, a) ==
    [j1 \in DOMAIN a |-> IF j1 - 1 < SLOf(g) THEN a[j1] ELSE SumsFor(g, j1 - 1, AllPairs(lev[j1]), lev[j1])]
InMemory(g) ==
    [j1 \in 1..(NLOf(g) + 1) |-> SumsFor(g, j1 - 1, AllPairs(lev[j1]), lev[j1])]

\* ---- comparison of what was observed with the accumulated sums
SelSet(g) == Range1(g.sel)
Match(obs, want, g) ==      \* pixel-major matrix; pixels outside the mask hold NaN
    IF want = <<>> THEN obs = <<>>
    ELSE /\ Len(obs) = g.P
         /\ \A k \in DOMAIN g.sel : obs[g.sel[k]] = want[k]
MaskedNaN(obs, g) ==
    obs = <<>> \/ \A p \in (1..g.P) \ SelSet(g) : \A k \in DOMAIN obs[p] : obs[p][k] = NAN
Clause(name, ok) == IF ok THEN {} ELSE {name}
None == <<-1>>
RawClauses(o, a, g, pre, lead) ==    \* lead: leading (level) axes of the shapes
    LET n == Len(a.cnt)
        shape == lead \o g.fshape \o <<n>>
    IN  Clause(pre \o "corr-value", Match(o.ocre, a.cre, g))
        \cup Clause(pre \o "corr-imag-value", Match(o.ocim, a.cim, g))
        \cup Clause(pre \o "count-value", o.ocnt = a.cnt)
        \cup Clause(pre \o "squares-value", Match(o.osq, a.sq, g))
        \cup Clause(pre \o "mean1-value", Match(o.om1r, a.m1r, g) /\ Match(o.om1i, a.m1i, g))
        \cup Clause(pre \o "mean2-value", Match(o.om2r, a.m2r, g) /\ Match(o.om2i, a.m2i, g))
        \cup (IF "mask" \in Parts THEN
                Clause(pre \o "masked-out-not-nan", MaskedNaN(o.ocre, g) /\ MaskedNaN(o.osq, g)
                         /\ MaskedNaN(o.om1r, g) /\ MaskedNaN(o.om2r, g))
              ELSE {})
ShapeClauses(o, g, pre, lead, n) ==
    LET shape == lead \o g.fshape \o <<n>> IN
        Clause(pre \o "corr-shape", o.sh[1] = shape)
        \cup Clause(pre \o "corr-type", o.ctype = g.cplx)
        \cup Clause(pre \o "count-shape", o.sh[2] = lead \o <<n>>)
        \cup Clause(pre \o "squares-presence", (o.sh[3] # None) = HasSquares(g))
        \cup Clause(pre \o "mean1-presence", (o.sh[4] # None) = HasMean1(g))
        \cup Clause(pre \o "mean2-presence", (o.sh[5] # None) = HasMean2(g))
        \cup Clause(pre \o "sums-shape", \A i \in 3..5 : o.sh[i] \in {None, shape})

OutL(g, n) == IF g.cplx = 1 /\ g.auto = 0 THEN 2 * n - 1 ELSE n
FastClauses(e, a, g) ==
    IF "fast" \notin Parts THEN {} ELSE
    RawClauses(e.fast, a[1], g, "fast-", <<>>) \cup ShapeClauses(e.fast, g, "fast-", <<>>, OutL(g, NFast(g)))
\* level j of the slow data: e.slow.lv[j]
SlowValueClauses(e, a, g) ==
    UNION { RawClauses(e.slow.lv[j], IF a[j+1] = <<>> THEN ZeroAcc(g, j) ELSE a[j+1], g, "slow-", <<>>) : j \in 1..NLOf(g) }
SlowClauses(e, a, g) ==
    IF "slow" \notin Parts \/ g.multi = 0 THEN {} ELSE
    IF Len(e.slow.lv) # NLOf(g) THEN {"slow-number-of-levels"} ELSE
    SlowValueClauses(e, a, g) \cup ShapeClauses(e.slow, g, "slow-", <<NLOf(g)>>, OutL(g, g.lsize))

\* running mean and variance after N frames, scaled to integers: N * mean, N^2 * var
StatClauses(e, k, g) ==
    IF "stats" \notin Parts \/ g.stats = 0 THEN {} ELSE
    LET N == k * HalfOf(g)
        S(x) == [p \in DOMAIN x |-> <<SumF(x[p], 1..N)>>]
        V(xr, xi) == [p \in DOMAIN xr |->
            <<N * SumF(AbsSq(xr[p], xi[p]), 1..N) - (LET a == SumF(xr[p], 1..N) b == SumF(xi[p], 1..N) IN a*a + b*b)>>]
        d == lev[1]
    IN  Clause("stats-frames", e.N = N)
        \cup Clause("background1", Match(e.bg1r, S(d.f1r), g) /\ Match(e.bg1i, S(d.f1i), g))
        \cup Clause("variance1", Match(e.var1, V(d.f1r, d.f1i), g))
        \cup (IF g.auto = 1 THEN {} ELSE
              Clause("background2", Match(e.bg2r, S(d.f2r), g) /\ Match(e.bg2i, S(d.f2i), g))
              \cup Clause("variance2", Match(e.var2, V(d.f2r, d.f2i), g)))
        \cup Clause("stats-shape", \A i \in DOMAIN e.ssh : e.ssh[i] = g.fshape)
        \cup (IF "mask" \in Parts THEN
                Clause("masked-out-stats-not-nan", MaskedNaN(e.bg1r, g) /\ MaskedNaN(e.var1, g)
                        /\ (g.auto = 1 \/ (MaskedNaN(e.bg2r, g) /\ MaskedNaN(e.var2, g))))
              ELSE {})

\* in-memory BINNING_CHOOSE: some choice per level (the same for both signals and squares)
RECURSIVE ChooseOK(_, _, _, _)
ChooseOK(e, g, j, d) ==
    j > NLOf(g) \/
    \E r \in {0, 1} :
        LET u == Up(d, LAMBDA v : BinChoose(v, r)) IN
        /\ RawClauses(e.slow.lv[j], SumsFor(g, j, AllPairs(u), u), g, "slow-", <<>>) = {}
        /\ ChooseOK(e, g, j + 1, u)

TraceInit ==
    /\ tr \in DOMAIN Cases /\ l = 0 /\ c = 0 /\ fin = 0 /\ bad = {}
    /\ lev = LevelsUpTo(Cases[tr].cfg, IF Valid(Cases[tr].cfg) THEN NLOf(Cases[tr].cfg) ELSE 0)
    /\ acc = IF ~Valid(Cases[tr].cfg) THEN <<>> ELSE [j1 \in DOMAIN lev |-> <<>>]

\* the call must raise iff the request is not valid
Event(e, g) ==
    CASE e.k = "exc" -> bad' = {"exception"} /\ UNCHANGED <<c, acc, fin>>
      [] e.k = "error" -> bad' = Clause("exception", ~Valid(g)) /\ UNCHANGED <<c, acc, fin>>
      [] ~Valid(g) -> bad' = {"no-exception"} /\ UNCHANGED <<c, acc, fin>>
      [] g.inmem = 1 ->
            /\ e.k = "return" /\ c' = c /\ fin' = 1
            /\ acc' = InMemory(g)
            /\ bad' = FastClauses(e, acc', g) \cup
                 (IF g.binning = BCHOOSE /\ "slow" \in Parts
                  THEN IF Len(e.slow.lv) # NLOf(g) THEN {"slow-number-of-levels"}
                       ELSE Clause("slow-choose", ChooseOK(e, g, 1, lev[1]))
                            \cup ShapeClauses(e.slow, g, "slow-", <<NLOf(g)>>, OutL(g, g.lsize))
                  ELSE SlowClauses(e, acc', g))
                 \cup Clause("input-modified", e.inputsame = 1)
      [] e.k = "show" ->        \* viewer call number idx (0-based) of all the intermediate results
            /\ c' = Min(e.idx + 1, ChunksOf(g))
            /\ LET a == ChunksTo(g, c, c', acc)
               IN /\ fin' = IF e.idx + 1 > ChunksOf(g) THEN 1 ELSE fin
                  /\ acc' = IF fin' = 1 /\ fin = 0 THEN RestStep(g, a) ELSE a
            /\ bad' = Clause("too-many-results", e.idx + 1 <= ChunksOf(g) + 1)
                      \cup FastClauses(e, acc', g) \cup SlowClauses(e, acc', g) \cup StatClauses(e, c', g)
      [] e.k = "return" ->
            /\ c' = ChunksOf(g) /\ fin' = 1
            /\ LET a == ChunksTo(g, c, c', acc) IN acc' = IF fin = 0 THEN RestStep(g, a) ELSE a
            /\ bad' = FastClauses(e, acc', g) \cup SlowClauses(e, acc', g) \cup StatClauses(e, c', g)
                      \cup Clause("slow-choose", g.ident = 0 \/ \A j \in 1..NLOf(g) : ChoiceOK(g, j))
                      \cup Clause("number-of-results", e.interval = 0 \/ e.shown = (ChunksOf(g) + e.interval) \div e.interval)
                      \cup Clause("frames-taken", e.taken = -1 \/ e.taken \in {FramesOf(g), FramesOf(g) + 1})
                      \cup Clause("input-modified", e.inputsame = 1)

TraceNext ==
    /\ l < Len(Cases[tr].ev)
    /\ l' = l + 1 /\ UNCHANGED <<tr, lev>>
    /\ Event(Cases[tr].ev[l + 1], Cases[tr].cfg)

Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
