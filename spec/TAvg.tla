-------------------------------- MODULE TAvg --------------------------------
(***************************************************************************)
(* Trace validation of averaging, merging, folding and filters.            *)
(* Every event is a call with its input rows and its result.               *)
(***************************************************************************)
EXTENDS Average, Json
CONSTANT TraceFile
Cases == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
Clause(name, ok) == IF ok THEN {} ELSE {name}

Scale(x, f) == IF x \in {NAN, INF} THEN x ELSE x * f
\* rows after the folding that the call asked for (scaled by 2 when folded)
Rows(e) == IF e.cplx = 1 /\ e.fold = 1
           THEN [k \in DOMAIN e.d |-> IF k % 2 = 1 THEN FoldRe(e.d[k], 0) ELSE FoldIm(e.d[k], 0)]
           ELSE e.d
\* does the request make sense
Valid(e) == /\ e.size >= 2 /\ e.binning \in {0, 1, 2}
            /\ (e.cplx = 1 => e.fold # -1)
Evn(e) == Valid(e) /\ e.size % 2 = 0

\* all results that are possible (several only when frames are chosen at random), times 4^S
Possible(e) ==
    LET rows == Rows(e)  n == Len(rows[1])  L == LastLevel(n, e.size, 0)
        For(rs) == [k \in DOMAIN rows |-> LET m == Multilevel(rows[k], e.size, e.binning, rs) IN
                        [lv \in DOMAIN m |-> [i \in DOMAIN m[lv] |-> Scale(m[lv][i], Pow4(L + 1 - lv))]]]
    IN IF e.binning = 2 THEN { For(rs) : rs \in AllRs(L) } ELSE { For([j \in 1..L |-> 0]) }
NLevels(e) == LastLevel(Len(Rows(e)[1]), e.size, 0) + 1

NearQ(obs, f) == IF f[2] = 0 THEN TRUE ELSE     \* obs = 100 * f[1] / f[2]
    LET q == f[1] \div f[2]  r == f[1] % f[2] IN Abs(obs - (100 * q + (100 * r) \div f[2])) <= 1
CountLevel(c, lv, size, binning) == [i \in 1..size |-> IF (i - 1) * Pow2(lv) + 1 > Len(c) THEN <<NAN, 1>> ELSE EffCount(c, lv, i, binning)]
CountNear(obs, f) == IF f = <<NAN, 1>> THEN obs = NAN ELSE obs < NONINT /\ NearQ(obs, f)

\* interpolation: segment of x for the position xi
RECURSIVE Segment(_, _, _)
Segment(x, xi, j) == IF xi <= x[j] \/ j = Len(x) THEN j ELSE Segment(x, xi, j + 1)
Log2(v) == CHOOSE a \in 0..12 : Pow2(a) = v
Interp(x, y, xi, log) ==     \* times 2520
    LET j == Segment(x, xi, 2)
        lg == log /\ x[j-1] >= 1 /\ xi > 1
        a == IF lg THEN Log2(x[j-1]) ELSE x[j-1]
        b == IF lg THEN Log2(x[j]) ELSE x[j]
        c == IF lg THEN Log2(xi) ELSE xi
    IN 2520 * y[j-1] + (c - a) * (2520 \div (b - a)) * (y[j] - y[j-1])

\* complex products on pairs
Mul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
Conj(a) == <<a[1], -a[2]>>
Mod2(a) == a[1]*a[1] + a[2]*a[2]
SMul(s, a) == <<s * a[1], s * a[2]>>
Root(m) == CHOOSE r \in 0..2000 : r * r = m
Zs(re, im) == [i \in DOMAIN re |-> <<re[i], im[i]>>]

Event(e) ==
    CASE e.k = "exc" -> {"exception"}
      [] e.k = "multilevel" ->
            IF e.raised = 1 THEN Clause("refused", ~Valid(e))
            ELSE IF ~Valid(e) THEN {"not-refused"}
            ELSE Clause("levels", Len(e.obs[1]) = NLevels(e)) \cup Clause("shape", e.shape = e.wantshape)
                 \cup Clause("level-values", e.obs \in Possible(e))
                 \cup Clause("input-modified", e.inputsame = 1)
      [] e.k = "log_average" ->
            IF e.raised = 1 THEN Clause("refused", ~Evn(e))
            ELSE IF ~Evn(e) THEN {"not-refused"}
            ELSE LET L == NLevels(e)  P == FullPos(L, e.size)
                 IN Clause("times", e.x = FullTimes(L, e.size))
                    \cup Clause("values", e.y \in { [k \in DOMAIN m |-> Pick(m[k], P)] : m \in Possible(e) })
                    \cup Clause("input-modified", e.inputsame = 1)
      [] e.k = "log_merge" ->
            IF e.raised = 1 THEN Clause("refused", ~Evn(e) \/ Len(Rows(e)[1]) % e.size # 0)
            ELSE IF ~Evn(e) \/ Len(Rows(e)[1]) % e.size # 0 THEN {"not-refused"}
            ELSE LET L == NLevels(e)  P == FullPos(L, e.size)
                     M == Len(e.multi)                    \* multi[level][row][i]
                     period == Len(Rows(e)[1]) \div e.size
                     Q == HalfPos(M, e.size)
                     f2 == Pow4(L - 1)
                     mrow(k) == [q \in DOMAIN Q |->
                        Scale(IF e.cplx = 1 /\ e.fold = 1
                              THEN (IF k % 2 = 1 THEN FoldRe(e.multi[Q[q][1]][k], 0) ELSE FoldIm(e.multi[Q[q][1]][k], 0))[Q[q][2]]
                              ELSE e.multi[Q[q][1]][k][Q[q][2]], f2)]
                 IN Clause("times", e.x = FullTimes(L, e.size) \o [q \in DOMAIN HalfTimes(M, e.size) |-> 2 * period * HalfTimes(M, e.size)[q]])
                    \cup Clause("values", e.y \in { [k \in DOMAIN m |-> Pick(m[k], P) \o mrow(k)] : m \in Possible(e) })
      [] e.k = "merge" ->
            LET ok == e.mode \in {"full", "half"} /\ e.size % 2 = 0
                L == Len(e.d)
                P == IF e.mode = "full" THEN FullPos(L, e.size) ELSE HalfPos(L, e.size)
                T == IF e.mode = "full" THEN FullTimes(L, e.size) ELSE HalfTimes(L, e.size)
            IN IF e.raised = 1 THEN Clause("refused", ~ok) ELSE IF ~ok THEN {"not-refused"}
               ELSE Clause("times", e.x = T)
                    \cup Clause("values", e.y = [k \in DOMAIN e.d[1] |-> [q \in DOMAIN P |-> e.d[P[q][1]][k][P[q][2]]]])
      [] e.k = "times" -> Clause("times", e.obs = [lv \in 1..e.shape[1] |-> [i \in 1..e.shape[Len(e.shape)] |-> 2 * e.period * (i - 1) * Pow2(lv - 1)]])
                          \cup Clause("shape", e.obsshape = [i \in DOMAIN e.shape |-> IF i \in {1, Len(e.shape)} THEN e.shape[i] ELSE 1])
      [] e.k = "count" ->      \* multilevel_count / log_average_count / log_merge_count
            LET L == LastLevel(Len(e.c), e.size, 0) + 1
                lev(lv) == CountLevel(e.c, lv - 1, e.size, e.binning)
                P == FullPos(L, e.size)
                Q == HalfPos(Len(e.multi), e.size)
                period == Len(e.c) \div e.size
            IN IF e.form = "levels"
               THEN Clause("levels", Len(e.obs) = L)
                    \cup (IF Len(e.obs) # L THEN {} ELSE Clause("effective-count", \A lv \in 1..L : \A i \in 1..e.size : CountNear(e.obs[lv][i], lev(lv)[i])))
               ELSE Clause("times", e.x = FullTimes(L, e.size) \o [q \in DOMAIN Q |-> 2 * period * HalfTimes(Len(e.multi), e.size)[q]])
                    \cup (IF Len(e.y) # Len(P) + Len(Q) THEN {"length"} ELSE
                          Clause("effective-count", \A k \in DOMAIN P : CountNear(e.y[k], lev(P[k][1])[P[k][2]]))
                          \cup Clause("slow-count", \A q \in DOMAIN Q : e.y[Len(P) + q] = 100 * e.multi[Q[q][1]][Q[q][2]]))
      [] e.k = "mcount" ->
            Clause("shape", e.fast = <<e.period * e.size>> /\ Len(e.slow) = 2 /\ e.slow[2] = e.size)
            \cup Clause("times", Len(e.x) <= Len(e.xc) /\ \A i \in DOMAIN e.x : e.xc[i] = e.x[i])
            \cup Clause("positive", e.positive = 1)
      [] e.k = "fold" ->
            IF e.raised = 1 THEN Clause("refused", e.cplx = 0 \/ e.mode \notin {-1, 0, 1})
            ELSE IF e.cplx = 0 \/ e.mode \notin {-1, 0, 1} THEN {"not-refused"}
            ELSE Clause("folded", e.obs = [k \in DOMAIN e.d |-> IF k % 2 = 1 THEN FoldRe(e.d[k], e.mode) ELSE FoldIm(e.d[k], e.mode)])
                 \cup Clause("input-modified", e.inputsame = 1)
      [] e.k = "sym" ->
            LET z == Zs(e.d[1], e.d[2])  o == Zs(e.obs[1], e.obs[2])  n == (Len(z) + 1) \div 2
                pos(i) == z[i + 1]  neg(i) == z[Len(z) + 1 - i]
                op(i) == o[i + 1]   on(i) == o[Len(z) + 1 - i]
                P(i) == Root(Mod2(pos(i)))  N(i) == Root(Mod2(neg(i)))
            IN Clause("length", Len(o) = Len(z))
               \cup (IF Len(o) # Len(z) THEN {} ELSE
                     Clause("zero-delay", o[1] = <<Root(Mod2(z[1])), 0>>)
                     \cup (IF e.api = "shift_data"
                           THEN Clause("magnitude", \A i \in 1..(n-1) : Mod2(op(i)) = Mod2(pos(i)) /\ Mod2(on(i)) = Mod2(neg(i)))
                                \cup Clause("conjugate-phase", \A i \in 1..(n-1) : SMul(N(i), op(i)) = SMul(P(i), Conj(on(i))))
                                \cup Clause("common-phase-removed", \A i \in 1..(n-1) : SMul(N(i), Mul(op(i), op(i))) = SMul(P(i), Mul(pos(i), Conj(neg(i)))))
                           ELSE Clause("conjugate", \A i \in 1..(n-1) : op(i) = Conj(on(i)))
                                \cup Clause("common-phase-removed", \A i \in 1..(n-1) : Mul(op(i), op(i)) = Mul(pos(i), Conj(neg(i)))))
                     \cup Clause("aligned-data-changed", e.aligned = 1 => o = z))
      [] e.k = "filter" ->
            Clause("filter", e.obs = [k \in DOMAIN e.d |->
                LET d == e.d[k] IN
                CASE e.api = "convolve"   -> Smooth(d)
                  [] e.api = "median"     -> MedianF(d)
                  [] e.api = "decreasing" -> [i \in DOMAIN d |-> Lowest(d, i)]
                  [] e.api = "increasing" -> [i \in DOMAIN d |-> Highest(d, i)]
                  [] e.api = "denoise"    -> Denoise(d, e.n)])
            \cup Clause("input-modified", e.inputsame = 1)
      [] e.k = "interp" ->
            Clause("interpolation", e.obs = [k \in DOMAIN e.ys |-> [i \in DOMAIN e.xi |-> Interp(e.x, e.ys[k], e.xi[i], e.log = 1)]])

TraceInit == tr \in DOMAIN Cases /\ l = 0 /\ bad = {}
TraceNext == /\ l < Len(Cases[tr].ev)
             /\ l' = l + 1 /\ UNCHANGED tr
             /\ bad' = Event(Cases[tr].ev[l + 1])
Verdict == /\ (bad = {} \/ PrintT(<<"BAD", tr, l, bad>>))
           /\ (l < Len(Cases[tr].ev) \/ PrintT(<<"END", tr, l>>))
=============================================================================
