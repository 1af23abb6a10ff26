----------------------------- MODULE Correlator -----------------------------
(***************************************************************************)
(* The linear correlator as a machine.  Its state is the accumulated raw   *)
(* data `acc` (correlation, count, squares, means).  One call adds the     *)
(* sums of one data set; a call without `aout` starts from zero.           *)
(*                                                                         *)
(* A request c is a record                                                 *)
(*   auto, cplx, diff : 0/1        what is computed                        *)
(*   n     : number of delays, -1 for "all"                                *)
(*   irr   : 0/1, t1, t2           irregular times (ignored if irr = 0)    *)
(*   T     : number of frames                                              *)
(*   norm  : normalisation flags (bit 2 squares, bit 4 means)              *)
(*   f1r, f1i, f2r, f2i : pixel-major data (f2* = f1* for auto)            *)
(*   s1, s2 : squares supplied by the caller, <<>> if the caller has none   *)
(***************************************************************************)
EXTENDS Corr

Bit(norm, b) == ((norm \div b) % 2) = 1

T1(c) == IF c.irr = 1 THEN c.t1 ELSE Regular(c.T)
T2(c) == IF c.auto = 1 THEN T1(c) ELSE IF c.irr = 1 THEN c.t2 ELSE Regular(c.T)

NDelays(c) ==
    IF c.n >= 0 THEN c.n
    ELSE IF c.irr = 0 THEN c.T
    ELSE IF c.auto = 1 THEN FullLenAuto(c.t1) ELSE FullLenCross(c.t1, c.t2)

OutLen(c) == IF c.auto = 0 /\ c.cplx = 1 THEN 2 * NDelays(c) - 1 ELSE NDelays(c)

HasSquares(c) == c.diff = 0 /\ Bit(c.norm, 2)
HasMean1(c)   == Bit(c.norm, 4) /\ (c.diff = 0 \/ c.auto = 0)
HasMean2(c)   == Bit(c.norm, 4) /\ c.auto = 0

BinsOf(c) == Bins(T1(c), T2(c), NDelays(c), c.auto = 1, c.cplx = 1)

\* The sums over the bins B.  c gives the kind of result, d the data of every pixel
\* (s1, s2: the squares of the signals); `want` restricts the work to the parts needed.
SumsOf(B, c, d, want) ==
    LET P == DOMAIN d.f1r
        cor == "cor" \in want
        sums == "sums" \in want
    IN [ cre |-> IF cor THEN [p \in P |->
                      IF c.diff = 1 THEN DiffSq(B, d.f1r[p], d.f1i[p], d.f2r[p], d.f2i[p])
                                    ELSE CorrRe(B, d.f1r[p], d.f1i[p], d.f2r[p], d.f2i[p])]
                 ELSE <<>>,
         cim |-> IF cor /\ c.cplx = 1 THEN
                     [p \in P |-> CorrIm(B, d.f1r[p], d.f1i[p], d.f2r[p], d.f2i[p])]
                 ELSE <<>>,
         cnt |-> IF "count" \in want THEN BinCount(B) ELSE <<>>,
         sq  |-> IF sums /\ HasSquares(c) THEN [p \in P |-> Both(B, d.s1[p], d.s2[p])] ELSE <<>>,
         m1r |-> IF sums /\ HasMean1(c) THEN [p \in P |->
                     IF c.auto = 1 THEN Half(Both(B, d.f1r[p], d.f1r[p])) ELSE First(B, d.f1r[p])]
                 ELSE <<>>,
         m1i |-> IF sums /\ HasMean1(c) THEN [p \in P |->
                     IF c.auto = 1 THEN Half(Both(B, d.f1i[p], d.f1i[p])) ELSE First(B, d.f1i[p])]
                 ELSE <<>>,
         m2r |-> IF sums /\ HasMean2(c) THEN [p \in P |-> Second(B, d.f2r[p])] ELSE <<>>,
         m2i |-> IF sums /\ HasMean2(c) THEN [p \in P |-> Second(B, d.f2i[p])] ELSE <<>> ]

Squares(xr, xi) == [p \in DOMAIN xr |-> AbsSq(xr[p], xi[p])]

\* The sums of one request.
RawData(c, want) ==
    SumsOf(BinsOf(c), c,
           [f1r |-> c.f1r, f1i |-> c.f1i, f2r |-> c.f2r, f2i |-> c.f2i,
            s1 |-> IF c.s1 = <<>> THEN Squares(c.f1r, c.f1i) ELSE c.s1,
            s2 |-> IF c.s2 = <<>> THEN Squares(c.f2r, c.f2i) ELSE c.s2], want)

AddM(a, b) == IF b = <<>> THEN <<>> ELSE MAdd(a, b)
Accumulate(a, b) ==
    [ cre |-> AddM(a.cre, b.cre), cim |-> AddM(a.cim, b.cim),
      cnt |-> IF b.cnt = <<>> THEN <<>> ELSE VAdd(a.cnt, b.cnt),
      sq  |-> AddM(a.sq, b.sq),
      m1r |-> AddM(a.m1r, b.m1r), m1i |-> AddM(a.m1i, b.m1i),
      m2r |-> AddM(a.m2r, b.m2r), m2i |-> AddM(a.m2i, b.m2i) ]

Empty == [cre |-> <<>>, cim |-> <<>>, cnt |-> <<>>, sq |-> <<>>,
          m1r |-> <<>>, m1i |-> <<>>, m2r |-> <<>>, m2i |-> <<>>]

\* The transition: the new accumulated data after request c.
Call(acc, c, want) ==
    LET r == RawData(c, want) IN IF c.aout = 1 THEN Accumulate(acc, r) ELSE r

----------------------------------------------------------------------------
\* Frame shape of the output: data shape with the time axis replaced by the
\* delay axis, which comes last.
RemoveAt(s, i) == [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]
OutShape(dshape, axis, L) == Append(RemoveAt(dshape, axis + 1), L)
=============================================================================
