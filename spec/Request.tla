------------------------------ MODULE Request --------------------------------
(***************************************************************************)
(* Which requests can be served.  Every other one is refused: the call     *)
(* ends with an exception, the settings and the arrays of the program stay *)
(* as they are, and the next request is served as if nothing had happened. *)
(* Absent numbers are -1.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))

\* ------------------------------------------------ method, normalization, binning
Methods == {"corr", "fft", "diff"}
MethodOk(m) == m \in Methods \cup {"none"}
\* bits of the normalization: 1 standard, 2 structured, 4 subtracted
NormOk(norm, m, cross) ==
    norm = -1 \/ norm \in (IF m # "diff" THEN {1, 2, 3, 5, 6, 7} ELSE IF cross THEN {2, 6} ELSE {2})
BinningOk(b, m) == b = -1 \/ b \in (IF m = "diff" THEN {0, 2} ELSE {0, 1, 2})
ComplexOk(cplx, m) == cplx = 0 \/ m # "diff"
EffNorm(norm, m, cross) == IF norm # -1 THEN norm ELSE IF m # "diff" THEN 7 ELSE IF cross THEN 6 ELSE 2

\* ------------------------------------------------ arrays and times
AxisOk(axis, nd) == axis >= -nd /\ axis < nd
Pos(axis, nd) == IF axis >= 0 THEN axis + 1 ELSE axis + nd + 1
FramesOk(cross, d1, d2) == Len(d1) > 0 /\ (cross = 0 \/ d1 = d2)
\* times: -1 not given, otherwise how many
TimesOk(cross, l1, l2, len) ==
    IF cross = 1 THEN (l1 = -1 /\ l2 = -1) \/ (l1 = len /\ l2 = len) ELSE l1 = -1 \/ l1 = len
\* outputs: a sequence of <<given, shape, type>>
Fields(m) == IF m = "diff" THEN 4 ELSE 5
Needed(m, norm, cross) ==                 \* positions that the request writes
    {1, 2} \cup (IF m # "diff" /\ (norm \div 2) % 2 = 1 THEN {3} ELSE {})
           \cup (IF (norm \div 4) % 2 = 1
                 THEN (IF m = "diff" THEN {3, 4} ELSE IF cross = 1 THEN {4, 5} ELSE {4}) ELSE {})
OutOk(out, frame, m, norm, cross, cplx) ==
    out = <<>> \/
    /\ Len(out) = Fields(m)
    /\ \A i \in Needed(m, norm, cross) : out[i][1] = 1 =>
          IF i = 2 THEN out[i][3] = "int64"
          ELSE /\ out[i][3] \in {"float64", "complex128"}
               /\ Len(out[i][2]) > 0
               /\ SubSeq(out[i][2], 1, Len(out[i][2]) - 1) = frame

\* ------------------------------------------------ reshaping
MaskOk(has, mshape, frame, axis, nd) == has = 0 \/ (Pos(axis, nd) = 1 /\ mshape = frame)
\* thread divisor: -1 none, 0 and below or -99 (not a number) refused
DivisorOk(td, total) == td = -1 \/ (td > 0 /\ total % td = 0)

\* ------------------------------------------------ requests
LinearServed(q) ==
    /\ FramesOk(q.cross, q.d1, q.d2)
    /\ MethodOk(q.method) /\ NormOk(q.norm, q.method, q.cross = 1) /\ ComplexOk(q.cplx, q.method)
    /\ AxisOk(q.axis, Len(q.d1))
    /\ q.n >= -1
    /\ LET p == Pos(q.axis, Len(q.d1))
       IN /\ TimesOk(q.cross, q.l1, q.l2, q.d1[p])
          /\ OutOk(q.out, Without(q.d1, p), q.method, EffNorm(q.norm, q.method, q.cross = 1), q.cross, q.cplx)

MultiServed(q) ==
    /\ FramesOk(q.cross, q.d1, q.d2)
    /\ MethodOk(q.method) /\ NormOk(q.norm, q.method, q.cross = 1) /\ ComplexOk(q.cplx, q.method)
    /\ BinningOk(q.binning, q.method)
    /\ AxisOk(q.axis, Len(q.d1))
    /\ q.nlevel >= -1
    /\ LET p == Pos(q.axis, Len(q.d1))
           frame == Without(q.d1, p)
       IN /\ q.n > 4 /\ (q.nlevel = -1 => q.n <= q.d1[p])
          /\ TimesOk(q.cross, q.l1, q.l2, q.d1[p])
          /\ MaskOk(q.hasmask, q.mshape, frame, q.axis, Len(q.d1))
          /\ DivisorOk(q.td, IF q.hasmask = 1 THEN q.mcount ELSE Product(frame))

\* streams: supply frames are there, count are asked for (-1: not said), in chunks
\* (-1: not said) - what remains of the last chunk is left out
RECURSIVE Largest(_, _)
Largest(half, count) == IF 2 * half > count THEN half ELSE Largest(2 * half, count)
Count(q) == IF q.count # -1 THEN q.count ELSE IF q.l1 # -1 THEN q.l1 ELSE q.known
RECURSIVE Halved(_, _)
Halved(c, n) == IF c \div 2 >= n /\ c > 128 THEN Halved(c \div 2, n) ELSE c
Chunk(q) == IF q.chunk # -1 THEN q.chunk ELSE Halved(Count(q), q.n)
Frames(q) == Largest(Chunk(q), Count(q))
StreamTimesOk(q) ==
    /\ (q.cross = 1 => (q.l1 = -1) = (q.l2 = -1))
    /\ (q.l1 # -1 => q.l1 >= Count(q) /\ (q.cross = 1 => q.l2 = q.l1))
SizesOk(q) == Count(q) # -1 /\ q.n > 0 /\ q.n <= Chunk(q) /\ Chunk(q) <= Count(q)
StreamServed(q) ==
    /\ q.method \in Methods /\ NormOk(q.norm, q.method, q.cross = 1) /\ ComplexOk(q.cplx, q.method)
    /\ BinningOk(q.binning, q.method)
    /\ q.mode \in {"full", "chunk"}
    /\ q.nlevel >= -1
    /\ StreamTimesOk(q)
    /\ SizesOk(q)
    /\ q.supply >= Frames(q)
    /\ q.odd = 0                                     \* all frames alike, as many cameras as there should be
    /\ MaskOk(q.hasmask, q.mshape, q.frame, 0, 1)
    /\ DivisorOk(q.td, IF q.hasmask = 1 THEN q.mcount ELSE Product(q.frame))

ReshapeServed(q) ==
    /\ Len(q.d1) > 0 /\ AxisOk(q.axis, Len(q.d1))
    /\ LET p == Pos(q.axis, Len(q.d1))
           frame == Without(q.d1, p)
       IN /\ MaskOk(q.hasmask, q.mshape, frame, q.axis, Len(q.d1))
          /\ DivisorOk(q.td, IF q.hasmask = 1 THEN q.mcount ELSE Product(frame))
\* back to the shape of the frame: shape <<>> means it is not given
RestoreServed(q) ==
    /\ (q.hasshape = 1 \/ q.hasmask = 1)
    /\ LET size == IF q.hasshape = 1 THEN Product(q.shape) ELSE q.mcount
       IN size = q.size /\ (q.hasmask = 1 => size = q.mcount)
=============================================================================
