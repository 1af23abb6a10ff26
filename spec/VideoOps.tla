------------------------------ MODULE VideoOps ------------------------------
(***************************************************************************)
(* Multi-frame videos and the operators on them.  A frame is a record      *)
(* [s |-> shape, v |-> flat values], a multi-frame one frame per camera,   *)
(* a video a sequence of multi-frames.  Operators are lazy: the k-th       *)
(* result needs the k-th multi-frame of every source and nothing beyond.   *)
(***************************************************************************)
EXTENDS Arith
NONE == 1000000          \* a slice bound that is not given

\* indices (from 0) that a slice selects from n elements
SliceIdx(sl, n) ==
    LET step == IF sl[3] = NONE THEN 1 ELSE sl[3]
        norm(x) == IF x < 0 THEN x + n ELSE x
        lo == IF step > 0 THEN 0 ELSE -1
        hi == IF step > 0 THEN n ELSE n - 1
        clamp(x) == Max(lo, Min(hi, x))
        start == IF sl[1] = NONE THEN (IF step > 0 THEN lo ELSE hi) ELSE clamp(norm(sl[1]))
        stop  == IF sl[2] = NONE THEN (IF step > 0 THEN hi ELSE lo) ELSE clamp(norm(sl[2]))
        cnt == IF step > 0 THEN (IF stop > start THEN (stop - start - 1) \div step + 1 ELSE 0)
               ELSE (IF start > stop THEN (start - stop - 1) \div (-step) + 1 ELSE 0)
    IN [k \in 1..cnt |-> start + (k - 1) * step]

CropFrame(f, hs, ws) ==
    LET I == SliceIdx(hs, f.s[1])  J == SliceIdx(ws, f.s[2])
        nj == Len(J)
    IN [s |-> <<Len(I), nj>>, v |-> [k \in 1..(Len(I) * nj) |->
            f.v[I[((k - 1) \div nj) + 1] * f.s[2] + J[((k - 1) % nj) + 1] + 1]]]
RECURSIVE Keep(_, _, _)
Keep(v, m, i) == IF i > Len(v) THEN <<>> ELSE (IF m[i] = 1 THEN <<v[i]>> ELSE <<>>) \o Keep(v, m, i + 1)
MaskFrame(f, m) == LET v == Keep(f.v, m, 1) IN [s |-> <<Len(v)>>, v |-> v]
\* second operand: same shape, or one value for the whole frame
At(w, i) == IF Len(w.v) = 1 THEN w.v[1] ELSE w.v[i]
ZipFrame(f, w, Op(_, _)) == [s |-> f.s, v |-> [i \in DOMAIN f.v |-> Op(f.v[i], At(w, i))]]
\* value / mean, times 64 (the sum of the values divides 64 * size)
NormFrame(f) == [s |-> f.s, v |-> [i \in DOMAIN f.v |-> (64 * Len(f.v) * f.v[i]) \div Sum(f.v)]]

\* one operator on one multi-frame; sc is the scale of the values (1, or 64 after normalisation)
Apply(op, fs, k, sc) ==
    CASE op.name = "crop" -> [c \in DOMAIN fs |-> CropFrame(fs[c], op.h, op.w)]
      [] op.name = "mask" -> [c \in DOMAIN fs |-> MaskFrame(fs[c], op.m)]
      [] op.name = "subtract" -> [c \in DOMAIN fs |-> ZipFrame(fs[c], op.y[k][c], LAMBDA a, b : a - sc * b)]
      [] op.name = "add" -> [c \in DOMAIN fs |-> ZipFrame(fs[c], op.y[k][c], LAMBDA a, b : a + sc * b)]
      [] op.name = "multiply" -> [c \in DOMAIN fs |-> ZipFrame(fs[c], op.y[k][c], LAMBDA a, b : a * b)]
      [] op.name = "normalize" -> [c \in DOMAIN fs |-> NormFrame(fs[c])]
Zips == {"subtract", "add", "multiply"}
ScaleAfter(op, sc) == IF op.name = "normalize" THEN 64 ELSE sc
RECURSIVE Run(_, _, _, _)
Run(ops, fs, k, sc) == IF ops = <<>> THEN fs ELSE Run(Tail(ops), Apply(ops[1], fs, k, sc), k, ScaleAfter(ops[1], sc))
\* how many multi-frames come out
RECURSIVE Length(_, _)
Length(ops, n) == IF ops = <<>> THEN n ELSE Length(Tail(ops), IF ops[1].name \in Zips THEN Min(n, Len(ops[1].y)) ELSE n)
\* leading operators that work in place
RECURSIVE Inplace(_)
Inplace(ops) == IF ops = <<>> \/ ops[1].inplace = 0 THEN <<>> ELSE <<ops[1]>> \o Inplace(Tail(ops))
RECURSIVE ScaleOf(_, _)
ScaleOf(ops, sc) == IF ops = <<>> THEN sc ELSE ScaleOf(Tail(ops), ScaleAfter(ops[1], sc))
RECURSIVE DType(_, _)
DType(ops, d) == IF ops = <<>> THEN d
                 ELSE DType(Tail(ops), IF ops[1].inplace = 1 THEN d
                                       ELSE IF ops[1].dtype # "" THEN ops[1].dtype
                                       ELSE IF ops[1].name = "normalize" /\ d \in {"int64", "int32", "uint8"} THEN "float64" ELSE d)
=============================================================================
