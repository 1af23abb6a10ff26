-------------------------------- MODULE DMap --------------------------------
(***************************************************************************)
(* Consistency of the definitions in MapOps for every small plane.         *)
(***************************************************************************)
EXTENDS MapOps, TLC
CONSTANTS MaxSize, Dirs, Steps
DirSet == {<<3, 1>>, <<1, 2>>, <<-1, 1>>, <<-2, -1>>, <<1, 0>>, <<0, -1>>}
StepSet == {<<1, 1>>, <<2, 1>>, <<1, 2>>}
VARIABLES h, w, sh, d, s
vars == <<h, w, sh, d, s>>
Next == FALSE /\ UNCHANGED vars
Init == /\ h \in 1..MaxSize /\ w \in 1..MaxSize
        /\ sh \in {<<0, 0>>, <<h, w>>, <<h + 2, w + 1>>}
        /\ d \in Dirs \X Dirs /\ Cross(d[1], d[2]) >= 0 /\ d[1] # d[2]
        /\ s \in Steps
Spec == Init /\ [][Next]_vars
I == 0..(h - 1)
J == 0..(w - 1)
\* symbolic Hermitian data: opposite wavevectors share a name
Name(i, j) == 1 + i * w + j
Sym == Table(h, w, LAMBDA i, j : LET a == Name(i, j)  b == Name(Neg(i, h), Neg(j, w)) IN
                   IF a = b THEN <<a, 0>> ELSE IF a < b THEN <<a, 1>> ELSE <<b, -1>>)
SymHermitian == Hermitian(Sym)
HalfFull == /\ Full(Half(Sym), w) = Sym
            /\ FullWidth(HalfCols(w), w) = w
            /\ (w % 2 = 1 => FullWidth(HalfCols(w), 0) = w)
            /\ Hermitian(Full(Half(Sym), w))
\* what the half plane misses is in the conjugate half
Cover == \A i \in I, j \in J :
            IF j < HalfCols(w) THEN At(Half(Sym), i, j) = At(Sym, i, j)
            ELSE At(ConjHalf(Sym, <<0, 0>>), Neg(i, h), Neg(j, w)) = At(Sym, i, j)
\* opposite wavevectors are opposite (odd sizes)
Opposite == (h % 2 = 1 /\ w % 2 = 1) => \A i \in I, j \in J : Vec(Neg(i, h), Neg(j, w), h, w, sh) = Minus(Vec(i, j, h, w, sh))
\* every wavevector is in one ring (two on a border), rings are ordered by length
Ringed == \A i \in I, j \in J :
            LET v == Vec(i, j, h, w, sh)  R == Rings(v, VDen(sh), s) IN
            /\ R # {} /\ Cardinality(R) <= 2
            /\ \A i2 \in I, j2 \in J : LET v2 == Vec(i2, j2, h, w, sh) IN
                 Sq(v) <= Sq(v2) => \A a \in R : \E b \in Rings(v2, VDen(sh), s) : a <= b
\* a sector and the rest of the turn: inside one is outside the other
Complement == \A i \in I, j \in J :
            LET v == Vec(i, j, h, w, sh)  a == Side(v, d[1], d[2])
                b == Side(v, Minus(d[1]), Minus(d[2])) IN
            v # <<0, 0>> => /\ (a = 1 => b = -1)
                            /\ a = Side(Minus(v), Minus(d[1]), Minus(d[2]))
                            /\ (a = 1 => Side(v, d[2], Minus(d[1])) # 1)
\* averaging Hermitian data over a sector of the plane = averaging the half plane with
\* conjugated entries for the wavevectors it lacks
Selected == { p \in I \X J : Side(Vec(p[1], p[2], h, w, sh), d[1], d[2]) = 1 }
HalfAverage == (h % 2 = 1 /\ w % 2 = 1) =>
    LET direct == { p \in Selected : p[2] < HalfCols(w) }
        conj == { <<Neg(p[1], h), Neg(p[2], w)>> : p \in Selected \ direct }
        S(k) == SumSet(LAMBDA p : At(Sym, p[1], p[2])[k], Selected)
        T(k, g) == SumSet(LAMBDA p : At(Half(Sym), p[1], p[2])[k], direct) + g * SumSet(LAMBDA p : At(Half(Sym), p[1], p[2])[k], conj)
    IN /\ direct \cap conj = {}
       /\ Cardinality(direct) + Cardinality(conj) = Cardinality(Selected)
       /\ S(1) = T(1, 1) /\ S(2) = T(2, -1)
=============================================================================
