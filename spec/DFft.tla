-------------------------------- MODULE DFft --------------------------------
(***************************************************************************)
(* Consistency of the definitions: every small frame, every crop.          *)
(***************************************************************************)
EXTENDS FftOps, TLC
CONSTANTS Vals, MaxSize
VARIABLES x, h, w, ki, kj
vars == <<x, h, w, ki, kj>>
Shapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 4>>, <<4, 1>>}
Frames == UNION {[1..s[1] -> [1..s[2] -> {<<v, 0>> : v \in Vals}]] : s \in Shapes}
\* frames for the transforms; only sizes for the crops
Init == \/ /\ x \in Frames /\ h = H(x) /\ w = W(x) /\ ki = NONE /\ kj = NONE
        \/ /\ x = <<>> /\ h \in 1..MaxSize /\ w \in 1..MaxSize /\ ki \in NONE..(h \div 2 + 1) /\ kj \in NONE..(w + 1)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Scaled(y) == [p \in 1..H(y) |-> [q \in 1..W(y) |-> <<H(y) * W(y) * y[p][q][1], H(y) * W(y) * y[p][q][2]>>]]
Inverse == x # <<>> => Ifft2(Fft2(x)) = Scaled(x)
\* the half transform of a real frame determines the whole one
Hermitian == x # <<>> => \A p \in 0..(h - 1), q \in 0..(w - 1) :
                LET pp == (h - p) % h  qq == (w - q) % w  F == Fft2(x)  R == Rfft2(x) IN
                F[p + 1][q + 1] = IF q <= w \div 2 THEN R[p + 1][q + 1] ELSE Conj(R[pp + 1][qq + 1])
\* a plane-wave filter: a window of ones keeps one coefficient
Ones == [p \in 1..h |-> [q \in 1..w |-> <<1, 0>>]]
OneWave == x # <<>> => \A p \in 0..(h - 1), q \in 0..(w - 1) :
              LET F == Fft2(Dls(x, Ones, <<p, q>>)) IN
              \A a \in 0..(h - 1), b \in 0..(w - 1) :
                 F[a + 1][b + 1] = IF (a + p) % h = 0 /\ (b + q) % w = 0
                                   THEN LET c == Fft2(x)[a + 1][b + 1] IN <<h * w * c[1], h * w * c[2]>> ELSE Zero
\* wavenumber of row r of n rows
Wave(r, n) == IF 2 * r <= n THEN r ELSE r - n
\* a crop keeps the wavenumbers -ki..ki in their usual order
Crops == x = <<>> =>
    LET I == FullAxis(h, ki) IN
    /\ (I = <<>>) = (ki # NONE /\ 2 * ki > h)
    /\ I # <<>> => /\ \A r \in DOMAIN I : I[r] \in 0..(h - 1)
                   /\ ki = NONE => \A r \in DOMAIN I : I[r] = r - 1
                   /\ ki # NONE => /\ Len(I) = 2 * ki + 1
                                   /\ \A r \in DOMAIN I : LET k == Wave(r - 1, 2 * ki + 1) IN k \in -ki..ki /\ I[r] = k % h
                   /\ ki # NONE /\ 2 * ki < h => Cardinality({I[r] : r \in DOMAIN I}) = Len(I)
    /\ (HalfAxis(w, kj) = <<>>) = (kj # NONE /\ kj >= w)
    \* cropping in two steps is cropping once
    /\ \A k2 \in 0..MaxSize : (I # <<>> /\ ki # NONE /\ k2 <= ki) =>
          LET I2 == FullAxis(Len(I), k2) IN [r \in DOMAIN I2 |-> I[I2[r] + 1]] = FullAxis(h, k2)
=============================================================================
