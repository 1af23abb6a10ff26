------------------------------- MODULE FftOps -------------------------------
(***************************************************************************)
(* Discrete Fourier transforms of frames and their cropping.  Numbers are  *)
(* Gaussian integers <<re, im>>; for sizes 1, 2 and 4 all twiddle factors  *)
(* are powers of -i, so transforms are exact.  A frame is a sequence of    *)
(* rows.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Zero == <<0, 0>>
\* (-i)^n
Unit(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, -1>> [] n % 4 = 2 -> <<-1, 0>> [] n % 4 = 3 -> <<0, 1>>
RECURSIVE CSum(_, _)
CSum(F(_), n) == IF n = 0 THEN Zero ELSE CAdd(CSum(F, n - 1), F(n))
H(x) == Len(x)
W(x) == Len(x[1])
\* coefficient (p, q) of the transform of x (indices from 0)
Coef(x, p, q) == LET h == H(x)  w == W(x)
                     Term(m) == LET i == (m - 1) \div w  j == (m - 1) % w
                                IN CMul(x[i + 1][j + 1], Unit(p * i * (4 \div h) + q * j * (4 \div w)))
                 IN CSum(Term, h * w)
Fft2(x) == [p \in 1..H(x) |-> [q \in 1..W(x) |-> Coef(x, p - 1, q - 1)]]
RealPart(x) == [p \in 1..H(x) |-> [q \in 1..W(x) |-> <<x[p][q][1], 0>>]]
Rfft2(x) == [p \in 1..H(x) |-> [q \in 1..(W(x) \div 2 + 1) |-> Coef(RealPart(x), p - 1, q - 1)]]
\* h*w times the inverse transform
Ifft2(x) == [p \in 1..H(x) |-> [q \in 1..W(x) |-> Coef(x, H(x) - (p - 1), W(x) - (q - 1))]]

(* Cropping to wavenumbers -kmax..kmax.  NONE = not given: everything. *)
NONE == -1
\* number of output rows, and the source row of each (full axis, n rows); <<>> when impossible
FullAxis(n, kmax) == IF kmax = NONE THEN [r \in 1..n |-> r - 1]
                     ELSE IF kmax > n \div 2 THEN <<>>
                     ELSE [r \in 1..(2 * kmax + 1) |-> IF r - 1 <= kmax THEN r - 1 ELSE (n + r - 1 - (2 * kmax + 1)) % n]
HalfAxis(n, kmax) == IF kmax = NONE THEN [r \in 1..n |-> r - 1]
                     ELSE IF kmax > n - 1 THEN <<>> ELSE [r \in 1..(kmax + 1) |-> r - 1]
Select(x, I, J) == [r \in 1..Len(I) |-> [c \in 1..Len(J) |-> x[I[r] + 1][J[c] + 1]]]
CanCropFull(h, w, ki, kj) == FullAxis(h, ki) # <<>> /\ FullAxis(w, kj) # <<>>
CanCropHalf(h, w, ki, kj) == FullAxis(h, ki) # <<>> /\ HalfAxis(w, kj) # <<>>
CropFull(x, ki, kj) == Select(x, FullAxis(H(x), ki), FullAxis(W(x), kj))
CropHalf(x, ki, kj) == Select(x, FullAxis(H(x), ki), HalfAxis(W(x), kj))

\* dls: circular convolution with the modulated window  w(z) (-i)^(k z)
Dls(x, win, k) == LET h == H(x)  w == W(x)
                      Ker(a, b) == CMul(win[a + 1][b + 1], Unit(k[1] * a * (4 \div h) + k[2] * b * (4 \div w)))
                      Val(p, q) == LET Term(m) == LET i == (m - 1) \div w  j == (m - 1) % w
                                                  IN CMul(x[i + 1][j + 1], Ker((p - i) % h, (q - j) % w))
                                   IN CSum(Term, h * w)
                  IN [p \in 1..h |-> [q \in 1..w |-> Val(p - 1, q - 1)]]
=============================================================================
