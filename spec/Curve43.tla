------------------------------ MODULE Curve43 ------------------------------
(* secp256k1's equation y^2 = x^3 + 7 over F_43, where it has 31 points, a   *)
(* prime number: small enough to try everything, close enough to have the    *)
(* same exceptional cases (doubling, inverses, infinity, x-coordinates on    *)
(* and off the curve, x-coordinates beyond the group order).                 *)
EXTENDS Integers, Sequences, FiniteSets
P == 43
N == 31
Inf == <<>>
Inv == [m \in {P, N} |-> [a \in 1..(m - 1) |-> CHOOSE b \in 1..(m - 1) : (a * b) % m = 1]]
Mod(a, m) == ((a % m) + m) % m
OnCurve(p) == p = Inf \/ (p[2] * p[2]) % P = (p[1] * p[1] * p[1] + 7) % P
AddP(p, q) ==
  IF p = Inf THEN q ELSE IF q = Inf THEN p
  ELSE IF p[1] = q[1] /\ (p[2] + q[2]) % P = 0 THEN Inf
  ELSE LET s == IF p = q THEN Mod(3 * p[1] * p[1] * Inv[P][(2 * p[2]) % P], P)
                ELSE Mod((q[2] - p[2]) * Inv[P][Mod(q[1] - p[1], P)], P)
           x == Mod(s * s - p[1] - q[1], P)
       IN <<x, Mod(s * (p[1] - x) - p[2], P)>>
Affine == {<<x, y>> \in (0..(P - 1)) \X (0..(P - 1)) : OnCurve(<<x, y>>)}
Points == Affine \cup {Inf}
Gen == CHOOSE p \in Affine : \A q \in Affine : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
\* multiples of the generator
RECURSIVE MulTable(_, _)
MulTable(k, acc) == IF k = N THEN acc ELSE MulTable(k + 1, Append(acc, AddP(acc[k], Gen)))
Table == MulTable(1, <<Gen>>)               \* Table[k] = k*G, k in 1..N
MulG(k) == IF Mod(k, N) = 0 THEN Inf ELSE Table[Mod(k, N)]
Log(p) == IF p = Inf THEN 0 ELSE CHOOSE k \in 1..(N - 1) : Table[k] = p
Mul(k, p) == MulG(k * Log(p))
NegP(p) == IF p = Inf THEN Inf ELSE <<p[1], Mod(-p[2], P)>>
\* compressed encoding: parity of y, then x
Compress(p) == <<2 + (p[2] % 2), p[1]>>
Lift(x, odd) == IF \E y \in 0..(P - 1) : OnCurve(<<x, y>>) /\ y % 2 = odd
                THEN <<x, CHOOSE y \in 0..(P - 1) : OnCurve(<<x, y>>) /\ y % 2 = odd>> ELSE Inf
Decompress(e) == IF e[1] \in {2, 3} /\ e[2] < P THEN Lift(e[2], e[1] - 2) ELSE Inf
ASSUME Cardinality(Points) = N
ASSUME \A p \in Points, q \in Points : AddP(p, q) \in Points /\ AddP(p, q) = AddP(q, p)
ASSUME Table[N] = Inf /\ {MulG(k) : k \in 0..(N - 1)} = Points
=============================================================================
