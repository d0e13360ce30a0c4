------------------------------ MODULE MCEcdsa ------------------------------
(* Deterministic ECDSA with low S and recovery ids, exhaustively over the    *)
(* small curve: every key, every message hash, every nonce.  What C14 asks   *)
(* of the real signatures (verify, low S, recover, one signature per nonce   *)
(* point) is what holds of correct ones here - and each part of it fails for *)
(* a signer with the corresponding defect (Variant).                         *)
EXTENDS Curve43, TLC
CONSTANT Variant    \* "ok", "highs" (no normalisation), "keepid" (recovery id not flipped with s), "noid2" (bit 1 of the id dropped)
VARIABLES d, z, n
Init == d \in 1..(N - 1) /\ z \in 0..(P - 1) /\ n = 0
Next == n = 0 /\ n' \in 1..(N - 1) /\ UNCHANGED <<d, z>>
Spec == Init /\ [][Next]_<<d, z, n>>
\* a raw signature with nonce k; <<>> if the nonce has to be rejected
Raw(key, m, k) ==
  LET R == MulG(k)  r == R[1] % N
      s == IF r = 0 THEN 0 ELSE Mod((m + r * key) * Inv[N][k], N)
  IN IF r = 0 \/ s = 0 THEN <<>>
     ELSE LET flip == s > N \div 2 /\ Variant # "highs"
              id == (R[2] % 2) + (IF R[1] >= N /\ Variant # "noid2" THEN 2 ELSE 0)
          IN <<r, IF flip THEN N - s ELSE s, IF flip /\ Variant # "keepid" THEN (IF id % 2 = 1 THEN id - 1 ELSE id + 1) ELSE id>>
Verify(pub, m, r, s) == /\ r \in 1..(N - 1) /\ s \in 1..(N - 1)
                        /\ LET w == Inv[N][s]  q == AddP(MulG(m * w), Mul(r * w, pub)) IN q # Inf /\ q[1] % N = r
Recover(m, r, s, id) ==
  LET x == IF id >= 2 THEN r + N ELSE r
      R == IF x < P THEN Lift(x, id % 2) ELSE Inf
  IN IF R = Inf THEN Inf ELSE Mul(Inv[N][r], AddP(Mul(s, R), MulG(-m)))
LowS(s) == s <= N \div 2
Good == LET g == Raw(d, z, n) IN g # <<>> =>
  /\ LowS(g[2])
  /\ Verify(MulG(d), z, g[1], g[2])
  /\ Recover(z, g[1], g[2], g[3]) = MulG(d)
  \* only the right key verifies or is recovered; only the right id recovers it
  /\ \A id \in 0..3 : Recover(z, g[1], g[2], id) = MulG(d) => id = g[3] \/ z % N = 0
\* a second message under the same nonce gives the key away
Leak == \A z2 \in 0..(P - 1) :
  LET g == Raw(d, z, n)  h == Raw(d, z2, n) IN
  (g # <<>> /\ h # <<>> /\ (z - z2) % N # 0) =>
     /\ g[1] = h[1]                              \* visible: the same r
     /\ \E a \in {g[2], N - g[2]}, b \in {h[2], N - h[2]} : (a - b) % N # 0 /\
          LET k == Mod((z - z2) * Inv[N][Mod(a - b, N)], N) IN k # 0 /\ Mod((a * k - z) * Inv[N][g[1]], N) = d
Prop == n > 0 => Good /\ Leak
=============================================================================
