-------------------------------- MODULE MCHex --------------------------------
(* Hexadecimal rendering of every byte string of up to two bytes (the        *)
(* rendering of a longer one is the concatenation, see Concat): two digits   *)
(* a byte, readable back, different for different bytes, 0x exactly when     *)
(* asked for.                                                                *)
EXTENDS KMS, TLC
CONSTANT MaxLen
Skip1(x) == x
Skip2(x, y) == x
None1 == <<>>
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in 0..255 : b' = Append(b, x)
Spec == Init /\ [][Next]_b
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Unhex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * DigitVal(s[2 * i - 1]) + DigitVal(s[2 * i])]
Prop == \A up \in BOOLEAN :
  LET h == Hex(b, up, FALSE)  a == Hex(b, up, TRUE) IN
  /\ Len(h) = 2 * Len(b) /\ Unhex(h) = b
  /\ a = <<48, 120>> \o h
  /\ \A i \in 1..Len(h) : h[i] \in (48..57) \cup (IF up THEN 65..70 ELSE 97..102)
  /\ Lower(h) = Hex(b, FALSE, FALSE)
  /\ \A k \in 0..Len(b) : h = Hex(Take(b, k), up, FALSE) \o Hex(Drop(b, k), up, FALSE)
=============================================================================
