------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255.  TLC integers have 32 bits, so   *)
(* every quantity that can exceed 2^28 (INTEGER contents, 64-bit lengths,   *)
(* 32-bit tag numbers) is kept as a big-endian byte string and manipulated  *)
(* byte by byte.                                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Byte == 0..255

\* index of the first position in lo..hi whose byte differs from b, hi+1 if none
RECURSIVE FirstNot(_, _, _, _)
FirstNot(s, lo, hi, b) ==
  IF lo > hi THEN lo
  ELSE IF s[lo] # b THEN lo
  ELSE IF lo + 64 <= hi /\ \A k \in 0..63 : s[lo + k] = b THEN FirstNot(s, lo + 64, hi, b)
  ELSE FirstNot(s, lo + 1, hi, b)

\* strip leading zero bytes (the empty string represents 0)
Trim(s) == SubSeq(s, FirstNot(s, 1, Len(s), 0), Len(s))

Fill(n, b) == [k \in 1..n |-> b]

PadL(s, n, b) == IF Len(s) >= n THEN s ELSE Fill(n - Len(s), b) \o s

\* value of a big-endian byte string if it is below 2^28; -2 = "huge"
SmallVal(s) ==
  LET t == Trim(s) IN
  CASE Len(t) = 0 -> 0
    [] Len(t) = 1 -> t[1]
    [] Len(t) = 2 -> t[1] * 256 + t[2]
    [] Len(t) = 3 -> t[1] * 65536 + t[2] * 256 + t[3]
    [] Len(t) = 4 /\ t[1] < 16 -> t[1] * 16777216 + t[2] * 65536 + t[3] * 256 + t[4]
    [] OTHER -> -2

Huge == -2

\* minimal big-endian byte string of n >= 0
RECURSIVE NatBytes(_)
NatBytes(n) == IF n = 0 THEN << >> ELSE Append(NatBytes(n \div 256), n % 256)

Pow2 == [k \in 0..8 |-> CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8
                          [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256]

\* logical shift right of a byte string by p bits, 0 <= p <= 7
ShiftR(s, p) ==
  [j \in 1..Len(s) |->
     (IF j = 1 THEN 0 ELSE (s[j - 1] % Pow2[p]) * Pow2[8 - p]) + s[j] \div Pow2[p]]

\* bit number n (0 = most significant bit of the first byte)
BitSet(s, n) ==
  LET j == (n \div 8) + 1 IN
  IF j > Len(s) THEN FALSE ELSE (s[j] \div Pow2[7 - (n % 8)]) % 2 = 1

RECURSIVE FlattenB(_)
FlattenB(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o FlattenB(Tail(ss))

=============================================================================
