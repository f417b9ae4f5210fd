------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* 64-bit words, bit-exact, for a model checker whose integers have 32     *)
(* bits.  A word is a tuple of 8 byte values, least significant first.     *)
(* Nothing here ever computes a number above 2^31.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Zero64 == <<0,0,0,0,0,0,0,0>>
One64  == <<1,0,0,0,0,0,0,0>>

P2T == <<1,2,4,8,16,32,64,128,256>>
P2(n) == P2T[n+1]                                  \* n in 0..8

\* A natural number below 2^31 as a word.
NatWord(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256,
                 (n \div 16777216) % 256, 0, 0, 0, 0 >>

\* Does the word fit in 31 bits (so that it can be a TLC integer)?
Small(w) == w[4] < 128 /\ w[5] = 0 /\ w[6] = 0 /\ w[7] = 0 /\ w[8] = 0
ToNat(w) == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]

(* ---- base-128 digits: what a varint carries, 7 bits at a time ---- *)
Digit(w, j) ==                                      \* j in 0..9
  LET bit == 7*j   k == bit \div 8   s == bit % 8
  IN ((w[k+1] \div P2(s)) + (IF k < 7 THEN w[k+2] * P2(8-s) ELSE 0)) % 128

WordOfDigits(d) ==
  LET D(j) == IF j < Len(d) THEN d[j+1] ELSE 0
      B(k) == LET bit == 8*k   j == bit \div 7   s == bit % 7
              IN ((D(j) \div P2(s)) + D(j+1) * P2(7-s)) % 256
  IN << B(0), B(1), B(2), B(3), B(4), B(5), B(6), B(7) >>

(* ---- shifts, complement, truncation, sign extension ---- *)
Not64(w) == [k \in 1..8 |-> 255 - w[k]]
Shl1(w)  == [k \in 1..8 |-> ((w[k] * 2) + (IF k > 1 THEN w[k-1] \div 128 ELSE 0)) % 256]
Shr(w, s) == [k \in 1..8 |->                       \* logical, s in 1..7
                (w[k] \div P2(s)) + (IF k < 8 THEN (w[k+1] % P2(s)) * P2(8-s) ELSE 0)]
Negative(w) == w[8] >= 128
Zext32(w) == << w[1], w[2], w[3], w[4], 0, 0, 0, 0 >>
Sext32(w) == IF w[4] >= 128 THEN << w[1], w[2], w[3], w[4], 255, 255, 255, 255 >>
                            ELSE Zext32(w)

(* ---- zigzag ---- *)
ZigZag(w)   == IF Negative(w) THEN Not64(Shl1(w)) ELSE Shl1(w)
UnZigZag(w) == IF w[1] % 2 = 1 THEN Not64(Shr(w, 1)) ELSE Shr(w, 1)

(* ---- minimal varint of a word / of a small natural ---- *)
VarintLen(w) ==
  IF Digit(w,9) # 0 THEN 10 ELSE IF Digit(w,8) # 0 THEN 9
  ELSE IF Digit(w,7) # 0 THEN 8 ELSE IF Digit(w,6) # 0 THEN 7
  ELSE IF Digit(w,5) # 0 THEN 6 ELSE IF Digit(w,4) # 0 THEN 5
  ELSE IF Digit(w,3) # 0 THEN 4 ELSE IF Digit(w,2) # 0 THEN 3
  ELSE IF Digit(w,1) # 0 THEN 2 ELSE 1

VarintOf(w) ==
  LET n == VarintLen(w)
  IN [i \in 1..n |-> Digit(w, i-1) + (IF i < n THEN 128 ELSE 0)]

RECURSIVE VarintNat(_)
VarintNat(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o VarintNat(n \div 128)

VarintNatLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2
                   ELSE IF n < 2097152 THEN 3 ELSE IF n < 268435456 THEN 4 ELSE 5
=============================================================================
