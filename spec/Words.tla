------------------------------- MODULE Words -------------------------------
(* 64-bit words as 8-tuples of bytes, least significant byte first.  Byte   *)
(* order is explicit everywhere: there is no native integer to depend on.   *)
EXTENDS Integers, Sequences, Bitwise

Add64(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div 256)
      s3 == a[3] + b[3] + (s2 \div 256)
      s4 == a[4] + b[4] + (s3 \div 256)
      s5 == a[5] + b[5] + (s4 \div 256)
      s6 == a[6] + b[6] + (s5 \div 256)
      s7 == a[7] + b[7] + (s6 \div 256)
      s8 == a[8] + b[8] + (s7 \div 256)
  IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256>>

Xor64(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4],
                  a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8] >>

(* (low half of a) * (high half of b), 32 x 32 -> 64 bits *)
MulLoHi(a, b) ==
  LET c1 == a[1]*b[5]
      c2 == a[1]*b[6] + a[2]*b[5] + (c1 \div 256)
      c3 == a[1]*b[7] + a[2]*b[6] + a[3]*b[5] + (c2 \div 256)
      c4 == a[1]*b[8] + a[2]*b[7] + a[3]*b[6] + a[4]*b[5] + (c3 \div 256)
      c5 == a[2]*b[8] + a[3]*b[7] + a[4]*b[6] + (c4 \div 256)
      c6 == a[3]*b[8] + a[4]*b[7] + (c5 \div 256)
      c7 == a[4]*b[8] + (c6 \div 256)
  IN <<c1 % 256, c2 % 256, c3 % 256, c4 % 256, c5 % 256, c6 % 256, c7 % 256, c7 \div 256>>

(* rotation by 32 bits: swap the halves *)
Rot32(a) == <<a[5], a[6], a[7], a[8], a[1], a[2], a[3], a[4]>>

(* shift left by k bits, 0 < k < 8 *)
Shl(a, k) ==
  LET m == 2^k  d == 2^(8-k)
  IN << (a[1]*m) % 256,                 ((a[2]*m) % 256) + a[1] \div d,
        ((a[3]*m) % 256) + a[2] \div d,   ((a[4]*m) % 256) + a[3] \div d,
        ((a[5]*m) % 256) + a[4] \div d,   ((a[6]*m) % 256) + a[5] \div d,
        ((a[7]*m) % 256) + a[6] \div d,   ((a[8]*m) % 256) + a[7] \div d >>

(* the two words <<hi, lo>> shifted left together: bits of lo enter hi *)
Shl128Hi(hi, lo, k) ==
  LET s == Shl(hi, k) IN <<s[1] + lo[8] \div 2^(8-k), s[2], s[3], s[4], s[5], s[6], s[7], s[8]>>

(* a 32-bit half, as 4 bytes, rotated left by n bits, 0 <= n < 32 *)
RotBytes4(h, q) ==
  CASE q = 0 -> h
    [] q = 1 -> <<h[4], h[1], h[2], h[3]>>
    [] q = 2 -> <<h[3], h[4], h[1], h[2]>>
    [] q = 3 -> <<h[2], h[3], h[4], h[1]>>
RotL4(h, n) ==
  LET g == RotBytes4(h, n \div 8)
      m == 2^(n % 8)
      d == 2^(8 - (n % 8))
  IN << ((g[1]*m) % 256) + g[4] \div d, ((g[2]*m) % 256) + g[1] \div d,
        ((g[3]*m) % 256) + g[2] \div d, ((g[4]*m) % 256) + g[3] \div d >>
(* both 32-bit halves of a word rotated left by n bits *)
RotHalves(a, n) ==
  LET l == RotL4(<<a[1], a[2], a[3], a[4]>>, n)
      h == RotL4(<<a[5], a[6], a[7], a[8]>>, n)
  IN <<l[1], l[2], l[3], l[4], h[1], h[2], h[3], h[4]>>

Zero64 == <<0, 0, 0, 0, 0, 0, 0, 0>>

(* eight bytes of the byte sequence s starting after position o, read as a little-endian word *)
WordAt(s, o) == <<s[o+1], s[o+2], s[o+3], s[o+4], s[o+5], s[o+6], s[o+7], s[o+8]>>
=============================================================================
