---------------------------- MODULE HighwayHash ----------------------------
(* The HighwayHash function (64/128/256 bit), byte-accurate, after Google's *)
(* reference description: key schedule, 32-byte packet update, remainder    *)
(* packing, 4/6/10 finalisation rounds, modular reduction.                  *)
(*                                                                          *)
(* A state is <<v0, v1, mul0, mul1>>, each <<lane0, .., lane3>>; a lane is  *)
(* an 8-tuple of bytes, least significant first.                            *)
EXTENDS Words, SequencesExt

AddL(x, y) == <<Add64(x[1],y[1]), Add64(x[2],y[2]), Add64(x[3],y[3]), Add64(x[4],y[4])>>
XorL(x, y) == <<Xor64(x[1],y[1]), Xor64(x[2],y[2]), Xor64(x[3],y[3]), Xor64(x[4],y[4])>>
MulL(x, y) == <<MulLoHi(x[1],y[1]), MulLoHi(x[2],y[2]), MulLoHi(x[3],y[3]), MulLoHi(x[4],y[4])>>

Mul0Init == << <<47, 206, 76, 254, 213, 213, 230, 219>>,     \* dbe6d5d5fe4cce2f
               <<208, 49, 159, 41, 34, 56, 9, 164>>,         \* a4093822299f31d0
               <<68, 115, 112, 3, 46, 138, 25, 19>>,         \* 13198a2e03707344
               <<211, 8, 163, 133, 136, 106, 63, 36>> >>     \* 243f6a8885a308d3
Mul1Init == << <<147, 245, 14, 203, 16, 158, 211, 59>>,      \* 3bd39e10cb0ef593
               <<140, 138, 241, 181, 105, 241, 172, 192>>,   \* c0acf169b5f18a8c
               <<108, 12, 233, 52, 207, 102, 84, 190>>,      \* be5466cf34e90c6c
               <<119, 19, 208, 56, 230, 33, 40, 69>> >>      \* 452821e638d01377

LanesOf(b) == <<WordAt(b, 0), WordAt(b, 8), WordAt(b, 16), WordAt(b, 24)>>

(* key: four lanes *)
InitState(key) ==
  << XorL(Mul0Init, key),
     XorL(Mul1Init, <<Rot32(key[1]), Rot32(key[2]), Rot32(key[3]), Rot32(key[4])>>),
     Mul0Init, Mul1Init >>

(* zipper merge of a pair of lanes: a byte permutation *)
ZipLo(lo, hi) == <<lo[4], hi[5], lo[3], lo[6], hi[7], lo[2], hi[8], lo[1]>>
ZipHi(lo, hi) == <<hi[4], lo[5], hi[3], hi[6], hi[2], lo[7], hi[1], lo[8]>>
Zipper(x) == <<ZipLo(x[1],x[2]), ZipHi(x[1],x[2]), ZipLo(x[3],x[4]), ZipHi(x[3],x[4])>>

(* one packet of four lanes *)
Update(s, p) ==
  LET v1 == AddL(s[2], AddL(s[3], p))
      m0 == XorL(s[3], MulL(v1, s[1]))
      v0 == AddL(s[1], s[4])
      m1 == XorL(s[4], MulL(v0, v1))
      v0b == AddL(v0, Zipper(v1))
      v1b == AddL(v1, Zipper(v0b))
  IN <<v0b, v1b, m0, m1>>

PermuteL(x) == <<Rot32(x[3]), Rot32(x[4]), Rot32(x[1]), Rot32(x[2])>>
PermuteAndUpdate(s) == Update(s, PermuteL(s[1]))

Rounds64 == <<1, 2, 3, 4>>
Rounds128 == <<1, 2, 3, 4, 5, 6>>
Rounds256 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>
Rounds(s, r) == FoldLeft(LAMBDA a, i: PermuteAndUpdate(a), s, r)

(* the packing of 1..31 pending bytes into a packet *)
ZeroBytes(n) == SubSeq(<<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, 1, n)
RemainderPacket(b) ==
  LET n == Len(b)  r == n % 4  whole == SubSeq(b, 1, n - r) IN
  IF n >= 16
  THEN \* the last four bytes fill the top of the packet
       whole \o ZeroBytes(28 - Len(whole)) \o SubSeq(b, n - 3, n)
  ELSE IF r = 0 THEN whole \o ZeroBytes(32 - n)
  ELSE whole \o ZeroBytes(16 - Len(whole))
             \o << b[n - r + 1], b[n - r + 1 + (r \div 2)], b[n] >> \o ZeroBytes(13)

SizeWord(n) == <<n, 0, 0, 0, n, 0, 0, 0>>
UpdateRemainder(s, b) ==
  LET n == Len(b)
      z == SizeWord(n)
      v0 == AddL(s[1], <<z, z, z, z>>)
      v1 == <<RotHalves(s[2][1], n), RotHalves(s[2][2], n), RotHalves(s[2][3], n), RotHalves(s[2][4], n)>>
  IN Update(<<v0, v1, s[3], s[4]>>, LanesOf(RemainderPacket(b)))
WithRemainder(s, pend) == IF Len(pend) = 0 THEN s ELSE UpdateRemainder(s, pend)

ModRed(a3u, a2, a1, a0) ==
  LET a3 == <<a3u[1], a3u[2], a3u[3], a3u[4], a3u[5], a3u[6], a3u[7], a3u[8] % 64>>
      hi == Xor64(a1, Xor64(Shl128Hi(a3, a2, 1), Shl128Hi(a3, a2, 2)))
      lo == Xor64(a0, Xor64(Shl(a2, 1), Shl(a2, 2)))
  IN <<lo, hi>>

Result64(t) == << Add64(Add64(t[1][1], t[2][1]), Add64(t[3][1], t[4][1])) >>
Result128(t) == << Add64(Add64(t[1][1], t[3][1]), Add64(t[2][3], t[4][3])),
                   Add64(Add64(t[1][2], t[3][2]), Add64(t[2][4], t[4][4])) >>
Result256(t) ==
  ModRed(Add64(t[2][2], t[4][2]), Add64(t[2][1], t[4][1]), Add64(t[1][2], t[3][2]), Add64(t[1][1], t[3][1]))
  \o
  ModRed(Add64(t[2][4], t[4][4]), Add64(t[2][3], t[4][3]), Add64(t[1][4], t[3][4]), Add64(t[1][3], t[3][3]))

(* The results, as sequences of words, from the state after the full packets and the pending bytes *)
Final64(s, pend) == Result64(Rounds(WithRemainder(s, pend), Rounds64))
Final128(s, pend) == Result128(Rounds(WithRemainder(s, pend), Rounds128))
Final256(s, pend) == Result256(Rounds(WithRemainder(s, pend), Rounds256))
Final(s, pend, w) == CASE w = 64 -> Final64(s, pend) [] w = 128 -> Final128(s, pend) [] w = 256 -> Final256(s, pend)

(* Absorbing bytes: all full packets of (pending \o data) *)
PacketAt(b, i) == LanesOf(SubSeq(b, 32*(i-1) + 1, 32*i))
PacketIndices(n) == [i \in 1..n |-> i]
AbsorbFull(s, b) == FoldLeft(LAMBDA a, i: Update(a, PacketAt(b, i)), s, PacketIndices(Len(b) \div 32))
Leftover(b) == SubSeq(b, 32 * (Len(b) \div 32) + 1, Len(b))

(* The whole function *)
Hash(key, data, w) == Final(AbsorbFull(InitState(key), data), Leftover(data), w)

(* The 164-byte checkpoint: 16 lanes, the pending bytes zero-filled, their count *)
LaneBytes(x) == x[1] \o x[2] \o x[3] \o x[4]
Encode(s, pend) ==
  LaneBytes(s[1]) \o LaneBytes(s[2]) \o LaneBytes(s[3]) \o LaneBytes(s[4])
  \o pend \o ZeroBytes(32 - Len(pend)) \o <<Len(pend), 0, 0, 0>>
DecodeState(c) == << LanesOf(SubSeq(c, 1, 32)), LanesOf(SubSeq(c, 33, 64)),
                     LanesOf(SubSeq(c, 65, 96)), LanesOf(SubSeq(c, 97, 128)) >>
(* the count clamped to the buffer: restore is total *)
DecodeCount(c) == IF c[162] # 0 \/ c[163] # 0 \/ c[164] # 0 \/ c[161] > 32 THEN 32 ELSE c[161]
DecodeBuffer(c) == SubSeq(c, 129, 128 + DecodeCount(c))
=============================================================================
