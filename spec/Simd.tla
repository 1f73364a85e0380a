-------------------------------- MODULE Simd --------------------------------
(* The four vector implementations, instruction by instruction, against the *)
(* function of HighwayHash.tla.                                             *)
(*                                                                          *)
(* A register is a tuple of 64-bit lanes in register order: two lanes       *)
(* (sse, neon, wasm) or four (avx).  wasm keeps the low lane of a pair in   *)
(* the upper half of its registers; all others keep it in the lower half.   *)
(* A state is <<v0L, v0H, v1L, v1H, m0L, m0H, m1L, m1H>> or, for avx,       *)
(* <<v0, v1, m0, m1>>.                                                      *)
(*                                                                          *)
(* What merely moves bits around (zipper merge, the remainder's packet, the *)
(* rotation, the modular reduction) is checked completely, on bytes that    *)
(* are all different and on single bits; the rest on states that are        *)
(* reached by absorbing packets of random and of boundary words.            *)
EXTENDS HighwayHash, TLC

CONSTANTS Backends, Seeds, Lengths, Packets,
          \* deliberate faults, to show that the checks bite
          SwappedZipper,   \* a table with two entries exchanged
          ShortMask,       \* avx: the lane masks are one short
          CountedOnce,     \* the length is added to the low half only
          NoSignMask       \* the reduction keeps the top bits

Pairs == {"sse", "neon", "wasm"}

(* ---- lanes *)
Z8 == Zero64
F8 == <<255, 255, 255, 255, 255, 255, 255, 255>>
And64(a, b) == [i \in 1..8 |-> a[i] & b[i]]
Or64(a, b) == [i \in 1..8 |-> a[i] | b[i]]
AndNot64(a, b) == [i \in 1..8 |-> a[i] & (255 - b[i])]
(* a 32-bit half, as bytes, shifted; counts of 32 and more give nothing *)
At4(h, i) == IF i < 1 \/ i > 4 THEN 0 ELSE h[i]
Shl4(h, k) == LET q == k \div 8  m == 2^(k % 8)  d == 2^(8 - (k % 8)) IN
              IF k > 31 THEN <<0, 0, 0, 0>> ELSE [i \in 1..4 |-> ((At4(h, i - q) * m) % 256) + (At4(h, i - q - 1) \div d)]
Shr4(h, k) == LET q == k \div 8  d == 2^(k % 8)  m == 2^(8 - (k % 8)) IN
              IF k > 31 THEN <<0, 0, 0, 0>> ELSE [i \in 1..4 |-> (At4(h, i + q) \div d) + ((At4(h, i + q + 1) * m) % 256)]
Lo4(a) == <<a[1], a[2], a[3], a[4]>>
Hi4(a) == <<a[5], a[6], a[7], a[8]>>
Srl64(a, k) == CASE k = 32 -> <<a[5], a[6], a[7], a[8], 0, 0, 0, 0>>
                 [] k = 62 -> <<a[8] \div 64, 0, 0, 0, 0, 0, 0, 0>>
                 [] k = 63 -> <<a[8] \div 128, 0, 0, 0, 0, 0, 0, 0>>
(* low half times low half *)
MulLow(a, b) == MulLoHi(a, Rot32(b))

(* ---- vectors *)
VAdd(x, y) == [i \in DOMAIN x |-> Add64(x[i], y[i])]
VXor(x, y) == [i \in DOMAIN x |-> Xor64(x[i], y[i])]
VOr(x, y) == [i \in DOMAIN x |-> Or64(x[i], y[i])]
VAnd(x, y) == [i \in DOMAIN x |-> And64(x[i], y[i])]
VAndNot(x, y) == [i \in DOMAIN x |-> AndNot64(x[i], y[i])]
VRot32(x) == [i \in DOMAIN x |-> Rot32(x[i])]
VSrl(x, k) == [i \in DOMAIN x |-> Srl64(x[i], k)]
VSll32(x, k) == [i \in DOMAIN x |-> Shl4(Lo4(x[i]), k) \o Shl4(Hi4(x[i]), k)]
VSrl32(x, k) == [i \in DOMAIN x |-> Shr4(Lo4(x[i]), k) \o Shr4(Hi4(x[i]), k)]
VMulLow(x, y) == [i \in DOMAIN x |-> MulLow(x[i], y[i])]
ByteOf(x, k) == x[(k \div 8) + 1][(k % 8) + 1]
Pick(x, t, o) == <<ByteOf(x, t[o+1]), ByteOf(x, t[o+2]), ByteOf(x, t[o+3]), ByteOf(x, t[o+4]),
                   ByteOf(x, t[o+5]), ByteOf(x, t[o+6]), ByteOf(x, t[o+7]), ByteOf(x, t[o+8])>>
Shuffle(x, t) == <<Pick(x, t, 0), Pick(x, t, 8)>>
(* within each 128-bit half *)
Shuffle256(x, t) == Shuffle(<<x[1], x[2]>>, t) \o Shuffle(<<x[3], x[4]>>, t)

(* ---- a pair of lanes <<low, high>> in a register, and back *)
Reg(b, lo, hi) == IF b = "wasm" THEN <<hi, lo>> ELSE <<lo, hi>>
LowLane(b, x) == IF b = "wasm" THEN x[2] ELSE x[1]
HighLane(b, x) == IF b = "wasm" THEN x[1] ELSE x[2]
Both(b, x) == <<LowLane(b, x), HighLane(b, x)>>

Enter(b, s) ==
  IF b = "avx" THEN s
  ELSE << Reg(b, s[1][1], s[1][2]), Reg(b, s[1][3], s[1][4]), Reg(b, s[2][1], s[2][2]), Reg(b, s[2][3], s[2][4]),
          Reg(b, s[3][1], s[3][2]), Reg(b, s[3][3], s[3][4]), Reg(b, s[4][1], s[4][2]), Reg(b, s[4][3], s[4][4]) >>
Leave(b, r) ==
  IF b = "avx" THEN r
  ELSE << Both(b, r[1]) \o Both(b, r[2]), Both(b, r[3]) \o Both(b, r[4]), Both(b, r[5]) \o Both(b, r[6]), Both(b, r[7]) \o Both(b, r[8]) >>

(* the key schedule, on registers *)
KeyState(b, k) ==
  IF b = "avx" THEN <<VXor(k, Mul0Init), VXor(VRot32(k), Mul1Init), Mul0Init, Mul1Init>>
  ELSE LET kL == Reg(b, k[1], k[2])  kH == Reg(b, k[3], k[4])
           i0L == Reg(b, Mul0Init[1], Mul0Init[2])  i0H == Reg(b, Mul0Init[3], Mul0Init[4])
           i1L == Reg(b, Mul1Init[1], Mul1Init[2])  i1H == Reg(b, Mul1Init[3], Mul1Init[4])
       IN <<VXor(kL, i0L), VXor(kH, i0H), VXor(VRot32(kL), i1L), VXor(VRot32(kH), i1H), i0L, i0H, i1L, i1H>>

(* ---- zipper merge: byte tables *)
TableX86 == IF SwappedZipper THEN <<3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 6, 9, 8, 7>>
            ELSE <<3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7>>
TableWasm == <<3, 12, 2, 5, 1, 14, 0, 15, 11, 4, 10, 13, 6, 9, 7, 8>>
ZipV(b, x) == CASE b = "avx" -> Shuffle256(x, TableX86)
               [] b = "wasm" -> Shuffle(x, TableWasm)
               [] OTHER -> Shuffle(x, TableX86)

(* ---- the products of update: a's low halves by c's high halves *)
MulL2(b, a, c) == CASE b = "neon" -> VMulLow(a, VSrl(c, 32))      \* narrowing moves and a widening multiplication
                    [] b = "wasm" -> LET m == <<<<255,255,255,255,0,0,0,0>>, <<255,255,255,255,0,0,0,0>>>> IN
                                     VMulLow(VAnd(a, m), VAnd(VRot32(c), m))
                    [] b = "avx" -> VMulLow(a, VSrl(c, 32))
                    [] b = "sse" -> VMulLow(a, VRot32(c))
MulH2(b, a, c) == IF b = "sse" THEN VMulLow(a, VSrl(c, 32)) ELSE MulL2(b, a, c)

(* the packet is <<high, low>>, for avx one register *)
UpdR(b, r, p) ==
  IF b = "avx" THEN
    LET v1 == VAdd(VAdd(r[2], p), r[3])
        m0 == VXor(r[3], MulL2(b, v1, r[1]))
        v0 == VAdd(r[1], r[4])
        m1 == VXor(r[4], MulL2(b, v0, v1))
        v0b == VAdd(v0, ZipV(b, v1))
    IN <<v0b, VAdd(v1, ZipV(b, v0b)), m0, m1>>
  ELSE
    LET v1L == VAdd(VAdd(r[3], p[2]), r[5])
        v1H == VAdd(VAdd(r[4], p[1]), r[6])
        m0L == VXor(r[5], MulL2(b, v1L, r[1]))
        m0H == VXor(r[6], MulH2(b, v1H, r[2]))
        v0L == VAdd(r[1], r[7])
        v0H == VAdd(r[2], r[8])
        m1L == VXor(r[7], MulL2(b, v0L, v1L))
        m1H == VXor(r[8], MulH2(b, v0H, v1H))
        w0L == VAdd(v0L, ZipV(b, v1L))
        w0H == VAdd(v0H, ZipV(b, v1H))
    IN <<w0L, w0H, VAdd(v1L, ZipV(b, w0L)), VAdd(v1H, ZipV(b, w0H)), m0L, m0H, m1L, m1H>>

DataToLanes(b, d) ==
  LET x == LanesOf(d) IN IF b = "avx" THEN x ELSE <<Reg(b, x[3], x[4]), Reg(b, x[1], x[2])>>

(* ---- the remainder *)
Word4(d, o) == <<d[o+1], d[o+2], d[o+3], d[o+4]>>
Rest(d, o) == SubSeq(d, o + 1, Len(d))
(* at most 15 bytes, of which whole words are loaded, as lanes <<low, high>> *)
MultipleOfFour(b, d, size) ==
  LET eight == Len(d) >= 8
      low == IF eight THEN WordAt(d, 0) ELSE Z8
      rest == IF eight THEN Rest(d, 8) ELSE d
      has == IF b = "neon" THEN (size \div 4) % 2 = 1 ELSE Len(rest) >= 4
      mask == <<255, 255, 255, 255, 0, 0, 0, 0>>
      word == Word4(rest, 0)
      both == word \o word
  IN IF ~has THEN <<low, Z8>>
     ELSE IF eight THEN <<Or64(low, And64(both, Z8)), And64(both, mask)>>
     ELSE <<And64(both, mask), Z8>>
(* avx: words below the size are loaded *)
MaskLoad(d, o, size, base) ==
  LET has(j) == size > base + 4*j + (IF ShortMask THEN 4 ELSE 0)
      w(j) == IF has(j) THEN Word4(d, o + 4*j) ELSE <<0, 0, 0, 0>>
  IN <<w(0) \o w(1), w(2) \o w(3)>>
Load3(d) == LET m == Len(d) % 4 IN
  IF Len(d) = 0 THEN Z8 ELSE <<d[1], d[(m \div 2) + 1], d[m], 0, 0, 0, 0, 0>>
RemPacket(b, d) ==
  LET n == Len(d)
      last4 == Word4(d, n - 4)
  IN IF n >= 16 THEN
       LET lo == <<WordAt(d, 0), WordAt(d, 8)>>
           t == IF b = "avx" THEN MaskLoad(d, 16, n, 19) ELSE MultipleOfFour(b, Rest(d, 16), n)
           hi == <<t[1], Lo4(t[2]) \o last4>>
       IN IF b = "avx" THEN lo \o hi ELSE <<Reg(b, hi[1], hi[2]), Reg(b, lo[1], lo[2])>>
     ELSE
       LET lo == IF b = "avx" THEN MaskLoad(d, 0, n, 3) ELSE MultipleOfFour(b, d, n)
           hi == <<Load3(Rest(d, n - (n % 4))), Z8>>
       IN IF b = "avx" THEN lo \o hi ELSE <<Reg(b, hi[1], hi[2]), Reg(b, lo[1], lo[2])>>

RotBy(x, n) == VOr(VSll32(x, n), VSrl32(x, 32 - n))
SizeLane(n) == IF CountedOnce THEN <<n, 0, 0, 0, 0, 0, 0, 0>> ELSE SizeWord(n)
RemUpd(b, r, d) ==
  LET n == Len(d)  z == SizeLane(n) IN
  IF b = "avx" THEN UpdR(b, <<VAdd(r[1], <<z, z, z, z>>), RotBy(r[2], n), r[3], r[4]>>, RemPacket(b, d))
  ELSE UpdR(b, <<VAdd(r[1], <<z, z>>), VAdd(r[2], <<z, z>>), RotBy(r[3], n), RotBy(r[4], n), r[5], r[6], r[7], r[8]>>, RemPacket(b, d))

(* ---- finalisation *)
Perm(b, r) ==
  IF b = "avx" THEN \* permutevar8x32 by 5 4 7 6 1 0 3 2
    LET w(j) == IF j % 2 = 0 THEN Lo4(r[1][(j \div 2) + 1]) ELSE Hi4(r[1][(j \div 2) + 1])
    IN <<w(5) \o w(4), w(7) \o w(6), w(1) \o w(0), w(3) \o w(2)>>
  ELSE <<VRot32(r[1]), VRot32(r[2])>>
RoundsR(b, r, n) == FoldLeft(LAMBDA a, i: UpdR(b, a, Perm(b, a)), r, n)

Sign == <<0, 0, 0, 0, 0, 0, 0, 128>>
(* one 128-bit reduction, on lanes <<low, high>>: the byte shift moves the low lane up *)
Red(x, init) ==
  LET top2 == VSrl(x, 62)
      once == VAdd(x, x)
      top1 == VSrl(x, 63)
      twice == VAdd(once, once)
      s1 == IF NoSignMask THEN once ELSE VAndNot(once, <<Z8, Sign>>)
  IN VXor(VXor(VXor(VXor(init, twice), <<Z8, top2[1]>>), s1), <<Z8, top1[1]>>)
(* the same on registers *)
RedR(b, x, init) ==
  IF b = "avx" THEN Red(<<x[1], x[2]>>, <<init[1], init[2]>>) \o Red(<<x[3], x[4]>>, <<init[3], init[4]>>)
  ELSE LET y == Red(Both(b, x), Both(b, init)) IN Reg(b, y[1], y[2])
FinR(b, r, d, w) ==
  LET q == IF Len(d) = 0 THEN r ELSE RemUpd(b, r, d)
      t == RoundsR(b, q, CASE w = 64 -> Rounds64 [] w = 128 -> Rounds128 [] w = 256 -> Rounds256)
  IN IF b = "avx" THEN
       LET s0 == VAdd(t[1], t[3])  s1 == VAdd(t[2], t[4]) IN
       CASE w = 64 -> <<Add64(s0[1], s1[1])>>
         [] w = 128 -> VAdd(<<s0[1], s0[2]>>, <<s1[3], s1[4]>>)
         [] w = 256 -> RedR(b, s1, s0)
     ELSE
       LET s0L == VAdd(t[1], t[5])  s1L == VAdd(t[3], t[7])  s0H == VAdd(t[2], t[6])  s1H == VAdd(t[4], t[8]) IN
       CASE w = 64 -> <<LowLane(b, VAdd(s0L, s1L))>>
         [] w = 128 -> Both(b, VAdd(s0L, s1H))
         [] w = 256 -> Both(b, RedR(b, s1L, s0L)) \o Both(b, RedR(b, s1H, s0H))

(* ---- what only moves bits: complete *)
Different(n) == [i \in 1..n |-> 2*i + 1]
Distinct32 == LanesOf(Different(32))
ZipperOK(b) ==
  LET x == Distinct32  z == Zipper(x) IN
  IF b = "avx" THEN ZipV(b, x) = z
  ELSE /\ Both(b, ZipV(b, Reg(b, x[1], x[2]))) = <<z[1], z[2]>>
       /\ Both(b, ZipV(b, Reg(b, x[3], x[4]))) = <<z[3], z[4]>>
PacketOK(b) ==
  \A n \in 1..31:
    LET d == Different(n)  x == LanesOf(RemainderPacket(d))  p == RemPacket(b, d) IN
    IF b = "avx" THEN p = x ELSE Both(b, p[2]) \o Both(b, p[1]) = x
Bit(i) == [j \in 1..8 |-> IF i \div 8 = j - 1 THEN 2^(i % 8) ELSE 0]
RotOK == \A i \in 0..63: \A n \in 1..31: RotBy(<<Bit(i), Z8>>, n) = <<RotHalves(Bit(i), n), Z8>>
RedOK ==
  /\ \A i \in 0..63: /\ Red(<<Bit(i), Z8>>, <<Z8, Z8>>) = ModRed(Z8, Bit(i), Z8, Z8)
                     /\ Red(<<Z8, Bit(i)>>, <<Z8, Z8>>) = ModRed(Bit(i), Z8, Z8, Z8)
                     /\ Red(<<Z8, Z8>>, <<Bit(i), Z8>>) = ModRed(Z8, Z8, Z8, Bit(i))
  /\ Red(<<F8, F8>>, <<F8, Z8>>) = ModRed(F8, F8, Z8, F8)
PermOK(b) ==
  LET s == <<Distinct32, Distinct32, Distinct32, Distinct32>>  p == Perm(b, Enter(b, s)) IN
  IF b = "avx" THEN p = PermuteL(Distinct32) ELSE Both(b, p[2]) \o Both(b, p[1]) = PermuteL(Distinct32)
KeyOK(b) == Leave(b, KeyState(b, Distinct32)) = InitState(Distinct32)
EnterOK(b) == LET s == InitState(Distinct32) IN Leave(b, Enter(b, s)) = s

(* ---- states that are reached *)
(* words: by a small generator, or boundary values *)
Boundary == << Z8, F8, <<255,255,255,255,0,0,0,0>>, <<0,0,0,0,255,255,255,255>>, Sign, <<0,0,0,128,0,0,0,128>>, <<1,0,0,0,0,0,0,0>>, <<255,255,255,127,255,255,255,127>> >>
Noise(a, i) == ((a * 7919 + i * 104729 + (a + i) * (a + 3*i) * 31 + 12345) \div 8) % 256
WordOf(a, i) == IF (a + i) % 3 = 0 THEN Boundary[((a \div 3 + i) % 8) + 1] ELSE [j \in 1..8 |-> Noise(a + 41*i, 8*i + j)]
QuadOf(a) == <<WordOf(a, 1), WordOf(a, 2), WordOf(a, 3), WordOf(a, 4)>>
BytesOf(a, n) == [j \in 1..n |-> Noise(a, j + 100)]

VARIABLES b, seed, n, s, r
vars == <<b, seed, n, s, r>>
Init == /\ b \in Backends /\ seed \in Seeds /\ n = 0
        /\ s = InitState(QuadOf(seed))
        /\ r = KeyState(b, QuadOf(seed))
PacketBytes(k) == LaneBytes(QuadOf(1000 + 17*seed + k))
Next == /\ n < Packets
        /\ n' = n + 1
        /\ LET d == PacketBytes(n) IN s' = Update(s, LanesOf(d)) /\ r' = UpdR(b, r, DataToLanes(b, d))
        /\ UNCHANGED <<b, seed>>
Spec == Init /\ [][Next]_vars

Follows == Leave(b, r) = s
Pend(k) == BytesOf(seed + 7*n, k)
Remainders == \A k \in Lengths: k > 0 => Leave(b, RemUpd(b, r, Pend(k))) = UpdateRemainder(s, Pend(k))
Results == \A k \in {j \in Lengths: (j + seed + n) % 4 = 0}: \A w \in {64, 128, 256}: FinR(b, r, Pend(k), w) = Final(s, Pend(k), w)
Moves == n = 0 => ZipperOK(b) /\ PacketOK(b) /\ PermOK(b) /\ KeyOK(b) /\ EnterOK(b) /\ RotOK /\ RedOK
=============================================================================
