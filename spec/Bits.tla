-------------------------------- MODULE Bits --------------------------------
(* A bit string stored LSB-first in bytes, and the number forms of the JPEG XL
   format read from it.  64-bit values are four 16-bit limbs, least significant
   first (TLC integers are 32-bit signed). *)
EXTENDS Integers, Sequences

NBits(b) == 8 * Len(b)

ByteAt(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0

(* n <= 16 bits at bit position p; zero bits beyond the end *)
GetBits(b, p, n) ==
  IF n = 0 THEN 0
  ELSE LET i == p \div 8
           w == ByteAt(b, i) + 256 * ByteAt(b, i + 1) + 65536 * ByteAt(b, i + 2)
       IN (w \div (2 ^ (p % 8))) % (2 ^ n)

(* n <= 30 bits as one integer *)
GetBits30(b, p, n) ==
  IF n <= 16 THEN GetBits(b, p, n)
  ELSE GetBits(b, p, 16) + 65536 * GetBits(b, p + 16, n - 16)

Min2(a, c) == IF a < c THEN a ELSE c
Max2(a, c) == IF a > c THEN a ELSE c

Limb(b, p, n, i) == IF n <= 16 * i THEN 0 ELSE GetBits(b, p + 16 * i, Min2(16, n - 16 * i))
Limbs(b, p, n) == << Limb(b, p, n, 0), Limb(b, p, n, 1), Limb(b, p, n, 2), Limb(b, p, n, 3) >>

L(x) == << x % 65536, x \div 65536, 0, 0 >>      \* 0 <= x < 2^31
Zero4 == <<0, 0, 0, 0>>

(* sum modulo 2^64 of two limb vectors *)
AddL(a, c) ==
  LET s0 == a[1] + c[1]
      s1 == a[2] + c[2] + s0 \div 65536
      s2 == a[3] + c[3] + s1 \div 65536
      s3 == a[4] + c[4] + s2 \div 65536
  IN << s0 % 65536, s1 % 65536, s2 % 65536, s3 % 65536 >>
Trunc32(a) == << a[1], a[2], 0, 0 >>

(* shift right by one of a limb vector *)
ShrL(a) == << a[1] \div 2 + (a[2] % 2) * 32768, a[2] \div 2 + (a[3] % 2) * 32768,
              a[3] \div 2 + (a[4] % 2) * 32768, a[4] \div 2 >>
Not16(x) == 65535 - x
NotL(a) == << Not16(a[1]), Not16(a[2]), Not16(a[3]), Not16(a[4]) >>

(* bit n (0-based) of the limb vector *)
(* limb vector of a value of n bits shifted left by s (s + n <= 64): placed bitwise *)
ShlBits(b, p, n, s) ==
  LET li(i) == \* limb i takes bits [16i-s, 16i-s+16) of the value
        LET lo == 16 * i - s
            from == Max2(lo, 0)
            to == Min2(lo + 16, n)
        IN IF to <= from THEN 0 ELSE GetBits(b, p + from, to - from) * (2 ^ (from - lo))
  IN << li(0), li(1), li(2), li(3) >>

-----------------------------------------------------------------------------
(* Number forms.  Each returns [err, v (limbs), p (cursor afterwards)]. *)
Fail == [err |-> TRUE, v |-> Zero4, p |-> 0]
Take(b, p, n) == IF p + n > NBits(b) THEN Fail ELSE [err |-> FALSE, v |-> Limbs(b, p, n), p |-> p + n]

(* selector form: table <<c0,u0,c1,u1,c2,u2,c3,u3>> *)
U32(b, p, tab) ==
  IF p + 2 > NBits(b) THEN Fail
  ELSE LET s == GetBits(b, p, 2)
           r == Take(b, p + 2, tab[2 * s + 2])
       IN IF r.err THEN Fail ELSE [r EXCEPT !.v = Trunc32(AddL(r.v, L(tab[2 * s + 1])))]

Enum(b, p) ==
  LET r == U32(b, p, <<0, 0, 1, 0, 2, 4, 18, 6>>)
  IN IF r.err \/ r.v[1] > 63 THEN Fail ELSE r

U8(b, p) ==
  IF p + 1 > NBits(b) THEN Fail
  ELSE IF GetBits(b, p, 1) = 0 THEN [err |-> FALSE, v |-> Zero4, p |-> p + 1]
  ELSE IF p + 4 > NBits(b) THEN Fail
  ELSE LET n == GetBits(b, p + 1, 3) r == Take(b, p + 4, n)
       IN IF r.err THEN Fail ELSE [r EXCEPT !.v = AddL(r.v, L(2 ^ n))]

(* 64-bit form: continuation chunks of 8 bits from shift 12, last chunk of 4 bits at shift 60 *)
RECURSIVE U64Tail(_, _, _, _)
U64Tail(b, p, acc, shift) ==
  IF p + 1 > NBits(b) THEN Fail
  ELSE IF GetBits(b, p, 1) = 0 THEN [err |-> FALSE, v |-> acc, p |-> p + 1]
  ELSE LET n == IF shift = 60 THEN 4 ELSE 8
       IN IF p + 1 + n > NBits(b) THEN Fail
          ELSE LET a2 == AddL(acc, ShlBits(b, p + 1, n, shift))
               IN IF shift = 60 THEN [err |-> FALSE, v |-> a2, p |-> p + 1 + n]
                  ELSE U64Tail(b, p + 1 + n, a2, shift + 8)
U64(b, p) ==
  IF p + 2 > NBits(b) THEN Fail
  ELSE LET s == GetBits(b, p, 2)
       IN CASE s = 0 -> [err |-> FALSE, v |-> Zero4, p |-> p + 2]
            [] s = 1 -> (LET r == Take(b, p + 2, 4) IN IF r.err THEN r ELSE [r EXCEPT !.v = AddL(r.v, L(1))])
            [] s = 2 -> (LET r == Take(b, p + 2, 8) IN IF r.err THEN r ELSE [r EXCEPT !.v = AddL(r.v, L(17))])
            [] s = 3 -> (LET r == Take(b, p + 2, 12) IN IF r.err THEN r ELSE U64Tail(b, p + 14, r.v, 12))

(* half float -> bits of the equal single float: <<lo16, hi16, 0, 0>> *)
RECURSIVE FloorLog2(_)
FloorLog2(m) == IF m <= 1 THEN 0 ELSE 1 + FloorLog2(m \div 2)
F16(b, p) ==
  IF p + 16 > NBits(b) THEN Fail
  ELSE LET h == GetBits(b, p, 16)
           sign == h \div 32768
           ex == (h \div 1024) % 32
           m == h % 1024
           f32(e, mant) == << (mant % 65536), sign * 32768 + e * 128 + mant \div 65536, 0, 0 >>
       IN IF ex = 31 THEN Fail
          ELSE [err |-> FALSE, p |-> p + 16,
                v |-> IF ex = 0
                      THEN IF m = 0 THEN << 0, sign * 32768, 0, 0 >>
                           ELSE LET k == FloorLog2(m) IN f32(k - 24 + 127, (m - 2 ^ k) * 2 ^ (23 - k))
                      ELSE f32(ex + 112, m * 8192)]

(* ICC varint: 7-bit groups, least significant first, at most nine groups *)
RECURSIVE VarTail(_, _, _, _)
VarTail(b, p, acc, shift) ==
  IF p + 8 > NBits(b) THEN Fail
  ELSE LET a2 == AddL(acc, ShlBits(b, p, 7, shift))
       IN IF GetBits(b, p + 7, 1) = 0 \/ shift = 56 THEN [err |-> FALSE, v |-> a2, p |-> p + 8]
          ELSE VarTail(b, p + 8, a2, shift + 7)
ICCVarint(b, p) == VarTail(b, p, Zero4, 0)

(* zig-zag: u even -> u/2, u odd -> -(u+1)/2, in two's complement *)
Zig64(a) == IF a[1] % 2 = 0 THEN ShrL(a) ELSE NotL(ShrL(a))
Zig32(a) == Trunc32(Zig64(Trunc32(a)))
UnpackInt(u) == IF u % 2 = 0 THEN u \div 2 ELSE -((u + 1) \div 2)
=============================================================================
