--------------------------------- MODULE Rd ---------------------------------
(* Unchecked field reads used by the structure parsers: bits beyond the end read
   as zero, and each parser compares its final cursor with the end.  A read
   returns <<value, cursor after>>.  Values are plain integers: fields of more
   than 30 bits are returned as -1 ("too big for the model") when they do not
   fit.                                                                       *)
EXTENDS Bits, TLC

Rbits(b, p, n) == << GetBits30(b, p, n), p + n >>
Rbool(b, p) == << GetBits(b, p, 1), p + 1 >>

Ru32(b, p, tab) ==
  LET s == GetBits(b, p, 2)
      n == tab[2 * s + 2]
  IN << tab[2 * s + 1] + GetBits30(b, p + 2, n), p + 2 + n >>

(* 64-bit form; -1 when the value does not fit in 30 bits *)
RECURSIVE Ru64Tail(_, _, _, _)
Ru64Tail(b, p, acc, shift) ==
  IF GetBits(b, p, 1) = 0 THEN << acc, p + 1 >>
  ELSE IF shift = 60 THEN << IF GetBits(b, p + 1, 4) = 0 THEN acc ELSE -1, p + 5 >>
  ELSE LET v == GetBits(b, p + 1, 8)
           a2 == IF acc < 0 \/ (v # 0 /\ shift > 20) THEN -1
                 ELSE IF v = 0 THEN acc ELSE acc + v * 2 ^ shift
       IN Ru64Tail(b, p + 9, a2, shift + 8)
Ru64(b, p) ==
  LET s == GetBits(b, p, 2)
  IN CASE s = 0 -> << 0, p + 2 >>
       [] s = 1 -> << 1 + GetBits(b, p + 2, 4), p + 6 >>
       [] s = 2 -> << 17 + GetBits(b, p + 2, 8), p + 10 >>
       [] s = 3 -> Ru64Tail(b, p + 14, GetBits(b, p + 2, 12), 12)

Ru8(b, p) ==
  IF GetBits(b, p, 1) = 0 THEN << 0, p + 1 >>
  ELSE LET n == GetBits(b, p + 1, 3) IN << 2 ^ n + GetBits(b, p + 4, n), p + 4 + n >>

Renum(b, p) == Ru32(b, p, <<0, 0, 1, 0, 2, 4, 18, 6>>)

RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
CeilDiv(a, c) == (a + c - 1) \div c
Iota(n) == TLCEval([i \in 1..n |-> i])
=============================================================================
