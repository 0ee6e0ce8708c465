--------------------------------- MODULE Icc ---------------------------------
(* Reconstruction of an ICC profile from its compressed form b: two numbers (size of
   the profile, size of the commands), the commands, the data.
   State z: [st, ph, c, ce, d, out, n, ts, tz]
     ph   "sizes" -> "header" -> "count" -> "tags" -> "data" -> "done"
     c/ce next command byte / end of the commands,  d next data byte (all 0-based)
     out  the profile so far,  n its declared size
     ts, tz  start and size of the previous tag
   st = "" going on, "err" refuse, anything else: not laid down / outside the model. *)
EXTENDS Rd, SequencesExt

Lim30 == 1073741824
(* number at position p (0-based) before end e: <<status, value, next>> *)
Varint(b, p, e) ==
  LET one(a, i) ==
        IF a.fin \/ a.st # "" THEN a
        ELSE IF a.p >= e THEN [a EXCEPT !.st = "err"]
        ELSE IF i > 5 THEN [a EXCEPT !.st = "long number"]
        ELSE LET x == b[a.p + 1]
             IN IF i = 5 /\ x % 128 > 3 THEN [a EXCEPT !.st = "large number"]
                ELSE [st |-> "", v |-> a.v + (x % 128) * 128 ^ (i - 1), p |-> a.p + 1, fin |-> x < 128]
      z == FoldLeft(one, [st |-> "", v |-> 0, p |-> p, fin |-> FALSE], Iota(6))
  IN << z.st, z.v, z.p >>

BE32(v) == << v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256 >>
Zeros(n) == TLCEval([i \in 1..n |-> 0])
Bytes(b, p, n) == SubSeq(b, p + 1, p + n)

K(a, b, c, d) == <<a, b, c, d>>
XYZ_ == K(88, 89, 90, 32)
rTRC == K(114, 84, 82, 67)  gTRC == K(103, 84, 82, 67)  bTRC == K(98, 84, 82, 67)  kTRC == K(107, 84, 82, 67)
rXYZ == K(114, 88, 89, 90)  gXYZ == K(103, 88, 89, 90)  bXYZ == K(98, 88, 89, 90)  kXYZ == K(107, 88, 89, 90)
cprt == K(99, 112, 114, 116)  wtpt == K(119, 116, 112, 116)  bkpt == K(98, 107, 112, 116)  chad == K(99, 104, 97, 100)
desc == K(100, 101, 115, 99)  chrm == K(99, 104, 114, 109)  dmnd == K(100, 109, 110, 100)  dmdd == K(100, 109, 100, 100)
lumi == K(108, 117, 109, 105)
TagNames == << cprt, wtpt, bkpt, rXYZ, gXYZ, bXYZ, kXYZ, rTRC, gTRC, bTRC, kTRC, chad, desc, chrm, dmnd, dmdd, lumi >>
Points == {rXYZ, gXYZ, bXYZ, kXYZ, wtpt, bkpt, lumi}
TypeNames == << XYZ_, desc, K(116, 101, 120, 116), K(109, 108, 117, 99), K(112, 97, 114, 97), K(99, 117, 114, 118),
               K(115, 102, 51, 50), K(103, 98, 100, 32) >>

(* byte i (0-based) of the header as foreseen from the bytes before it *)
Fixed == << 4, 0, 0, 0,  109, 110, 116, 114, 82, 71, 66, 32, 88, 89, 90, 32 >>       \* bytes 8 .. 23
Foreseen(o, n, i) ==
  CASE i < 4 -> BE32(n)[i + 1]
    [] i >= 8 /\ i < 24 -> Fixed[i - 7]
    [] i >= 36 /\ i < 40 -> K(97, 99, 115, 112)[i - 35]
    [] i = 41 -> (CASE o[41] = 65 -> 80 [] o[41] = 77 -> 83 [] OTHER -> 0)
    [] i = 42 -> (CASE o[41] = 65 -> 80 [] o[41] = 77 -> 70 [] o[41] = 83 /\ o[42] = 71 -> 73 [] o[41] = 83 /\ o[42] = 85 -> 78 [] OTHER -> 0)
    [] i = 43 -> (CASE o[41] = 65 -> 76 [] o[41] = 77 -> 84 [] o[41] = 83 /\ o[42] = 71 -> 32 [] o[41] = 83 /\ o[42] = 85 -> 87 [] OTHER -> 0)
    [] i = 70 -> 246 [] i = 71 -> 214 [] i = 73 -> 1 [] i = 78 -> 211 [] i = 79 -> 45
    [] i >= 80 /\ i < 84 -> o[i - 75]
    [] OTHER -> 0

(* the bytes of x, which were stored column by column *)
Unshuffle(x, width) ==
  LET n == Len(x)
      h == (n + width - 1) \div width
      st == FoldLeft(LAMBDA a, i: LET j == a.j + h
                                  IN IF j >= n THEN [s |-> a.s + 1, j |-> a.s + 1, o |-> Append(a.o, x[a.j + 1])]
                                     ELSE [a EXCEPT !.j = j, !.o = Append(a.o, x[a.j + 1])],
                     [s |-> 0, j |-> 0, o |-> <<>>], Iota(n))
  IN st.o

(* one predicted byte: i-th of a run that began when the profile was start bytes long *)
Predicted(o, start, i, stride, width, order) ==
  LET g == start + (i \div width) * width                     \* where its group begins
      byte(k, j) == o[g - stride * k + j + 1]                 \* byte j of the group k strides before
      lo(k) == IF width = 1 THEN byte(k, 0) ELSE byte(k, width - 2) * 256 + byte(k, width - 1)
      hi(k) == IF width < 4 THEN 0 ELSE byte(k, 0) * 256 + byte(k, 1)
      mix(a, b, c) == CASE order = 0 -> a [] order = 1 -> 2 * a - b [] OTHER -> 3 * a - 3 * b + c
      Lo == mix(lo(1), IF order >= 1 THEN lo(2) ELSE 0, IF order = 2 THEN lo(3) ELSE 0)
      Hi == mix(hi(1), IF order >= 1 THEN hi(2) ELSE 0, IF order = 2 THEN hi(3) ELSE 0) + (Lo \div 65536)
      j == i % width
  IN CASE width = 1 -> Lo % 256
       [] width = 2 -> IF j = 0 THEN (Lo \div 256) % 256 ELSE Lo % 256
       [] OTHER -> CASE j = 0 -> (Hi \div 256) % 256 [] j = 1 -> Hi % 256 [] j = 2 -> (Lo \div 256) % 256 [] OTHER -> Lo % 256

Icc0(b) == [st |-> "", ph |-> "sizes", c |-> 0, ce |-> 0, d |-> 0, out |-> <<>>, n |-> 0, ts |-> 0, tz |-> 0]
Halt(z, st) == [z EXCEPT !.st = st]
(* the profile grows by x *)
Grow(z, x) == IF Len(z.out) + Len(x) > z.n THEN Halt(z, "err") ELSE [z EXCEPT !.out = @ \o x]

Sizes(b, z) ==
  LET a == Varint(b, 0, Len(b))
      k == Varint(b, a[3], Len(b))
  IN IF a[1] # "" THEN Halt(z, a[1])
     ELSE IF k[1] # "" THEN Halt(z, k[1])
     ELSE IF k[2] > Len(b) - k[3] THEN Halt(z, "err")
     ELSE [z EXCEPT !.ph = "header", !.n = a[2], !.c = k[3], !.ce = k[3] + k[2], !.d = k[3] + k[2]]

Header128(b, z) ==
  LET m == IF z.n < 128 THEN z.n ELSE 128
      o == FoldLeft(LAMBDA o, i: Append(o, (b[z.d + i] + Foreseen(o, z.n, i - 1)) % 256), <<>>, Iota(m))
  IN IF m > Len(b) - z.d THEN Halt(z, "err")
     ELSE [z EXCEPT !.out = o, !.d = z.d + m, !.ph = IF m = z.n THEN "done" ELSE "count"]

Count(b, z) ==
  LET k == Varint(b, z.c, z.ce)
  IN IF k[1] # "" THEN Halt(z, k[1])
     ELSE IF k[2] = 0 THEN [z EXCEPT !.c = k[3], !.ph = "data"]
     ELSE IF k[2] > 1000000 THEN Halt(z, "number of tags")
     ELSE [Grow(z, BE32(k[2] - 1)) EXCEPT !.c = k[3], !.ph = "tags", !.ts = 128 + 12 * (k[2] - 1), !.tz = 0]

(* one entry of the tag list *)
TagEntry(b, z) ==
  LET cmd == b[z.c + 1]
      code == cmd % 64
      own == code = 1
      name == CASE own -> Bytes(b, z.d, 4) [] code = 2 -> rTRC [] code = 3 -> rXYZ [] OTHER -> TagNames[code - 3]
      s == IF (cmd \div 64) % 2 = 1 THEN Varint(b, z.c + 1, z.ce) ELSE << "", z.ts + z.tz, z.c + 1 >>
      l == IF cmd \div 128 = 1 THEN Varint(b, s[3], z.ce) ELSE << "", IF name \in Points THEN 20 ELSE z.tz, s[3] >>
      e(nm, at) == nm \o BE32(at) \o BE32(l[2])
      x == CASE code = 2 -> e(rTRC, s[2]) \o e(gTRC, s[2]) \o e(bTRC, s[2])
             [] code = 3 -> e(rXYZ, s[2]) \o e(gXYZ, s[2] + l[2]) \o e(bXYZ, s[2] + 2 * l[2])
             [] OTHER -> e(name, s[2])
  IN IF z.c = z.ce THEN [z EXCEPT !.ph = "data"]
     ELSE IF code = 0 THEN [z EXCEPT !.c = z.c + 1, !.ph = "data"]
     ELSE IF code > 20 THEN Halt(z, "err")
     ELSE IF own /\ z.d + 4 > Len(b) THEN Halt(z, "err")
     ELSE IF s[1] # "" THEN Halt(z, s[1])
     ELSE IF l[1] # "" THEN Halt(z, l[1])
     ELSE IF s[2] >= 500000000 \/ l[2] >= 500000000 THEN Halt(z, "large tag")
     ELSE [Grow(z, x) EXCEPT !.c = l[3], !.d = IF own THEN z.d + 4 ELSE z.d, !.ts = s[2], !.tz = l[2]]

(* one data command *)
DataCmd(b, z) ==
  LET cmd == b[z.c + 1]
      num == Varint(b, z.c + 1, z.ce)              \* insert and shuffle
      flags == IF z.c + 1 < z.ce THEN b[z.c + 2] ELSE 0
      width == (flags % 4) + 1
      order == (flags \div 4) % 4
      st == IF (flags \div 16) % 2 = 1 THEN Varint(b, z.c + 2, z.ce) ELSE << "", width, z.c + 2 >>
      pn == Varint(b, st[3], z.ce)
      take(v) == v[2] <= Len(b) - z.d /\ v[2] <= z.n - Len(z.out)
  IN CASE cmd \in {1, 2, 3} ->
            IF num[1] # "" THEN Halt(z, num[1])
            ELSE IF ~take(num) THEN Halt(z, "err")
            ELSE LET x == Bytes(b, z.d, num[2])
                 IN [Grow(z, IF cmd = 1 THEN x ELSE Unshuffle(x, IF cmd = 2 THEN 2 ELSE 4)) EXCEPT !.c = num[3], !.d = z.d + num[2]]
       [] cmd = 4 ->
            IF z.c + 1 >= z.ce \/ width = 3 \/ order = 3 THEN Halt(z, "err")
            ELSE IF st[1] # "" THEN Halt(z, st[1])
            ELSE IF st[2] < width \/ st[2] > (Len(z.out) - 1) \div 4 THEN Halt(z, "err")
            ELSE IF pn[1] # "" THEN Halt(z, pn[1])
            ELSE IF ~take(pn) THEN Halt(z, "err")
            ELSE LET x == Unshuffle(Bytes(b, z.d, pn[2]), width)
                     s0 == Len(z.out)
                     o == FoldLeft(LAMBDA o, i: Append(o, (x[i] + Predicted(o, s0, i - 1, st[2], width, order)) % 256), z.out, Iota(pn[2]))
                 IN [z EXCEPT !.out = o, !.c = pn[3], !.d = z.d + pn[2]]
       [] cmd = 10 ->
            IF z.d + 12 > Len(b) THEN Halt(z, "err")
            ELSE [Grow(z, XYZ_ \o Zeros(4) \o Bytes(b, z.d, 12)) EXCEPT !.c = z.c + 1, !.d = z.d + 12]
       [] cmd >= 16 /\ cmd < 24 -> [Grow(z, TypeNames[cmd - 15] \o Zeros(4)) EXCEPT !.c = z.c + 1]
       [] OTHER -> Halt(z, "err")

IccStep(b, z) ==
  CASE z.ph = "sizes" -> Sizes(b, z)
    [] z.ph = "header" -> Header128(b, z)
    [] z.ph = "count" -> Count(b, z)
    [] z.ph = "tags" -> TagEntry(b, z)
    [] z.ph = "data" -> IF z.c < z.ce THEN DataCmd(b, z)
                        ELSE IF Len(z.out) # z.n THEN Halt(z, "err")
                        ELSE [z EXCEPT !.ph = "done"]

(* bytes or commands nobody asked for: not laid down whether that is an error *)
Leftover(b, z) == z.c < z.ce \/ z.d < Len(b)

IccDecode(b) == FoldLeft(LAMBDA z, i: IF z.st # "" \/ z.ph = "done" THEN z ELSE IccStep(b, z), Icc0(b), Iota(Len(b) + 6))
=============================================================================
