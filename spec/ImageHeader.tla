----------------------------- MODULE ImageHeader -----------------------------
(* The image header: signature, size, metadata, transform data and the
   compressed ICC stream.  ReadImageHeader returns [st, p, h]:
   st = "" accepted, "err" forbidden or cut off, anything else: outside the model. *)
EXTENDS Entropy

(* half float at p: status and bits of the equal single float as <<lo16, hi16>> *)
HalfBits(b, p) ==
  LET h == GetBits(b, p, 16)
      sign == h \div 32768
      ex == (h \div 1024) % 32
      m == h % 1024
      f32(e, mant) == << mant % 65536, sign * 32768 + e * 128 + mant \div 65536 >>
  IN IF ex = 0
     THEN IF m = 0 THEN << 0, sign * 32768 >>
          ELSE LET k == FloorLog2(m) IN f32(k - 24 + 127, (m - 2 ^ k) * 2 ^ (23 - k))
     ELSE f32(ex + 112, m * 8192)
HalfBad(b, p) == (GetBits(b, p, 16) \div 1024) % 32 = 31
HalfNeg(h) == h > 32768
HalfMag(h) == h % 32768

RECURSIVE AnyHalfBad(_, _, _)
AnyHalfBad(b, p, n) == n > 0 /\ (HalfBad(b, p) \/ AnyHalfBad(b, p + 16, n - 1))
Halves(b, p, n) == TLCEval([i \in 1..n |-> HalfBits(b, p + 16 * (i - 1))])

(* accumulate a status: the first one wins *)
Also(st, cond, s) == IF st # "" THEN st ELSE IF cond THEN s ELSE ""

Ratio(r, h) ==
  CASE r = 1 -> h
    [] r = 2 -> (h \div 10) * 12 + ((h % 10) * 12) \div 10
    [] r = 3 -> (h * 4) \div 3
    [] r = 4 -> (h * 3) \div 2
    [] r = 5 -> (h \div 9) * 16 + ((h % 9) * 16) \div 9
    [] r = 6 -> (h * 5) \div 4
    [] r = 7 -> h * 2

SizeTab == <<1, 9, 1, 13, 1, 18, 1, 30>>
MaxSide(level) == IF level = 10 THEN 268435456 ELSE 262144
(* 2^40 \div h, one binary digit at a time; h > 4096 *)
Div40(h) == FoldLeft(LAMBDA a, i: IF 2 * a[2] >= h THEN <<2 * a[1] + 1, 2 * a[2] - h>> ELSE <<2 * a[1], 2 * a[2]>>,
                     <<1073741824 \div h, 1073741824 % h>>, Iota(10))[1]
(* [st, p, w, h]: sides up to 2^18 and areas up to 2^30 (2^28 is what the format asks of a decoder), or
   2^28 and 2^40 in a file of level 10 *)
ReadSize(b, p, level) ==
  LET div8 == GetBits(b, p, 1) = 1
      hh == IF div8 THEN << (GetBits(b, p + 1, 5) + 1) * 8, p + 6 >> ELSE Ru32(b, p + 1, SizeTab)
      r == GetBits(b, hh[2], 3)
      big == MaxSide(level)
      ww == IF r # 0 THEN << IF hh[1] > big THEN 0 ELSE Ratio(r, hh[1]), hh[2] + 3 >>
            ELSE IF div8 THEN << (GetBits(b, hh[2] + 3, 5) + 1) * 8, hh[2] + 8 >>
            ELSE Ru32(b, hh[2] + 3, SizeTab)
  IN [st |-> IF hh[1] > big \/ ww[1] > big THEN "side"
             ELSE IF ww[1] = 0 THEN "no width"
             ELSE IF level = 10 THEN (IF hh[1] > 4096 /\ ww[1] > Div40(hh[1]) THEN "area40" ELSE "")
             ELSE IF ww[1] > 1073741824 \div hh[1] THEN "area30"
             ELSE IF ww[1] > 268435456 \div hh[1] THEN "area" ELSE "",
      p |-> ww[2], w |-> ww[1], h |-> hh[1]]

PrevTab8 == <<16, 0, 32, 0, 1, 5, 33, 9>>
PrevTab == <<1, 6, 65, 8, 321, 10, 1345, 12>>
ReadPreview(b, p) ==
  LET div8 == GetBits(b, p, 1) = 1
      h0 == Ru32(b, p + 1, IF div8 THEN PrevTab8 ELSE PrevTab)
      hh == << IF div8 THEN 8 * h0[1] ELSE h0[1], h0[2] >>
      r == GetBits(b, hh[2], 3)
      w0 == Ru32(b, hh[2] + 3, IF div8 THEN PrevTab8 ELSE PrevTab)
      ww == IF r # 0 THEN << Ratio(r, hh[1]), hh[2] + 3 >> ELSE << IF div8 THEN 8 * w0[1] ELSE w0[1], w0[2] >>
  IN [st |-> IF ww[1] > 4096 \/ hh[1] > 4096 THEN "err" ELSE IF ww[1] = 0 THEN "no width" ELSE "", p |-> ww[2], w |-> ww[1], h |-> hh[1]]

(* [st, p, bits, exp]; exp = 0 for integers *)
DefaultDepth == [bits |-> 8, exp |-> 0]
ReadDepth(b, p) ==
  IF GetBits(b, p, 1) = 0
  THEN LET r == Ru32(b, p + 1, <<8, 0, 10, 0, 12, 0, 1, 6>>)
       IN [st |-> IF r[1] > 31 THEN "err" ELSE "", p |-> r[2], bits |-> r[1], exp |-> 0]
  ELSE LET r == Ru32(b, p + 1, <<32, 0, 16, 0, 24, 0, 1, 6>>)
           e == GetBits(b, r[2], 4) + 1
           m == r[1] - e - 1
       IN [st |-> IF e < 2 \/ e > 8 \/ m < 2 \/ m > 23 THEN "err" ELSE "", p |-> r[2] + 4, bits |-> r[1], exp |-> e]

ReadName(b, p) ==       \* <<bytes, p>>
  LET n == Ru32(b, p, <<0, 0, 0, 4, 16, 5, 48, 10>>)
  IN << TLCEval([i \in 1..n[1] |-> GetBits(b, n[2] + 8 * (i - 1), 8)]), n[2] + 8 * n[1] >>

NoSpot == << <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>> >>
DefaultEC == [type |-> 0, bits |-> 8, exp |-> 0, shift |-> 0, name |-> <<>>, assoc |-> FALSE, spot |-> NoSpot, cfa |-> 1]
(* [st, p, e] *)
ReadEC(b, p) ==
  IF GetBits(b, p, 1) = 1 THEN [st |-> "", p |-> p + 1, e |-> DefaultEC]
  ELSE LET ty == Renum(b, p + 1)
           d == ReadDepth(b, ty[2])
           sh == Ru32(b, d.p, <<0, 0, 3, 0, 4, 0, 1, 3>>)
           nm == ReadName(b, sh[2])
           p1 == IF ty[1] = 0 THEN nm[2] + 1 ELSE nm[2]
           p2 == IF ty[1] = 2 THEN p1 + 64 ELSE p1
           cf == IF ty[1] = 5 THEN Ru32(b, p2, <<1, 0, 0, 2, 3, 4, 19, 8>>) ELSE << 1, p2 >>
           st == Also(Also(Also(Also("", ty[1] \notin (0..6) \cup {15, 16}, "err"), d.st # "", d.st),
                           ty[1] = 2 /\ AnyHalfBad(b, p1, 4), "err"),
                      sh[1] > 3 \/ ty[1] = 15, "extra channel not in the model")
       IN [st |-> st, p |-> cf[2],
           e |-> [type |-> ty[1], bits |-> d.bits, exp |-> d.exp, shift |-> sh[1], name |-> nm[1],
                  assoc |-> ty[1] = 0 /\ GetBits(b, nm[2], 1) = 1,
                  spot |-> IF ty[1] = 2 /\ ~AnyHalfBad(b, p1, 4) THEN Halves(b, p1, 4) ELSE NoSpot, cfa |-> cf[1]]]

(* chromaticity: <<x * 10^6, y * 10^6>> *)
XYTab == <<0, 19, 524288, 19, 1048576, 20, 2097152, 21>>
ReadXY(b, p) == LET x == Ru32(b, p, XYTab) y == Ru32(b, x[2], XYTab) IN << <<UnpackInt(x[1]), UnpackInt(y[1])>>, y[2] >>

DefaultCE == [icc |-> FALSE, cs |-> 0, wp |-> 1, wxy |-> <<>>, prim |-> 1, pxy |-> <<>>, gamma |-> -1, tf |-> 13, ri |-> 1]
(* [st, p, c] *)
ReadCE(b, p) ==
  IF GetBits(b, p, 1) = 1 THEN [st |-> "", p |-> p + 1, c |-> DefaultCE]
  ELSE LET icc == GetBits(b, p + 1, 1) = 1
           cs == Renum(b, p + 2)
           wp == IF ~icc /\ cs[1] # 2 THEN Renum(b, cs[2]) ELSE << 1, cs[2] >>
           wxy == IF wp[1] = 2 THEN ReadXY(b, wp[2]) ELSE << <<>>, wp[2] >>
           pr == IF ~icc /\ cs[1] \notin {1, 2} THEN Renum(b, wxy[2]) ELSE << 1, wxy[2] >>
           r == ReadXY(b, pr[2]) g == ReadXY(b, r[2]) bl == ReadXY(b, g[2])
           pxy == IF pr[1] = 2 THEN << <<r[1], g[1], bl[1]>>, bl[2] >> ELSE << <<>>, pr[2] >>
           gam == GetBits(b, pxy[2], 1) = 1
           gv == GetBits30(b, pxy[2] + 1, 24)
           tf == IF gam THEN << -1, pxy[2] + 25 >> ELSE Renum(b, pxy[2] + 1)
           ri == Renum(b, tf[2])
           st0 == Also(Also(Also("", cs[1] > 3, "err"), wp[1] \notin {1, 2, 10, 11}, "err"), pr[1] \notin {1, 2, 9, 11}, "err")
           st1 == Also(Also(Also(st0, gam /\ gv > 10000000, "err"), ~gam /\ tf[1] \notin {1, 2, 8, 13, 16, 17, 18}, "err"), ri[1] > 3, "err")
       IN IF icc THEN [st |-> st0, p |-> pxy[2], c |-> [DefaultCE EXCEPT !.icc = TRUE, !.cs = cs[1]]]
          ELSE [st |-> Also(st1, cs[1] >= 2 \/ tf[1] = 2 \/ (gam /\ gv < 1221), "colour space not in the model"), p |-> ri[2],
                c |-> [icc |-> FALSE, cs |-> cs[1], wp |-> wp[1], wxy |-> wxy[1], prim |-> pr[1], pxy |-> pxy[1],
                       gamma |-> IF gam THEN gv ELSE -1, tf |-> tf[1], ri |-> ri[1]]]

DefaultTM == [target |-> <<0, 17279>>, min |-> <<0, 0>>, rel |-> FALSE, below |-> <<0, 0>>]     \* 255.0 = 0x437F0000
ReadTM(b, p) ==
  IF GetBits(b, p, 1) = 1 THEN [st |-> "", p |-> p + 1, m |-> DefaultTM]
  ELSE LET t == GetBits(b, p + 1, 16) mn == GetBits(b, p + 17, 16) rel == GetBits(b, p + 33, 1) = 1 lb == GetBits(b, p + 34, 16)
           bad == HalfBad(b, p + 1) \/ HalfBad(b, p + 17) \/ HalfBad(b, p + 34)
                  \/ HalfNeg(t) \/ HalfMag(t) = 0 \/ HalfNeg(mn) \/ HalfMag(mn) > HalfMag(t)
                  \/ HalfNeg(lb) \/ (rel /\ lb < 32768 /\ lb > 15360)
       IN [st |-> IF bad THEN "err" ELSE "", p |-> p + 50,
           m |-> IF bad THEN DefaultTM ELSE [target |-> HalfBits(b, p + 1), min |-> HalfBits(b, p + 17), rel |-> rel, below |-> HalfBits(b, p + 34)]]

(* extensions: set of present numbers as a sequence of <<number, payload bits>> *)
ReadExt(b, p) ==
  LET key == Ru64(b, p)
      step(a, i) == IF (key[1] \div 2 ^ (i - 1)) % 2 = 0 \/ a.st # "" THEN a
                    ELSE LET l == Ru64(b, a.p)
                         IN [p |-> l[2], st |-> IF l[1] < 0 \/ l[1] > 1000000 THEN "long extension" ELSE "", l |-> Append(a.l, <<i - 1, l[1]>>)]
      z == FoldLeft(step, [p |-> key[2], st |-> "", l |-> <<>>], Iota(30))
      pay == FoldLeft(LAMBDA a, e: [p |-> a.p + e[2], l |-> Append(a.l, <<e[1], e[2], a.p>>)], [p |-> z.p, l |-> <<>>], z.l)
  IN IF key[1] < 0 THEN [st |-> "extension number", p |-> key[2], l |-> <<>>]
     ELSE IF z.st # "" THEN [st |-> z.st, p |-> z.p, l |-> <<>>]
     ELSE [st |-> "", p |-> pay.p, l |-> pay.l]

(* transform data: [st, p, opsin (16 floats or <<>>), up2, up4, up8 (or <<>>)] *)
ReadTransformData(b, p, xyb) ==
  IF GetBits(b, p, 1) = 1 THEN [st |-> "", p |-> p + 1, opsin |-> <<>>, up2 |-> <<>>, up4 |-> <<>>, up8 |-> <<>>]
  ELSE LET om == xyb /\ GetBits(b, p + 1, 1) = 0
           p1 == IF ~xyb THEN p + 1 ELSE IF om THEN p + 2 + 256 ELSE p + 2
           mask == GetBits(b, p1, 3)
           p2 == p1 + 3
           p4 == IF mask % 2 = 1 THEN p2 + 240 ELSE p2
           p8 == IF (mask \div 2) % 2 = 1 THEN p4 + 880 ELSE p4
           pe == IF mask \div 4 = 1 THEN p8 + 3360 ELSE p8
           bad == (om /\ AnyHalfBad(b, p + 2, 16)) \/ AnyHalfBad(b, p2, (pe - p2) \div 16)
       IN [st |-> IF bad THEN "err" ELSE "", p |-> pe,
           opsin |-> IF om /\ ~bad THEN Halves(b, p + 2, 16) ELSE <<>>,
           up2 |-> IF p4 > p2 /\ ~bad THEN Halves(b, p2, 15) ELSE <<>>,
           up4 |-> IF p8 > p4 /\ ~bad THEN Halves(b, p4, 55) ELSE <<>>,
           up8 |-> IF pe > p8 /\ ~bad THEN Halves(b, p8, 210) ELSE <<>>]

(* compressed ICC stream *)
Letter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
Digit(c) == (c >= 48 /\ c <= 57) \/ c = 46 \/ c = 44
Kind1(c) == IF Letter(c) THEN 0 ELSE IF Digit(c) THEN 1 ELSE IF c <= 1 THEN 2 + c ELSE IF c < 16 THEN 4
            ELSE IF c > 240 /\ c < 255 THEN 5 ELSE IF c = 255 THEN 6 ELSE 7
Kind2(c) == IF Letter(c) THEN 0 ELSE IF Digit(c) THEN 1 ELSE IF c < 16 THEN 2 ELSE IF c > 240 THEN 3 ELSE 4
IccCtx(s) == LET n == Len(s) IN IF n <= 128 THEN 0 ELSE 1 + Kind1(s[n]) + 8 * Kind2(s[n - 1])
ReadIcc(b, p) ==
  LET n == Ru64(b, p)
      c == ReadCode(b, n[2], 41, FALSE)
      step(a, i) == IF a.d.st # "" THEN a
                    ELSE LET s == ReadSym(b, c.E, a.d, IccCtx(a.s), 0) IN [d |-> s.d, s |-> Append(a.s, s.v % 256)]
      z == FoldLeft(step, [d |-> D0(c.p), s |-> <<>>], Iota(n[1]))
      fail(st, q) == [st |-> st, p |-> q, icc |-> <<>>]
  IN IF n[1] < 0 \/ n[1] > 100000 THEN fail("long ICC stream", n[2])
     ELSE IF c.st # "" THEN fail(c.st, c.p)
     ELSE IF n[1] > 4000 THEN fail("long ICC stream", n[2])
     ELSE IF z.d.st # "" THEN fail(z.d.st, z.d.p)
     ELSE IF ~FinalOK(z.d) THEN fail("err", z.d.p)
     ELSE [st |-> "", p |-> z.d.p, icc |-> z.s]

AlignUp(p) == ((p + 7) \div 8) * 8
PadZero(b, p) == GetBits(b, p, AlignUp(p) - p) = 0

NoHdr == [w |-> 0]
ReadImageHeader(b, p0, level) ==
  LET sz == ReadSize(b, p0 + 16, level)
      allD == GetBits(b, sz.p, 1) = 1
      xf == ~allD /\ GetBits(b, sz.p + 1, 1) = 1
      pA == IF allD THEN sz.p + 1 ELSE sz.p + 2
      ori == IF xf THEN GetBits(b, pA, 3) + 1 ELSE 1
      hasI == xf /\ GetBits(b, pA + 3, 1) = 1
      is == IF hasI THEN ReadSize(b, pA + 4, level) ELSE [st |-> "", p |-> pA + 4, w |-> 0, h |-> 0]
      hasP == xf /\ GetBits(b, is.p, 1) = 1
      pv == IF hasP THEN ReadPreview(b, is.p + 1) ELSE [st |-> "", p |-> is.p + 1, w |-> 0, h |-> 0]
      anim == xf /\ GetBits(b, pv.p, 1) = 1
      pB == IF xf THEN pv.p + 1 ELSE pA
      d == IF allD THEN [st |-> "", p |-> pB, bits |-> 8, exp |-> 0] ELSE ReadDepth(b, pB)
      m16 == allD \/ GetBits(b, d.p, 1) = 1
      nec == IF allD THEN << 0, d.p >> ELSE Ru32(b, d.p + 1, <<0, 0, 1, 0, 2, 4, 1, 12>>)
      ecs == FoldLeft(LAMBDA a, i: IF a.st # "" THEN a ELSE LET e == ReadEC(b, a.p) IN [st |-> e.st, p |-> e.p, l |-> Append(a.l, e.e)],
                      [st |-> "", p |-> nec[2], l |-> <<>>], Iota(IF nec[1] > 64 THEN 0 ELSE nec[1]))
      xyb == allD \/ GetBits(b, ecs.p, 1) = 1
      ce == IF allD THEN [st |-> "", p |-> ecs.p, c |-> DefaultCE] ELSE ReadCE(b, ecs.p + 1)
      tm == IF xf THEN ReadTM(b, ce.p) ELSE [st |-> "", p |-> ce.p, m |-> DefaultTM]
      ex == IF allD THEN [st |-> "", p |-> tm.p, l |-> <<>>] ELSE ReadExt(b, tm.p)
      td == ReadTransformData(b, ex.p, xyb)
      ic == IF ce.c.icc THEN ReadIcc(b, td.p) ELSE [st |-> "", p |-> td.p, icc |-> <<>>]
      fail(st, p) == [st |-> IF p > NBits(b) THEN "err" ELSE st, p |-> p, h |-> NoHdr]
      sidest(s) == IF s \in {"side", "area30", "area40"} THEN "err" ELSE s
  IN IF GetBits(b, p0, 16) # 2815 THEN fail("err", p0 + 16)
     ELSE IF sz.st # "" THEN fail(sidest(sz.st), sz.p)
     ELSE IF is.st # "" THEN fail("intrinsic size", is.p)
     ELSE IF pv.st # "" THEN fail(pv.st, pv.p)
     ELSE IF anim THEN fail("animation", pv.p)
     ELSE IF d.st # "" THEN fail(d.st, d.p)
     ELSE IF nec[1] > 64 THEN fail("many extra channels", nec[2])
     ELSE IF ecs.st # "" THEN fail(ecs.st, ecs.p)
     ELSE IF ce.st # "" THEN fail(ce.st, ce.p)
     ELSE IF tm.st # "" THEN fail(tm.st, tm.p)
     ELSE IF ex.st # "" THEN fail(ex.st, ex.p)
     ELSE IF td.st # "" THEN fail(td.st, td.p)
     ELSE IF ic.st # "" THEN fail(ic.st, ic.p)
     ELSE IF AlignUp(ic.p) > NBits(b) THEN fail("err", ic.p)
     ELSE IF ~PadZero(b, ic.p) THEN fail("padding bits", ic.p)
     ELSE [st |-> "", p |-> AlignUp(ic.p),
           h |-> [w |-> sz.w, h |-> sz.h, orient |-> ori, prev |-> IF hasP THEN <<pv.w, pv.h>> ELSE <<>>,
                  bits |-> d.bits, exp |-> d.exp, m16 |-> m16, ec |-> ecs.l, xyb |-> xyb, ce |-> ce.c, tm |-> tm.m,
                  ext |-> TLCEval([i \in 1..Len(ex.l) |-> << ex.l[i][1], ex.l[i][2],
                             [k \in 1..((ex.l[i][2] + 7) \div 8) |-> GetBits(b, ex.l[i][3] + 8 * (k - 1), Min2(8, ex.l[i][2] - 8 * (k - 1)))] >>]),
                  opsin |-> td.opsin, up2 |-> td.up2, up4 |-> td.up4, up8 |-> td.up8, icc |-> ic.icc]]

NColours(h) == IF h.ce.cs = 1 THEN 1 ELSE 3
=============================================================================
