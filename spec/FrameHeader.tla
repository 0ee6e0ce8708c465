----------------------------- MODULE FrameHeader -----------------------------
(* The frame header and the table of contents.
   ReadFrameHeader(b, p, ih) returns [st, p, f] for the image header record ih of
   ImageHeader.tla; ReadToc(b, p, n) returns [st, p, sizes, perm].
   st = "" accepted, "err" forbidden or cut off, anything else: outside the model. *)
EXTENDS ImageHeader

REGULAR == 0
LFFRAME == 1
REFONLY == 2
SKIPPROG == 3
VARDCT == 0
MODULAR == 1
NOISE == 1
PATCHES == 2
SPLINES == 16
USELF == 32
SKIPSMOOTH == 128
Has(flags, m) == (flags \div m) % 2 = 1

REPLACE == 0
ADD == 1
BLEND == 2
MULADD == 3
MUL == 4

(* passes *)
NoPasses == [n |-> 1, shift |-> <<>>, ds |-> <<>>, last |-> <<>>]
ReadPasses(b, p) ==
  LET n == Ru32(b, p, <<1, 0, 2, 0, 3, 0, 4, 3>>)
      nd == IF n[1] = 1 THEN << 0, n[2] >> ELSE Ru32(b, n[2], <<0, 0, 1, 0, 2, 0, 3, 1>>)
      p1 == nd[2] + 2 * (n[1] - 1)
      p2 == p1 + 2 * nd[1]
      ds == TLCEval([i \in 1..nd[1] |-> 2 ^ GetBits(b, p1 + 2 * (i - 1), 2)])
      lp == FoldLeft(LAMBDA a, i: LET r == Ru32(b, a.p, <<0, 0, 1, 0, 2, 0, 0, 3>>) IN [p |-> r[2], l |-> Append(a.l, r[1])],
                     [p |-> p2, l |-> <<>>], Iota(nd[1]))
      bad == \/ nd[1] > n[1]
             \/ \E i \in 1..(nd[1] - 1) : ds[i + 1] >= ds[i] \/ lp.l[i + 1] <= lp.l[i]
             \/ \E i \in 1..nd[1] : lp.l[i] >= n[1]
  IN [st |-> IF bad THEN "err" ELSE "", p |-> lp.p,
      v |-> [n |-> n[1], shift |-> TLCEval([i \in 1..(n[1] - 1) |-> GetBits(b, nd[2] + 2 * (i - 1), 2)]), ds |-> ds, last |-> lp.l]]

NoBlend == [mode |-> REPLACE, alpha |-> 0, clamp |-> FALSE, src |-> 0]
ReadBlend(b, p, nec, partial) ==
  LET m == Ru32(b, p, <<0, 0, 1, 0, 2, 0, 3, 2>>)
      wa == nec > 0 /\ m[1] \in {BLEND, MULADD}
      a == IF wa THEN Ru32(b, m[2], <<0, 0, 1, 0, 2, 0, 3, 3>>) ELSE << 0, m[2] >>
      wc == wa \/ m[1] = MUL
      p1 == IF wc THEN a[2] + 1 ELSE a[2]
      ws == m[1] # REPLACE \/ partial
  IN [st |-> IF m[1] > MUL \/ (wa /\ a[1] >= nec) THEN "err" ELSE "", p |-> IF ws THEN p1 + 2 ELSE p1,
      v |-> [mode |-> m[1], alpha |-> a[1], clamp |-> wc /\ GetBits(b, a[2], 1) = 1, src |-> IF ws THEN GetBits(b, p1, 2) ELSE 0]]

(* restoration filter: half floats are kept as the bits of the equal single float *)
DefaultRF == [gab |-> TRUE, gw |-> <<>>, epf |-> 2, sharp |-> <<>>, chs |-> <<>>, sigma |-> <<>>, smod |-> <<>>]
(* quirk: how the code under test is known to read the filter (see known_findings.jsonl):
   the flag for channel weights is missing *)
ReadRF(b, p, modular, quirk) ==
  IF GetBits(b, p, 1) = 1 THEN [st |-> "", p |-> p + 1, v |-> DefaultRF]
  ELSE LET gab == GetBits(b, p + 1, 1) = 1
           cg == gab /\ GetBits(b, p + 2, 1) = 1
           p1 == IF gab THEN p + 3 ELSE p + 2
           p2 == IF cg THEN p1 + 96 ELSE p1
           it == GetBits(b, p2, 2)
           p3 == p2 + 2
           \* sharpness table
           s1 == it > 0 /\ ~modular
           sc == s1 /\ GetBits(b, p3, 1) = 1
           p4 == IF s1 THEN p3 + 1 ELSE p3
           p5 == IF sc THEN p4 + 128 ELSE p4
           \* channel weights: three scales and two further half floats
           wc == it > 0 /\ ~quirk /\ GetBits(b, p5, 1) = 1
           p6 == IF it > 0 /\ ~quirk THEN p5 + 1 ELSE p5
           p7 == IF wc THEN p6 + 80 ELSE p6
           \* sigma
           gc == it > 0 /\ GetBits(b, p7, 1) = 1
           p8 == IF it > 0 THEN p7 + 1 ELSE p7
           ng == IF ~gc THEN 0 ELSE IF modular THEN 3 ELSE 4
           p9 == p8 + 16 * ng
           sm == it > 0 /\ modular
           pa == IF sm THEN p9 + 16 ELSE p9
           bad == (cg /\ AnyHalfBad(b, p1, 6)) \/ (sc /\ AnyHalfBad(b, p4, 8)) \/ (wc /\ AnyHalfBad(b, p6, 5))
                  \/ AnyHalfBad(b, p8, ng) \/ (sm /\ AnyHalfBad(b, p9, 1))
           ex == ReadExt(b, pa)
       IN [st |-> IF bad THEN "err" ELSE IF sm /\ (HalfNeg(GetBits(b, p9, 16)) \/ HalfMag(GetBits(b, p9, 16)) < 16) THEN "tiny sigma"
                  ELSE IF cg /\ \E i \in 0..5 : HalfNeg(GetBits(b, p1 + 16 * i, 16)) THEN "negative gaborish weights" ELSE ex.st,
           p |-> ex.p,
           v |-> [gab |-> gab, gw |-> IF cg /\ ~bad THEN Halves(b, p1, 6) ELSE <<>>, epf |-> it,
                  sharp |-> IF sc /\ ~bad THEN Halves(b, p4, 8) ELSE <<>>, chs |-> IF wc /\ ~bad THEN Halves(b, p6, 3) ELSE <<>>,
                  sigma |-> IF gc /\ ~bad THEN Halves(b, p8, ng) ELSE <<>>, smod |-> IF sm /\ ~bad THEN Halves(b, p9, 1) ELSE <<>>]]

(* cursor only, used when the weights are outside the compared range *)
CropTab == <<0, 8, 256, 11, 2304, 14, 18688, 30>>
NoF == [type |-> 0]

DefaultF(ih) ==
  [type |-> REGULAR, enc |-> VARDCT, flags |-> 0, ycc |-> FALSE, jpeg |-> <<0, 0, 0>>, ups |-> 1, ecups |-> [i \in 1..Len(ih.ec) |-> 2 ^ ih.ec[i].shift],
   gshift |-> 1, xqm |-> IF ih.xyb THEN 3 ELSE 2, bqm |-> 2, pass |-> NoPasses, lf |-> 0, crop |-> FALSE, x0 |-> 0, y0 |-> 0, w |-> ih.w, h |-> ih.h,
   bl |-> NoBlend, ecbl |-> [i \in 1..Len(ih.ec) |-> NoBlend], last |-> TRUE, save |-> 0, sbct |-> FALSE, name |-> <<>>, rf |-> DefaultRF, nonorm |-> FALSE, partial |-> FALSE]

ReadFrameHeaderQ(b, p0, ih, quirk) ==
  LET nec == Len(ih.ec)
      ty == GetBits(b, p0 + 1, 2)
      enc == GetBits(b, p0 + 3, 1)
      fl == Ru64(b, p0 + 4)
      flags == fl[1]
      uself == flags >= 0 /\ Has(flags, USELF)
      ycc == ~ih.xyb /\ GetBits(b, fl[2], 1) = 1
      p1 == IF ih.xyb THEN fl[2] ELSE fl[2] + 1
      hasj == ycc /\ ~uself
      p2 == IF hasj THEN p1 + 6 ELSE p1
      up == IF uself THEN 1 ELSE 2 ^ GetBits(b, p2, 2)
      ecup == IF uself THEN [i \in 1..nec |-> 2 ^ ih.ec[i].shift]     \* not coded: the dimension shift alone
              ELSE TLCEval([i \in 1..nec |-> (2 ^ GetBits(b, p2 + 2 * i, 2)) * 2 ^ ih.ec[i].shift])
      p3 == IF uself THEN p2 ELSE p2 + 2 + 2 * nec
      badup == ~uself /\ \E i \in 1..nec : ecup[i] < up \/ ecup[i] > 8
      gs == IF enc = MODULAR THEN GetBits(b, p3, 2) ELSE 1
      p4 == IF enc = MODULAR THEN p3 + 2 ELSE p3
      qm == enc = VARDCT /\ ih.xyb
      p5 == IF qm THEN p4 + 6 ELSE p4
      pass == IF ty = REFONLY THEN [st |-> "", p |-> p5, v |-> NoPasses] ELSE ReadPasses(b, p5)
      p6 == IF ty = LFFRAME THEN pass.p + 2 ELSE pass.p
      lf == IF ty = LFFRAME THEN GetBits(b, pass.p, 2) + 1 ELSE 0
      crop == ty # LFFRAME /\ GetBits(b, p6, 1) = 1
      p7 == IF ty # LFFRAME THEN p6 + 1 ELSE p6
      origin == crop /\ ty # REFONLY
      ux == IF origin THEN Ru32(b, p7, CropTab) ELSE << 0, p7 >>
      uy == IF origin THEN Ru32(b, ux[2], CropTab) ELSE << 0, ux[2] >>
      cw == IF crop THEN Ru32(b, uy[2], CropTab) ELSE << ih.w, uy[2] >>
      ch == IF crop THEN Ru32(b, cw[2], CropTab) ELSE << ih.h, cw[2] >>
      x0 == UnpackInt(ux[1])
      y0 == UnpackInt(uy[1])
      normal == ty \in {REGULAR, SKIPPROG}
      partial == normal /\ crop /\ (x0 > 0 \/ y0 > 0 \/ cw[1] + x0 < ih.w \/ ch[1] + y0 < ih.h)
      bl == IF normal THEN ReadBlend(b, ch[2], nec, partial) ELSE [st |-> "", p |-> ch[2], v |-> NoBlend]
      ecbl == FoldLeft(LAMBDA a, i: LET r == ReadBlend(b, a.p, nec, partial) IN [st |-> Also(a.st, r.st # "", r.st), p |-> r.p, l |-> Append(a.l, r.v)],
                       [st |-> bl.st, p |-> bl.p, l |-> <<>>], Iota(IF normal THEN nec ELSE 0))
      last == normal /\ GetBits(b, ecbl.p, 1) = 1
      p8 == IF normal THEN ecbl.p + 1 ELSE ecbl.p
      hassave == ty # LFFRAME /\ ~last
      save == IF hassave THEN GetBits(b, p8, 2) ELSE 0
      p9 == IF hassave THEN p8 + 2 ELSE p8
      hassb == ty = REFONLY \/ (normal /\ ~partial /\ ~last /\ bl.v.mode = REPLACE)
      sbct == hassb /\ GetBits(b, p9, 1) = 1
      pa == IF hassb THEN p9 + 1 ELSE p9
      badref == ty = REFONLY /\ ~sbct /\ crop /\ (cw[1] < ih.w \/ ch[1] < ih.h)
      nm == ReadName(b, pa)
      rf == ReadRF(b, nm[2], enc = MODULAR, quirk)
      ex == ReadExt(b, rf.p)
      fail(st, p) == [st |-> IF p > NBits(b) THEN "err" ELSE st, p |-> p, f |-> NoF]
  IN IF GetBits(b, p0, 1) = 1
     THEN IF p0 + 1 > NBits(b) THEN fail("err", p0 + 1) ELSE [st |-> "", p |-> p0 + 1, f |-> DefaultF(ih)]
     ELSE IF flags < 0 THEN fail("large flags", fl[2])
     ELSE IF badup THEN fail("err", p3)
     ELSE IF pass.st # "" THEN fail(pass.st, pass.p)
     ELSE IF crop /\ (cw[1] = 0 \/ ch[1] = 0) THEN fail("err", ch[2])
     ELSE IF ecbl.st # "" THEN fail(ecbl.st, ecbl.p)
     ELSE IF badref THEN fail("err", pa)
     ELSE IF rf.st # "" THEN fail(rf.st, rf.p)
     ELSE IF ex.st # "" THEN fail(ex.st, ex.p)
     ELSE IF ex.p > NBits(b) THEN fail("err", ex.p)
     ELSE [st |-> "", p |-> ex.p,
           f |-> [type |-> ty, enc |-> enc, flags |-> flags, ycc |-> ycc,
                  jpeg |-> IF hasj THEN << GetBits(b, p1, 2), GetBits(b, p1 + 2, 2), GetBits(b, p1 + 4, 2) >> ELSE <<0, 0, 0>>,
                  ups |-> up, ecups |-> ecup, gshift |-> gs,
                  xqm |-> IF qm THEN GetBits(b, p4, 3) ELSE 2, bqm |-> IF qm THEN GetBits(b, p4 + 3, 3) ELSE 2,
                  pass |-> pass.v, lf |-> lf, crop |-> crop, x0 |-> x0, y0 |-> y0, w |-> cw[1], h |-> ch[1],
                  bl |-> bl.v, ecbl |-> IF normal THEN ecbl.l ELSE [i \in 1..nec |-> NoBlend], last |-> last, save |-> save, sbct |-> sbct,
                  name |-> nm[1], rf |-> rf.v, nonorm |-> ~normal, partial |-> partial]]

ReadFrameHeader(b, p0, ih) == ReadFrameHeaderQ(b, p0, ih, FALSE)

(* size of the coded frame *)
CodedW(f) == CeilDiv(CeilDiv(f.w, 2 ^ (3 * f.lf)), f.ups)
CodedH(f) == CeilDiv(CeilDiv(f.h, 2 ^ (3 * f.lf)), f.ups)
GroupDim(f) == 128 * 2 ^ f.gshift
GroupsX(f) == CeilDiv(CodedW(f), GroupDim(f))
GroupsY(f) == CeilDiv(CodedH(f), GroupDim(f))
LfGroupsX(f) == CeilDiv(CodedW(f), 8 * GroupDim(f))
LfGroupsY(f) == CeilDiv(CodedH(f), 8 * GroupDim(f))
TocEntries(f) == LET ng == GroupsX(f) * GroupsY(f) IN IF ng = 1 /\ f.pass.n = 1 THEN 1 ELSE 2 + LfGroupsX(f) * LfGroupsY(f) + ng * f.pass.n

-----------------------------------------------------------------------------
PermCtx(x) == Min2(7, CeilLog2(x + 1))
(* Lehmer code -> permutation: element i is the (l[i]+1)-th of the indices not used so far *)
Unlehmer(l) ==
  FoldLeft(LAMBDA a, x: [out |-> Append(a.out, a.rest[x + 1]), rest |-> SubSeq(a.rest, 1, x) \o SubSeq(a.rest, x + 2, Len(a.rest))],
           [out |-> <<>>, rest |-> [i \in 1..Len(l) |-> i - 1]], l).out
ReadPerm(b, p, n) ==
  LET c == ReadCode(b, p, 8, FALSE)
      e == ReadSym(b, c.E, D0(c.p), PermCtx(n), 0)
      step(a, i) == IF a.st # "" THEN a
                    ELSE LET s == ReadSym(b, c.E, a.d, PermCtx(a.l[Len(a.l)]), 0)
                         IN [d |-> s.d, st |-> Also(s.d.st, s.v >= n - (i - 1), "err"), l |-> Append(a.l, s.v)]
      first == LET s == ReadSym(b, c.E, e.d, PermCtx(0), 0) IN [d |-> s.d, st |-> Also(s.d.st, s.v >= n, "err"), l |-> <<s.v>>]
      z == IF e.v = 0 THEN [d |-> e.d, st |-> "", l |-> <<>>] ELSE FoldLeft(step, first, [i \in 1..(e.v - 1) |-> i + 1])
      fail(st, q) == [st |-> st, p |-> q, perm |-> <<>>]
  IN IF c.st # "" THEN fail(c.st, c.p)
     ELSE IF e.d.st # "" THEN fail(e.d.st, e.d.p)
     ELSE IF e.v > n THEN fail("err", e.d.p)
     ELSE IF z.st # "" THEN fail(z.st, z.d.p)
     ELSE IF ~FinalOK(z.d) THEN fail("err", z.d.p)
     ELSE [st |-> "", p |-> z.d.p, perm |-> Unlehmer(z.l \o [i \in 1..(n - Len(z.l)) |-> 0])]

TocTab == <<0, 10, 1024, 14, 17408, 22, 4211712, 30>>
ReadToc(b, p, n) ==
  LET pm == IF GetBits(b, p, 1) = 1 THEN ReadPerm(b, p + 1, n) ELSE [st |-> "", p |-> p + 1, perm |-> [i \in 1..n |-> i - 1]]
      p1 == AlignUp(pm.p)
      z == FoldLeft(LAMBDA a, i: LET r == Ru32(b, a.p, TocTab) IN [p |-> r[2], l |-> Append(a.l, r[1])], [p |-> p1, l |-> <<>>], Iota(n))
      p2 == AlignUp(z.p)
      fail(st, q) == [st |-> IF q > NBits(b) THEN "err" ELSE st, p |-> q, sizes |-> <<>>, perm |-> <<>>]
  IN IF pm.st # "" THEN fail(pm.st, pm.p)
     ELSE IF p2 > NBits(b) THEN fail("err", p2)
     ELSE IF ~PadZero(b, pm.p) \/ ~PadZero(b, z.p) THEN fail("padding bits", p2)
     ELSE [st |-> "", p |-> p2, sizes |-> z.l, perm |-> pm.perm]
=============================================================================
