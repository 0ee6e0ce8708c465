-------------------------------- MODULE VarDct --------------------------------
(* VarDCT frames: quantised low frequencies, blocks of 27 shapes, quantisation tables,
   coefficient orders and coefficients, their inverse transforms, gaborish and the
   colour transforms.  A frame in progress carries in vd what its sections said:
     g: quantisers and contexts, lf: the low frequencies, cells: which block covers a
     cell of 8x8 samples, blocks: the blocks in coded order, tabs: quantisation tables,
     np: presets, E, ord: code and orders of the coefficients, co: coefficients of each
     block, three lists of <<row, column, value>> in order coordinates, colour X, Y, B.
   Steps: LfGlobal, LF groups (256 x 256 cells each; parts until the last one is read),
   HfGlobal, HfPass, groups.  Real numbers: Fix.tla.        *)
EXTENDS Filters

(* cells across and down *)
CellsX(f) == CeilDiv(CeilDiv(CodedW(f), 8), 2 ^ MostH(f)) * 2 ^ MostH(f)
CellsY(f) == CeilDiv(CeilDiv(CodedH(f), 8), 2 ^ MostV(f)) * 2 ^ MostV(f)

VdUnmodelled(ih, f) ==
  IF ih.bits # 8 THEN "VarDCT of other depths"
  ELSE IF \E i \in 1..Len(ih.ec) : f.ecups[i] > 8 THEN "upsampling"
  ELSE IF f.rf.sharp # <<>> \/ f.rf.chs # <<>> \/ f.rf.sigma # <<>> THEN "weights of the edge filter"
  ELSE IF Subsampled(f) /\ (f.ups > 1 \/ ~Has(f.flags, SKIPSMOOTH)) THEN "subsampled colour with enlarging or smoothing"
  ELSE IF \A c \in 1..3 : SubH[f.jpeg[c] + 1] = 1 THEN "all colours subsampled"
  ELSE IF \A c \in 1..3 : SubV[f.jpeg[c] + 1] = 1 THEN "all colours subsampled"
  ELSE IF f.pass.n # 1 THEN "VarDCT in passes"
  ELSE IF NLf(f) > 4 \/ NGroups(f) > 64 THEN "many groups"
  ELSE IF ~QuantOf(ih).ok THEN "extreme quantisation biases"
  ELSE ""

-----------------------------------------------------------------------------
(* shapes of blocks: table, order, method, height, width; directions of AFV *)
Shapes == <<
  <<0, 0, "DCT", 8, 8>>, <<1, 1, "ID", 8, 8>>, <<2, 1, "DCT2", 8, 8>>, <<3, 1, "DCT4", 8, 8>>, <<4, 2, "DCT", 16, 16>>, <<5, 3, "DCT", 32, 32>>,
  <<6, 4, "DCT", 16, 8>>, <<6, 4, "DCT", 8, 16>>, <<7, 5, "DCT", 32, 8>>, <<7, 5, "DCT", 8, 32>>, <<8, 6, "DCT", 32, 16>>, <<8, 6, "DCT", 16, 32>>,
  <<9, 1, "DCT48", 8, 8>>, <<9, 1, "DCT84", 8, 8>>, <<10, 1, "AFV", 8, 8>>, <<10, 1, "AFV", 8, 8>>, <<10, 1, "AFV", 8, 8>>, <<10, 1, "AFV", 8, 8>>,
  <<11, 7, "DCT", 64, 64>>, <<12, 8, "DCT", 64, 32>>, <<12, 8, "DCT", 32, 64>>, <<13, 9, "DCT", 128, 128>>, <<14, 10, "DCT", 128, 64>>,
  <<14, 10, "DCT", 64, 128>>, <<15, 11, "DCT", 256, 256>>, <<16, 12, "DCT", 256, 128>>, <<16, 12, "DCT", 128, 256>> >>
Shape(t) == LET z == Shapes[t + 1] IN [tab |-> z[1], ord |-> z[2], m |-> z[3], h |-> z[4], w |-> z[5], h8 |-> z[4] \div 8, w8 |-> z[5] \div 8,
                                       flip |-> z[3] = "DCT" /\ z[4] >= z[5]]
TabH == <<8, 8, 8, 8, 16, 32, 8, 8, 16, 8, 8, 64, 32, 128, 64, 256, 128>>
TabW == <<8, 8, 8, 8, 16, 32, 16, 32, 32, 8, 8, 64, 64, 128, 128, 256, 256>>
OrdH == <<8, 8, 16, 32, 8, 8, 16, 64, 32, 128, 64, 256, 128>>
OrdW == <<8, 8, 16, 32, 16, 32, 32, 64, 64, 128, 128, 256, 256>>

(* the natural order of coefficients, <<row, column>>: the low frequencies, then diagonals
   of alternating direction.  Of the large blocks only the beginning. *)
Kept == 1024
NatOrder(b) ==
  LET h == OrdH[b + 1]
      w == OrdW[b + 1]
      h8 == h \div 8
      w8 == w \div 8
      r == w \div h
      low == [k \in 1..(h8 * w8) |-> << (k - 1) \div w8, (k - 1) % w8 >>]
      on(k) == LET ys == SelectSeq([i \in 1..h |-> i - 1], LAMBDA y: k - y * r >= 0 /\ k - y * r < w /\ ~(y < h8 /\ k - y * r < w8))
                   n == Len(ys)
               IN TLCEval([i \in 1..n |-> LET y == IF k % 2 = 0 THEN ys[n + 1 - i] ELSE ys[i] IN << y, k - y * r >>])
      n == Min2(h * w, Len(low) + Kept)
      all == FoldLeft(LAMBDA a, k: IF Len(a) >= n THEN a ELSE a \o on(k - 1), TLCEval(low), Iota(h * r + w))
  IN TLCEval(SubSeq(all, 1, n))
Natural == TLCEval([b \in 1..13 |-> NatOrder(b - 1)])

-----------------------------------------------------------------------------
(* half floats h (16 bits, not bad): positive ones as logarithm, small ones in 16 bits after the point *)
HalfM(h) == 1024 + (h % 1024)
HalfPos(h) == ~HalfNeg(h) /\ HalfE(h) > 0 /\ h < 32768
HalfLog(h) == Log(HalfM(h)) + (HalfE(h) - 25) * 65536
HalfFix(h) ==
  LET e == HalfE(h)
      m == IF e = 0 THEN (h % 1024) \div 128 ELSE IF e >= 9 THEN HalfM(h) * 2 ^ (e - 9) ELSE HalfM(h) \div 2 ^ (9 - e)
  IN IF h >= 32768 THEN -m ELSE m
(* 1 + |h| as logarithm, of a half float of moderate size *)
HalfMid(h) == h % 32768 = 0 \/ (HalfE(h) >= 10 /\ HalfE(h) <= 20)
HalfLog1(h) == IF h % 32768 = 0 THEN 0
               ELSE LET e == HalfE(h) IN (IF h >= 32768 THEN -1 ELSE 1) * (Log(2 ^ (25 - e) + HalfM(h)) + (e - 25) * 65536)

DefaultLfd == << -12 * 65536, -9 * 65536, -8 * 65536 >>
DefaultMap == <<0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14>>

(* quantisers, block contexts and colour correlation: [st, p, g] *)
ReadQuant(b, p0) ==
  LET dq == GetBits(b, p0, 1) = 1
      hs == [i \in 1..3 |-> GetBits(b, p0 + 1 + 16 * (i - 1), 16)]
      p1 == IF dq THEN p0 + 1 ELSE p0 + 49
      gs == Ru32(b, p1, <<1, 11, 2049, 11, 4097, 12, 8193, 16>>)
      ql == Ru32(b, gs[2], <<16, 0, 1, 5, 1, 8, 1, 16>>)
      \* block contexts
      defc == GetBits(b, ql[2], 1) = 1
      \* the longest form has 32 bits; beyond 28 only the sign counts
      thv(p) == IF GetBits(b, p, 2) = 3 /\ GetBits(b, p + 18, 16) >= 4096
                THEN << IF GetBits(b, p + 2, 1) = 0 THEN 134217728 ELSE -134217728, p + 34 >>
                ELSE LET u == Ru32(b, p, <<0, 4, 16, 8, 272, 16, 65808, 28>>) IN << UnpackInt(u[1]), IF GetBits(b, p, 2) = 3 THEN p + 34 ELSE u[2] >>
      thr(a, i) ==
        LET n == GetBits(b, a.p, 4)
        IN FoldLeft(LAMBDA z, k: LET u == thv(z.p) IN [p |-> u[2], l |-> [z.l EXCEPT ![i] = Append(z.l[i], u[1])]], [a EXCEPT !.p = a.p + 4], Iota(n))
      th == FoldLeft(thr, [p |-> ql[2] + 1, l |-> << <<>>, <<>>, <<>> >>], <<1, 2, 3>>)
      nq == GetBits(b, th.p, 4)
      qf == FoldLeft(LAMBDA z, k: LET u == Ru32(b, z.p, <<0, 2, 4, 3, 12, 5, 44, 8>>) IN [p |-> u[2], l |-> Append(z.l, u[1] + 1)],
                     [p |-> th.p + 4, l |-> <<>>], Iota(nq))
      nlf == (Len(th.l[1]) + 1) * (Len(th.l[2]) + 1) * (Len(th.l[3]) + 1)
      size == 39 * (nq + 1) * nlf
      cm == IF defc THEN [st |-> "", p |-> ql[2] + 1, m |-> DefaultMap] ELSE IF size > 2496 THEN [st |-> "err", p |-> qf.p, m |-> <<>>] ELSE ClusterMap(b, qf.p, size)
      ncl == MaxSeq(cm.m) + 1
      \* colour correlation
      p2 == cm.p
      defk == GetBits(b, p2, 1) = 1
      cf == IF defk THEN << 84, p2 + 1 >> ELSE Ru32(b, p2 + 1, <<84, 0, 256, 0, 2, 8, 258, 16>>)
      p3 == IF defk THEN p2 + 1 ELSE cf[2] + 48
      h(k) == GetBits(b, cf[2] + 16 * k, 16)
      u(k) == GetBits(b, cf[2] + 32 + 8 * k, 8)
      base == IF defk THEN << 0, 65536 >> ELSE << HalfFix(h(0)), HalfFix(h(1)) >>
      lfk(i, v) == base[i] + ((v - 128) * 65536) \div cf[1]
      klf == IF defk THEN base ELSE << lfk(1, u(0)), lfk(2, u(1)) >>
      fail(st, p) == [st |-> IF p > NBits(b) THEN "err" ELSE st, p |-> p, g |-> NoE]
  IN IF ~dq /\ AnyHalfBad(b, p0 + 1, 3) THEN fail("err", p1)
     ELSE IF ~dq /\ \E i \in 1..3 : ~HalfPos(hs[i]) THEN fail("LF quantiser not positive", p1)
     ELSE IF ql[2] > NBits(b) THEN fail("err", ql[2])
     ELSE IF cm.st # "" THEN fail(cm.st, cm.p)
     ELSE IF ncl > 16 THEN fail("err", cm.p)
     ELSE IF ~defk /\ AnyHalfBad(b, cf[2], 2) THEN fail("err", p3)
     ELSE IF p3 > NBits(b) THEN fail("err", p3)
     ELSE IF \E i \in 1..2 : Abs(base[i]) > 200000 \/ Abs(klf[i]) > 250000 THEN fail("large correlation", p3)
     ELSE [st |-> "", p |-> p3,
           g |-> TLCEval([lfd |-> IF dq THEN DefaultLfd ELSE [i \in 1..3 |-> HalfLog(hs[i]) - 7 * 65536],
                  gs |-> Log(gs[1]), scale |-> gs[1], ql |-> Log(ql[1]), thr |-> IF defc THEN << <<>>, <<>>, <<>> >> ELSE th.l,
                  qf |-> IF defc THEN <<>> ELSE qf.l, nlf |-> IF defc THEN 1 ELSE nlf, map |-> cm.m, ncl |-> ncl, cf |-> cf[1], base |-> base, klf |-> klf])]

StartVd(f, sec, lfin) == [st |-> "", f |-> f, lfin |-> lfin, sec |-> sec, i |-> 0, p |-> 0, chs |-> <<>>, ts |-> <<>>, meta |-> 0, wp |-> DefaultWP, left |-> 1, gt |-> NoTree, pieces |-> <<>>,
                    vd |-> [g |-> NoE, parts |-> <<>>]]

VdLfGlobal(ih, fr) ==
  LET b == fr.sec[1]
      f == fr.f
      Q == ReadQuant(b, 0)
      has == GetBits(b, Q.p, 1) = 1
      T == IF has THEN ReadTree(b, Q.p + 1) ELSE NoTree
      p1 == IF has THEN T.p ELSE Q.p + 1
      S == SubDecode(b, p1, [i \in 1..Len(ih.ec) |-> ExtraChan(f, i)], 0, T, GroupDim(f))
      fail(st) == [fr EXCEPT !.st = st]
  IN IF Q.st # "" THEN fail(Q.st)
     ELSE IF Q.p + 1 > NBits(b) THEN fail("err")
     ELSE IF has /\ T.st # "" THEN fail(IF T.p > NBits(b) THEN "err" ELSE T.st)
     ELSE IF p1 > NBits(b) THEN fail("err")
     ELSE IF S.st # "" THEN fail(IF S.st = "over" THEN "err" ELSE S.st)
     ELSE IF ih.ec = <<>> THEN [fr EXCEPT !.i = 1, !.p = p1, !.gt = T, !.vd = [g |-> Q.g, parts |-> <<>>]]
     ELSE [fr EXCEPT !.i = 1, !.p = S.p, !.chs = S.chs, !.ts = S.ts, !.meta = S.meta, !.wp = S.wp, !.left = S.left, !.gt = T,
                     !.pieces = [c \in 1..Len(S.chs) |-> <<>>], !.vd = [g |-> Q.g, parts |-> <<>>]]

-----------------------------------------------------------------------------
(* plain modular stream in mid-section: [st, p, d] with the rows of each channel *)
Plain(b, p, chs, sid, gt) ==
  LET S == SubDecode(b, p, chs, sid, gt, 0)
      V == TLCEval(UndoAll(S.chs, S.ts, 8, S.wp))
  IN IF S.st # "" THEN [st |-> IF S.st = "over" THEN "err" ELSE S.st, p |-> S.p, d |-> <<>>]
     ELSE IF V.st # "" THEN [st |-> V.st, p |-> S.p, d |-> <<>>]
     ELSE [st |-> "", p |-> S.p, d |-> TLCEval([i \in 1..Len(chs) |-> V.chs[i].d])]

(* value of n times 2 ^ l *)
Times(n, l) == IF n = 0 THEN 0 ELSE IF n > 0 THEN Exp(Log(n) + l) ELSE -Exp(Log(-n) + l)
TooLarge(n, l) == n # 0 /\ Log(Abs(n)) + l >= 2 * 65536 + 45000

(* blocks, placed one after another at the first free cell *)
Place(info, gx, gy) ==
  LET step(a, i) ==
        IF a.st # "" THEN a
        ELSE LET ty == info[1][i]
                 mul == info[2][i] + 1
                 free == SelectSeq([k \in 1..Min2(64, gx * gy - a.at) |-> a.at + k], LAMBDA k: a.cell[k] = 0)
                 far == SelectSeq([k \in 1..(gx * gy - a.at) |-> a.at + k], LAMBDA k: a.cell[k] = 0)
                 k == IF free # <<>> THEN free[1] ELSE IF far # <<>> THEN far[1] ELSE 0
                 s == Shape(ty)
                 x == (k - 1) % gx
                 y == (k - 1) \div gx
                 own == {k + dy * gx + dx : dy \in 0..(s.h8 - 1), dx \in 0..(s.w8 - 1)}
             IN IF ty < 0 \/ ty > 26 THEN [a EXCEPT !.st = "err"]
                ELSE IF k = 0 THEN [a EXCEPT !.st = "err"]
                ELSE IF x + s.w8 > gx THEN [a EXCEPT !.st = "block beside the free place"]
                ELSE IF \E dx \in 0..(s.w8 - 1) : a.cell[k + dx] # 0 THEN [a EXCEPT !.st = "block beside the free place"]
                ELSE IF y + s.h8 > gy \/ (x % 32) + s.w8 > 32 \/ (y % 32) + s.h8 > 32 THEN [a EXCEPT !.st = "err"]
                ELSE IF \E q \in own : a.cell[q] # 0 THEN [a EXCEPT !.st = "overlapping blocks"]
                ELSE IF mul < 1 \/ mul > 256 THEN [a EXCEPT !.st = "multiplier"]
                ELSE [a EXCEPT !.at = k, !.cell = TLCEval([q \in 1..(gx * gy) |-> IF q \in own THEN i ELSE a.cell[q]]),
                               !.l = Append(a.l, [x |-> x, y |-> y, t |-> ty, mul |-> mul])]
      z == FoldLeft(step, [st |-> "", at |-> 0, cell |-> ZeroSeq(gx * gy), l |-> <<>>], Iota(Len(info[1])))
  IN IF z.st # "" THEN [st |-> z.st, cell |-> <<>>, l |-> <<>>]
     ELSE IF \E k \in 1..(gx * gy) : z.cell[k] = 0 THEN [st |-> "cells without block", cell |-> <<>>, l |-> <<>>]
     ELSE [st |-> "", cell |-> z.cell, l |-> z.l]

Fail2(fr, st) == [fr EXCEPT !.st = st]

(* adaptive smoothing of the low frequencies: cells that lie close to the weighted mean of
   their surroundings, measured in quantisation steps (logarithms lg), move to it *)
Smooth(lf, gx, gy, lg) ==
  LET mean(c, y, x) ==
        LET m == lf[c]
        IN MulC(m[y][x], 3425) + MulC(m[y][x - 1] + m[y][x + 1] + m[y - 1][x] + m[y + 1][x], 13333)
           + MulC(m[y - 1][x - 1] + m[y - 1][x + 1] + m[y + 1][x - 1] + m[y + 1][x + 1], 2194)
      mm == TLCEval([c \in 1..3 |-> TLCEval([y \in 1..gy |-> TLCEval([x \in 1..gx |->
              IF y = 1 \/ y = gy \/ x = 1 \/ x = gx THEN lf[c][y][x] ELSE mean(c, y, x)])])])
      \* distance in steps, 17 bits after the point, 1 and more all alike
      steps(c, y, x) == LET d == Abs(lf[c][y][x] - mm[c][y][x])
                        IN IF d = 0 THEN 0 ELSE LET l == Log(d) - 17 * 65536 - lg[c] IN IF l >= 0 THEN 131072 ELSE Exp(l)
      part(y, x) == Max2(0, Min2(65536, 196608 - 2 * Max2(steps(1, y, x), Max2(steps(2, y, x), steps(3, y, x)))))
      pt == TLCEval([y \in 1..gy |-> TLCEval([x \in 1..gx |-> part(y, x)])])
  IN [c \in 1..3 |-> TLCEval([y \in 1..gy |-> TLCEval([x \in 1..gx |-> lf[c][y][x] + MulC(mm[c][y][x] - lf[c][y][x], pt[y][x])])])]

(* the LF groups of a frame put together *)
Joined(f, g, ps) ==
  LET gx == CellsX(f)
      gy == CellsY(f)
      n == Len(ps)
      across == LfGroupsX(f)
      \* number of the part of a cell, counted from 0
      which(y, x) == ps[(y \div 256) * across + (x \div 256) + 1]
      before == TLCEval([k \in 1..n |-> FoldLeft(LAMBDA a, j: a + Len(ps[j].blocks), 0, Iota(k - 1))])
      blocks == FoldLeft(LAMBDA a, q: a \o [i \in 1..Len(q.blocks) |-> [q.blocks[i] EXCEPT !.x = @ + q.ox, !.y = @ + q.oy]], <<>>, ps)
      grid(h, w, at(_, _)) == TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> at(y - 1, x - 1)])])
      cell(y, x) == LET k == (y \div 256) * across + (x \div 256) + 1
                    IN before[k] + ps[k].cell[(y % 256) * ps[k].gx + (x % 256) + 1]
      tile(y, x) == which(8 * y, 8 * x)
      lf == IF n = 1 THEN ps[1].lf
            ELSE [c \in 1..3 |-> grid(gy \div ShY(f, c), gx \div ShX(f, c),
                    LAMBDA y, x: which(y * ShY(f, c), x * ShX(f, c)).lf[c][(y % (256 \div ShY(f, c))) + 1][(x % (256 \div ShX(f, c))) + 1])]
      soft == ~Has(f.flags, USELF) /\ ~Has(f.flags, SKIPSMOOTH) /\ gx > 2 /\ gy > 2
      one == n = 1
  IN [g |-> g, gx |-> gx, gy |-> gy, blocks |-> blocks, even |-> \A k \in 1..n : ps[k].even, lf |-> lf,
      cell |-> IF one THEN ps[1].cell ELSE TLCEval([k \in 1..(gx * gy) |-> cell((k - 1) \div gx, (k - 1) % gx)]),
      xf |-> IF one THEN ps[1].xf ELSE grid(CeilDiv(gy, 8), CeilDiv(gx, 8), LAMBDA y, x: tile(y, x).xf[(y % 32) + 1][(x % 32) + 1]),
      bf |-> IF one THEN ps[1].bf ELSE grid(CeilDiv(gy, 8), CeilDiv(gx, 8), LAMBDA y, x: tile(y, x).bf[(y % 32) + 1][(x % 32) + 1]),
      sharp |-> IF one THEN ps[1].sharp ELSE grid(gy, gx, LAMBDA y, x: which(y, x).sharp[(y % 256) + 1][(x % 256) + 1]),
      lfidx |-> IF one THEN ps[1].lfidx ELSE grid(gy, gx, LAMBDA y, x: which(y, x).lfidx[(y % 256) + 1][(x % 256) + 1]),
      soft |-> IF soft THEN TLCEval(Smooth(lf, gx, gy, [c \in 1..3 |-> 16 * 65536 + g.lfd[c] - g.gs - g.ql])) ELSE <<>>]

VdLfGroup(ih, fr) ==
  LET one == Len(fr.sec) = 1
      lq == fr.i - 1
      n == NLf(fr.f)
      b == IF one THEN fr.sec[1] ELSE fr.sec[2 + lq]
      p0 == IF one THEN fr.p ELSE 0
      f == fr.f
      g == fr.vd.g
      \* its cells
      ox == 256 * (lq % LfGroupsX(f))
      oy == 256 * (lq \div LfGroupsX(f))
      gx == Min2(256, CellsX(f) - ox)
      gy == Min2(256, CellsY(f) - oy)
      \* stream order is Y, X, B
      src == <<2, 1, 3>>
      less == Subsampled(f)
      \* the grid of colour c
      wx(c) == gx \div ShX(f, c)
      wy(c) == gy \div ShY(f, c)
      own == ~Has(f.flags, USELF)
      prec == IF own THEN GetBits(b, p0, 2) ELSE 0
      Lq == IF ~own THEN [st |-> "", p |-> p0] ELSE Plain(b, p0 + 2, [i \in 1..3 |-> Chan(wx(src[i]), wy(src[i]), 0, 0)], 1 + lq, fr.gt)
      \* modular channels of the LF group
      M == GroupStreamAt(ih, fr, b, Lq.p, GroupChannels(fr, 8 * ox, 8 * oy, 2048, 3, 1000), 1 + n + lq)
      nbits == CeilLog2(gx * gy)
      nb == 1 + GetBits30(b, M.at, nbits)
      p1 == M.at + nbits
      tx == CeilDiv(gx, 8)
      ty == CeilDiv(gy, 8)
      H == Plain(b, p1, << Chan(tx, ty, 0, 0), Chan(tx, ty, 0, 0), Chan(nb, 2, 0, 0), Chan(gx, gy, 0, 0) >>, 1 + 2 * n + lq, fr.gt)
      B == Place(H.d[3], gx, gy)
      \* dequantised low frequencies
      lg == [c \in 1..3 |-> 16 * 65536 + g.lfd[c] - g.gs - g.ql - prec * 65536]
      big == own /\ \E c \in 1..3 : \E y \in 1..wy(c) : \E x \in 1..wx(c) : Abs(Lq.d[src[c]][y][x]) > 100000 \/ TooLarge(Lq.d[src[c]][y][x], lg[c])
      plain(c) == TLCEval([y \in 1..wy(c) |-> TLCEval([x \in 1..wx(c) |-> Times(Lq.d[src[c]][y][x], lg[c])])])
      Y == plain(2)
      with(c, k) == LET o == plain(c) IN TLCEval([y \in 1..gy |-> TLCEval([x \in 1..gx |-> o[y][x] + MulC(Y[y][x], k)])])
      lf0 == IF ~own THEN [c \in 1..3 |-> TLCEval([y \in 1..gy |-> SubSeq(fr.lfin.planes[c][oy + y], ox + 1, ox + gx)])] ELSE IF less THEN << plain(1), Y, plain(3) >> ELSE TLCEval(<< with(1, g.klf[1]), Y, with(3, g.klf[2]) >>)
      over(c, x, y) == Cardinality({k \in 1..Len(g.thr[c]) : Lq.d[src[c]][(y - 1) \div ShY(f, c) + 1][(x - 1) \div ShX(f, c) + 1] > g.thr[c][k]})
      idx == TLCEval([y \in 1..gy |-> TLCEval([x \in 1..gx |-> IF ~own THEN 0 ELSE (over(1, x, y) * (Len(g.thr[3]) + 1) + over(3, x, y)) * (Len(g.thr[2]) + 1) + over(2, x, y)])])
      part == TLCEval([ox |-> ox, oy |-> oy, gx |-> gx, gy |-> gy, blocks |-> B.l, cell |-> B.cell, xf |-> H.d[1], bf |-> H.d[2], sharp |-> H.d[4],
                       even |-> own /\ \A c \in 1..3 : lg[c] % 65536 = 0, lf |-> lf0, lfidx |-> idx])
  IN IF own /\ p0 + 2 > NBits(b) THEN Fail2(fr, "err")
     ELSE IF Lq.st # "" THEN Fail2(fr, Lq.st)
     ELSE IF M.st # "" THEN Fail2(fr, M.st)
     ELSE IF p1 > NBits(b) THEN Fail2(fr, "err")
     ELSE IF nb > gx * gy THEN Fail2(fr, "more blocks than cells")
     ELSE IF H.st # "" THEN Fail2(fr, H.st)
     ELSE IF B.st # "" THEN Fail2(fr, B.st)
     ELSE IF less /\ \E i \in 1..Len(B.l) : Shape(B.l[i].t).h8 * Shape(B.l[i].t).w8 > 1 THEN Fail2(fr, "large blocks of subsampled colour")
     ELSE IF f.rf.epf > 0 /\ \E y \in 1..gy : \E x \in 1..gx : H.d[4][y][x] \notin 0..7 THEN Fail2(fr, "err")
     ELSE IF big THEN Fail2(fr, "large low frequencies")
     ELSE IF lq + 1 < n THEN [M.fr EXCEPT !.i = fr.i + 1, !.vd.parts = Append(fr.vd.parts, part)]
     ELSE [M.fr EXCEPT !.i = fr.i + 1, !.p = H.p, !.vd = Joined(f, g, Append(fr.vd.parts, part))]

-----------------------------------------------------------------------------
(* a set of distance bands of three channels at p: [st, p, d], logarithms *)
ReadBands(b, p) ==
  LET n == 1 + GetBits(b, p, 4)
      h(c, i) == GetBits(b, p + 4 + 16 * (n * (c - 1) + i - 1), 16)
      ok == \A c \in 1..3 : HalfPos(h(c, 1)) /\ \A i \in 2..n : HalfMid(h(c, i))
      line(c) == FoldLeft(LAMBDA a, i: Append(a, a[Len(a)] + HalfLog1(h(c, i + 1))), << HalfLog(h(c, 1)) + 6 * 65536 >>, Iota(n - 1))
  IN [st |-> IF AnyHalfBad(b, p + 4, 3 * n) THEN "err" ELSE IF ~ok THEN "unusual table" ELSE "", p |-> p + 4 + 48 * n,
      d |-> IF ok THEN << line(1), line(2), line(3) >> ELSE <<>>]

(* quantisation table i (0-based): [st, p, t] *)
NoTab == [mode |-> "none"]
ReadTab(b, p, i, sid, gt) ==
  LET mode == GetBits(b, p, 3)
      p1 == p + 3
      small == i \in {0, 1, 2, 3, 9, 10}
      h(n, c, k) == GetBits(b, p1 + 16 * (n * (c - 1) + k - 1), 16)
      logs(n, k0) == TLCEval([c \in 1..3 |-> [k \in 1..n |-> HalfLog(h(n, c, k)) + (IF k <= k0 THEN 6 * 65536 ELSE 0)]])
      good(n) == \A c \in 1..3 : \A k \in 1..n : HalfPos(h(n, c, k))
      simple(name, n, k0) ==
        [st |-> IF AnyHalfBad(b, p1, 3 * n) THEN "err" ELSE IF ~good(n) THEN "unusual table" ELSE "", p |-> p1 + 48 * n,
         t |-> [mode |-> name, p |-> logs(n, k0), d |-> <<>>, d4 |-> <<>>]]
      \* a table of parameters followed by bands
      with(name, n, k0) == LET a == simple(name, n, k0)
                               d == ReadBands(b, a.p)
                           IN [st |-> IF a.st # "" THEN a.st ELSE d.st, p |-> d.p, t |-> [a.t EXCEPT !.d = d.d]]
  IN CASE mode \in 1..5 /\ ~small -> [st |-> "err", p |-> p1, t |-> NoTab]
       [] mode = 0 -> [st |-> "", p |-> p1, t |-> DefaultTables[i + 1]]
       [] mode = 1 -> simple("ID", 3, 3)
       [] mode = 2 -> simple("DCT2", 6, 6)
       [] mode = 3 -> with("DCT4", 2, 2)
       [] mode = 4 -> with("DCT48", 1, 0)
       [] mode = 5 ->
            LET d == ReadBands(b, p1 + 432)
                e == ReadBands(b, d.p)
                ok == \A c \in 1..3 : (\A k \in 1..6 : HalfPos(h(9, c, k))) /\ \A k \in 7..9 : HalfMid(h(9, c, k))
                line(c) == LET q == [k \in 1..6 |-> HalfLog(h(9, c, k)) + 6 * 65536]
                           IN q \o << q[6] + HalfLog1(h(9, c, 7)), q[6] + HalfLog1(h(9, c, 7)) + HalfLog1(h(9, c, 8)),
                                      q[6] + HalfLog1(h(9, c, 7)) + HalfLog1(h(9, c, 8)) + HalfLog1(h(9, c, 9)) >>
            IN [st |-> IF AnyHalfBad(b, p1, 27) THEN "err" ELSE IF d.st # "" THEN d.st ELSE IF e.st # "" THEN e.st ELSE IF ~ok THEN "unusual table" ELSE "", p |-> e.p,
                t |-> [mode |-> "AFV", p |-> IF ok THEN TLCEval([c \in 1..3 |-> line(c)]) ELSE <<>>, d |-> d.d, d4 |-> e.d]]
       [] mode = 6 -> LET d == ReadBands(b, p1) IN [st |-> d.st, p |-> d.p, t |-> [mode |-> "DCT", p |-> <<>>, d |-> d.d, d4 |-> <<>>]]
       [] mode = 7 ->
            LET den == GetBits(b, p1, 16)
                S == Plain(b, p1 + 16, [c \in 1..3 |-> Chan(TabW[i + 1], TabH[i + 1], 0, 0)], sid, gt)
            IN IF HalfBad(b, p1) THEN [st |-> "err", p |-> p1 + 16, t |-> NoTab]
               ELSE IF ~HalfPos(den) THEN [st |-> "unusual table", p |-> p1, t |-> NoTab]
               ELSE IF TabH[i + 1] * TabW[i + 1] > 1024 THEN [st |-> "large raw table", p |-> p1, t |-> NoTab]
               ELSE [st |-> S.st, p |-> S.p, t |-> [mode |-> "RAW", p |-> << HalfLog(den) >>, d |-> S.d, d4 |-> <<>>]]

VdHfGlobal(ih, fr) ==
  LET one == Len(fr.sec) = 1
      b == IF one THEN fr.sec[1] ELSE fr.sec[2 + NLf(fr.f)]
      p0 == IF one THEN fr.p ELSE 0
      def == GetBits(b, p0, 1) = 1
      step(a, i) == IF a.st # "" THEN a
                    ELSE LET z == ReadTab(b, a.p, i - 1, 3 * NLf(fr.f) + i, fr.gt) IN [st |-> IF z.p > NBits(b) THEN "err" ELSE z.st, p |-> z.p, l |-> Append(a.l, z.t)]
      z == IF def THEN [st |-> "", p |-> p0 + 1, l |-> DefaultTables] ELSE FoldLeft(step, [st |-> "", p |-> p0 + 1, l |-> <<>>], Iota(17))
      n == CeilLog2(NGroups(fr.f))
      v == fr.vd
  IN IF z.st # "" THEN Fail2(fr, z.st)
     ELSE IF z.p + n > NBits(b) THEN Fail2(fr, "err")
     ELSE [fr EXCEPT !.i = fr.i + 1, !.p = z.p + n,
             !.vd = [g |-> v.g, gx |-> v.gx, gy |-> v.gy, blocks |-> v.blocks, cell |-> v.cell, xf |-> v.xf, bf |-> v.bf, lf |-> v.lf, soft |-> v.soft, lfidx |-> v.lfidx, sharp |-> v.sharp, even |-> v.even,
                     tabs |-> z.l, np |-> 1 + GetBits(b, z.p, n)]]

(* order of the coefficients of one kind of block in one channel *)
ReadOrder(b, E, d0, ord) ==
  LET n == OrdH[ord + 1] * OrdW[ord + 1]
      skip == n \div 64
      e == ReadSym(b, E, d0, PermCtx(n), 0)
      step(a, i) == IF a.st # "" THEN a
                    ELSE LET s == ReadSym(b, E, a.d, PermCtx(IF i = 1 THEN 0 ELSE a.l[Len(a.l)]), 0)
                         IN [d |-> s.d, st |-> Also(s.d.st, s.v >= n - skip - (i - 1), "err"), l |-> Append(a.l, s.v)]
      z == FoldLeft(step, [d |-> e.d, st |-> "", l |-> <<>>], Iota(e.v))
      nat == Natural[ord + 1]
      low == SubSeq(nat, 1, skip)
      rest == SubSeq(nat, skip + 1, Len(nat))
      take(a, x) == [out |-> Append(a.out, a.rest[x + 1]), rest |-> SubSeq(a.rest, 1, x) \o SubSeq(a.rest, x + 2, Len(a.rest))]
      o == FoldLeft(take, [out |-> <<>>, rest |-> rest], z.l)
  IN IF e.d.st # "" THEN [st |-> e.d.st, d |-> e.d, o |-> <<>>]
     ELSE IF e.v > n - skip THEN [st |-> "err", d |-> e.d, o |-> <<>>]
     ELSE IF z.st # "" THEN [st |-> z.st, d |-> z.d, o |-> <<>>]
     ELSE IF z.l # <<>> /\ n > Len(nat) THEN [st |-> "order of a large block", d |-> z.d, o |-> <<>>]
     ELSE [st |-> "", d |-> z.d, o |-> TLCEval(low \o o.out \o o.rest)]

VdHfPass(ih, fr) ==
  LET b == IF Len(fr.sec) = 1 THEN fr.sec[1] ELSE fr.sec[2 + NLf(fr.f)]
      us == Ru32(b, fr.p, <<95, 0, 19, 0, 0, 0, 0, 13>>)
      c == IF us[1] = 0 THEN [st |-> "", p |-> us[2], E |-> NoE] ELSE ReadCode(b, us[2], 8, FALSE)
      has(o) == (us[1] \div 2 ^ o) % 2 = 1
      step(a, k) ==
        LET ord == (k - 1) \div 3
        IN IF a.st # "" THEN a
           ELSE IF ~has(ord) THEN [a EXCEPT !.l = Append(a.l, Natural[ord + 1])]
           ELSE LET z == ReadOrder(b, c.E, a.d, ord) IN [st |-> z.st, d |-> z.d, l |-> Append(a.l, z.o)]
      z == FoldLeft(step, [st |-> "", d |-> D0(c.p), l |-> <<>>], Iota(39))
      v == fr.vd
      e == ReadCode(b, z.d.p, 495 * v.np * v.g.ncl, FALSE)
  IN IF us[2] > NBits(b) THEN Fail2(fr, "err")
     ELSE IF c.st # "" THEN Fail2(fr, c.st)
     ELSE IF z.st # "" THEN Fail2(fr, z.st)
     ELSE IF ~FinalOK(z.d) THEN Fail2(fr, "err")
     ELSE IF e.st # "" THEN Fail2(fr, e.st)
     ELSE IF e.p > NBits(b) THEN Fail2(fr, "err")
     ELSE [fr EXCEPT !.i = fr.i + 1, !.p = e.p,
             !.vd = [g |-> v.g, gx |-> v.gx, gy |-> v.gy, blocks |-> v.blocks, cell |-> v.cell, xf |-> v.xf, bf |-> v.bf, lf |-> v.lf, soft |-> v.soft, lfidx |-> v.lfidx, sharp |-> v.sharp, even |-> v.even,
                     tabs |-> v.tabs, np |-> v.np, E |-> e.E, ord |-> z.l, co |-> [i \in 1..Len(v.blocks) |-> << <<>>, <<>>, <<>> >>]]]

-----------------------------------------------------------------------------
(* coefficients of a group *)
FreqCtx == <<0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 16, 16, 17, 17, 18, 18, 19, 19, 20, 20, 21, 21, 22, 22,
             23, 23, 23, 23, 24, 24, 24, 24, 25, 25, 25, 25, 26, 26, 26, 26, 27, 27, 27, 27, 28, 28, 28, 28, 29, 29, 29, 29, 30, 30, 30, 30>>
CountCtx == <<0, 0, 31, 62, 62, 93, 93, 93, 93, 123, 123, 123, 123, 152, 152, 152, 152, 152, 152, 152, 152, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180,
              206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206>>

VdGroup(ih, fr, k) ==
  LET one == Len(fr.sec) = 1
      b == IF one THEN fr.sec[1] ELSE fr.sec[3 + NLf(fr.f) + k]
      p0 == IF one THEN fr.p ELSE 0
      f == fr.f
      v == fr.vd
      g == v.g
      nbits == CeilLog2(v.np)
      preset == GetBits(b, p0, nbits)
      off == 495 * g.ncl * preset
      cx == 32 * (k % GroupsX(f))
      cy == 32 * (k \div GroupsX(f))
      gw == Min2(32, v.gx - cx)
      gh == Min2(32, v.gy - cy)
      mine == SelectSeq(Iota(Len(v.blocks)), LAMBDA i: v.blocks[i].x \div 32 = cx \div 32 /\ v.blocks[i].y \div 32 = cy \div 32)
      one3(a, i, c) ==                          \* block i, colour c (1 X, 2 Y, 3 B)
        LET bl == v.blocks[i]
            s == Shape(bl.t)
            nbk == s.h8 * s.w8
            x == (bl.x - cx) \div ShX(f, c)
            y == (bl.y - cy) \div ShY(f, c)
            at(xx, yy) == a.nz[c][yy * gw + xx + 1]
            pred == IF x = 0 /\ y = 0 THEN 32 ELSE IF x = 0 THEN at(0, y - 1) ELSE IF y = 0 THEN at(x - 1, 0) ELSE (at(x, y - 1) + at(x - 1, y) + 1) \div 2
            ci == IF c = 1 THEN 1 ELSE IF c = 2 THEN 0 ELSE 2
            bidx == ((ci * 13 + s.ord) * (Len(g.qf) + 1) + Cardinality({q \in 1..Len(g.qf) : bl.mul > g.qf[q]})) * g.nlf + v.lfidx[bl.y + 1][bl.x + 1]
            bctx == g.map[bidx + 1]
            n == ReadSym(b, v.E, a.d, off + bctx + g.ncl * (IF pred < 8 THEN pred ELSE 4 + Min2(pred, 64) \div 2), 0)
            per == CeilDiv(n.v, nbk)
            order == v.ord[3 * s.ord + c]
            size == s.h * s.w
            hist == off + 458 * bctx + 37 * g.ncl
            step(q, j) ==
              IF q.left = 0 \/ q.st # "" THEN q
              ELSE LET ctx == hist + 2 * (CountCtx[CeilDiv(q.left, nbk) + 1] + FreqCtx[(j - 1 + nbk) \div nbk + 1]) + q.prev
                       z == ReadSym(b, v.E, q.d, ctx, 0)
                   IN [d |-> z.d, st |-> z.d.st, left |-> IF z.v = 0 THEN q.left ELSE q.left - 1, prev |-> IF z.v = 0 THEN 0 ELSE 1,
                       l |-> IF z.v = 0 THEN q.l ELSE Append(q.l, << order[nbk + j][1], order[nbk + j][2], IF z.v < 0 THEN 0 ELSE UnpackInt(z.v) >>)]
            z == FoldLeft(step, [d |-> n.d, st |-> "", left |-> n.v, prev |-> IF n.v > size \div 16 THEN 0 ELSE 1, l |-> <<>>],
                          IF n.v = 0 THEN <<>> ELSE Iota(Len(order) - nbk))
            nz2 == TLCEval([q \in 1..(gw * gh) |-> LET qx == (q - 1) % gw qy == (q - 1) \div gw
                                                   IN IF qx >= x /\ qx < x + s.w8 /\ qy >= y /\ qy < y + s.h8 THEN per ELSE a.nz[c][q]])
        IN IF a.st # "" \/ bl.x % ShX(f, c) # 0 \/ bl.y % ShY(f, c) # 0 THEN a
           ELSE IF n.d.st # "" THEN [a EXCEPT !.st = n.d.st]
           ELSE IF n.v < 0 \/ n.v > 63 * nbk THEN [a EXCEPT !.st = "err"]
           ELSE IF z.st # "" THEN [a EXCEPT !.st = z.st]
           ELSE IF z.left > 0 THEN [a EXCEPT !.st = IF Len(order) < size THEN "deep coefficients" ELSE "err"]
           ELSE [d |-> z.d, st |-> "", nz |-> [a.nz EXCEPT ![c] = nz2], co |-> [a.co EXCEPT ![i][c] = z.l]]
      step3(a, i) == one3(one3(one3(a, i, 2), i, 1), i, 3)
      zero == ZeroSeq(gw * gh)
      z == FoldLeft(step3, [d |-> D0(p0 + nbits), st |-> "", nz |-> <<zero, zero, zero>>, co |-> v.co], mine)
      dim == GroupDim(f)
      M == GroupStreamAt(ih, [fr EXCEPT !.vd.co = z.co], b, z.d.p, GroupChannels(fr, (k % GroupsX(f)) * dim, (k \div GroupsX(f)) * dim, dim, 0, 2), 18 + 3 * NLf(fr.f) + k)
  IN IF p0 + nbits > NBits(b) THEN Fail2(fr, "err")
     ELSE IF preset >= v.np THEN Fail2(fr, "err")
     ELSE IF z.st # "" THEN Fail2(fr, z.st)
     ELSE IF z.d.p > NBits(b) THEN Fail2(fr, "err")
     ELSE IF ~FinalOK(z.d) THEN Fail2(fr, "err")
     ELSE IF M.st # "" THEN Fail2(fr, M.st)
     ELSE [M.fr EXCEPT !.i = fr.i + 1]

VdSteps(fr) == 3 + NLf(fr.f) + NGroups(fr.f)
VdNext(ih, fr) ==
  LET n == NLf(fr.f)
  IN CASE fr.i = 0 -> VdLfGlobal(ih, fr)
       [] fr.i >= 1 /\ fr.i <= n -> VdLfGroup(ih, fr)
       [] fr.i = n + 1 -> VdHfGlobal(ih, fr)
       [] fr.i = n + 2 -> VdHfPass(ih, fr)
       [] OTHER -> VdGroup(ih, fr, fr.i - (n + 3))

-----------------------------------------------------------------------------
(* reconstruction *)

(* how far along the bands a coefficient lies: 18 bits after the point, nb bands, table h x w *)
BandPos(y, x, h, w, nb) ==
  LET sq == h = w
      n == IF sq THEN x * x + y * y ELSE (x * (h - 1)) * (x * (h - 1)) + (y * (w - 1)) * (y * (w - 1))
      D == IF sq THEN h - 1 ELSE (h - 1) * (w - 1)
      k == IF n = 0 THEN 0 ELSE Max2(0, (29 - FloorLog2(n)) \div 2)
      m == n * 4 ^ k
      r == Isqrt(m)
      R == r * 256 + ((m - r * r) * 128) \div r
      T == IF k <= 12 THEN (R \div D) * 2 ^ (12 - k) + ((R % D) * 2 ^ (12 - k)) \div D ELSE R \div (D * 2 ^ (k - 12))
  IN IF n = 0 THEN 0 ELSE MulC(((nb - 1) * T) \div 4, 46341)
BandLog(bands, pos) ==
  LET i == pos \div 262144
      nb == Len(bands)
  IN IF nb = 1 THEN bands[1] ELSE IF i + 1 > nb - 1 THEN bands[nb] ELSE bands[i + 1] + MulC(bands[i + 2] - bands[i + 1], (pos % 262144) \div 4)
DctLog(bands, y, x, h, w) == BandLog(bands, BandPos(y, x, h, w, Len(bands)))

(* logarithm of the quantisation step's inverse for colour c at (y, x) of table i *)
WeightLog(t, i, c, y, x) ==
  LET p == IF t.mode = "DCT" \/ t.mode = "RAW" THEN <<>> ELSE t.p[c]
  IN CASE t.mode = "DCT" -> DctLog(t.d[c], y, x, TabH[i + 1], TabW[i + 1])
       [] t.mode = "RAW" -> -(Log(Max2(1, t.d[c][y + 1][x + 1])) + t.p[1])
       [] t.mode = "ID" -> IF y = 1 /\ x = 1 THEN p[3] ELSE IF y + x = 1 THEN p[2] ELSE p[1]
       [] t.mode = "DCT2" -> IF y < 2 /\ x < 2 THEN (IF y + x = 2 THEN p[2] ELSE p[1])
                             ELSE IF y < 4 /\ x < 4 THEN (IF y >= 2 /\ x >= 2 THEN p[4] ELSE p[3])
                             ELSE IF y >= 4 /\ x >= 4 THEN p[6] ELSE p[5]
       [] t.mode = "DCT4" -> DctLog(t.d[c], y \div 2, x \div 2, 4, 4) - (IF y = 1 /\ x = 1 THEN p[2] ELSE IF y + x = 1 THEN p[1] ELSE 0)
       [] t.mode = "DCT48" -> DctLog(t.d[c], y \div 2, x, 4, 8) - (IF y = 1 /\ x = 0 THEN p[1] ELSE 0)
       [] t.mode = "AFV" ->
            IF y = 1 /\ x = 0 THEN p[1] ELSE IF y = 0 /\ x = 1 THEN p[2]
            ELSE IF y = 2 /\ x = 0 THEN p[3] ELSE IF y = 0 /\ x = 2 THEN p[4] ELSE IF y = 2 /\ x = 2 THEN p[5]
            ELSE IF y % 2 = 1 THEN DctLog(t.d[c], y \div 2, x, 4, 8)
            ELSE IF x % 2 = 1 THEN DctLog(t.d4[c], y \div 2, x \div 2, 4, 4)
            ELSE BandLog(SubSeq(p, 6, 9), 16 * AfvPos[4 * (y \div 2) + x \div 2 + 1])

(* logarithm of the value a coefficient q > 0 stands for *)
QuantLog(Q, q, c) == IF q = 1 THEN Q.one[c] ELSE IF q > 1000 THEN Log(q) ELSE Log(q * q * Q.d - Q.n) - Log(q * Q.d)
(* log2 of 0.8 *)
Log08 == -21098

BadWeight(t, c, y, x) == t.mode = "RAW" /\ t.d[c][y + 1][x + 1] < 1

(* coefficients of block i as <<row, column, value>> in block coordinates; [ok, l, sum] *)
Dequant(Q, f, v, i, c) ==
  LET bl == v.blocks[i]
      s == Shape(bl.t)
      t == v.tabs[s.tab + 1]
      sc == 16 * 65536 - v.g.gs - Log(bl.mul) + (IF c = 1 THEN (f.xqm - 2) * Log08 ELSE IF c = 3 THEN (f.bqm - 2) * Log08 ELSE 0)
      lg(q) == QuantLog(Q, Abs(q[3]), c) + sc - WeightLog(t, s.tab, c, q[1], q[2])
      val(q, l) == << IF s.flip THEN q[2] ELSE q[1], IF s.flip THEN q[1] ELSE q[2], IF q[3] < 0 THEN -Exp(l) ELSE Exp(l) >>
      step(a, q) == IF ~a.ok \/ q[3] = 0 \/ BadWeight(t, c, q[1], q[2]) \/ Abs(q[3]) > 100000 THEN [a EXCEPT !.ok = a.ok /\ q[3] = 0]
                    ELSE LET l == lg(q) IN IF l >= 180000 THEN [a EXCEPT !.ok = FALSE]
                                           ELSE LET z == val(q, l) IN [ok |-> TRUE, l |-> Append(a.l, z), sum |-> a.sum + Abs(z[3])]
  IN FoldLeft(step, [ok |-> TRUE, l |-> <<>>, sum |-> 0], v.co[i][c])

Sum3(l) == FoldLeft(LAMBDA a, t: Min2(100000000, a + Abs(t[3])), 0, l)

(* special transforms of 8x8 blocks *)
Dense(l) == TLCEval([y \in 1..8 |-> TLCEval([x \in 1..8 |-> FoldLeft(LAMBDA a, t: IF t[1] = y - 1 /\ t[2] = x - 1 THEN a + t[3] ELSE a, 0, l)])])
ListOf(m, h, w) == SelectSeq([k \in 1..(h * w) |-> << (k - 1) \div w, (k - 1) % w, m[(k - 1) \div w + 1][((k - 1) % w) + 1] >>], LAMBDA t: t[3] # 0)
Haar(m, s) ==
  LET n == s \div 2
      at(y, x) == LET iy == y \div 2 ix == x \div 2
                      a == m[iy + 1][ix + 1] bb == m[iy + 1][ix + n + 1] cc == m[iy + n + 1][ix + 1] d == m[iy + n + 1][ix + n + 1]
                  IN CASE y % 2 = 0 /\ x % 2 = 0 -> a + bb + cc + d [] y % 2 = 0 -> (a + bb) - cc - d [] x % 2 = 0 -> ((a - bb) + cc) - d [] OTHER -> ((a - bb) - cc) + d
  IN TLCEval([y \in 1..8 |-> TLCEval([x \in 1..8 |-> IF y <= s /\ x <= s THEN at(y - 1, x - 1) ELSE m[y][x]])])
(* rows of a part: first coefficient d, the others every other of m from (y0, x0) on *)
Part(m, d, y0, x0, h, w, dx) == TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> IF y = 1 /\ x = 1 THEN d ELSE m[y0 + 2 * (y - 1) + 1][x0 + dx * (x - 1) + 1]])])
IdctOf(m, h, w) == Idct(ListOf(m, h, w), h, w)

Special(s, t, l) ==
  LET m == Dense(l)
  IN CASE s.m = "DCT2" -> Haar(Haar(Haar(m, 2), 4), 8)
       [] s.m \in {"DCT48", "DCT84"} ->
            LET q(k) == IdctOf(Part(m, IF k = 0 THEN m[1][1] + m[2][1] ELSE m[1][1] - m[2][1], k, 0, 4, 8, 1), 4, 8)
                p == << q(0), q(1) >>
            IN IF s.m = "DCT48" THEN TLCEval([y \in 1..8 |-> p[(y - 1) \div 4 + 1][((y - 1) % 4) + 1]])
               ELSE TLCEval([y \in 1..8 |-> TLCEval([x \in 1..8 |-> p[(x - 1) \div 4 + 1][((x - 1) % 4) + 1][y]])])
       [] s.m = "DCT4" ->
            LET z == Haar(m, 2)
                q(k) == IdctOf(Part(m, z[k \div 2 + 1][(k % 2) + 1], k \div 2, k % 2, 4, 4, 2), 4, 4)
                p == << q(0), q(1), q(2), q(3) >>
            IN TLCEval([y \in 1..8 |-> TLCEval([x \in 1..8 |-> p[2 * ((y - 1) \div 4) + (x - 1) \div 4 + 1][((x - 1) % 4) + 1][((y - 1) % 4) + 1]])])
       [] s.m = "ID" ->
            LET z == Haar(m, 2)
                c(by, bx, iy, ix) == m[by + 2 * iy + 1][bx + 2 * ix + 1]
                sum(by, bx) == FoldLeft(LAMBDA a, k: a + c(by, bx, k \div 4, k % 4), 0, [k \in 1..15 |-> k])
                mid == TLCEval([k \in 1..4 |-> LET by == (k - 1) \div 2 bx == (k - 1) % 2 IN z[by + 1][bx + 1] - (sum(by, bx) + 8) \div 16])
                at(y, x) == LET by == y \div 4 bx == x \div 4 iy == y % 4 ix == x % 4
                                d == mid[2 * by + bx + 1]
                            IN IF iy = 1 /\ ix = 1 THEN d ELSE d + (IF iy = 0 /\ ix = 0 THEN c(by, bx, 1, 1) ELSE c(by, bx, iy, ix))
            IN TLCEval([y \in 1..8 |-> TLCEval([x \in 1..8 |-> at(y - 1, x - 1)])])
       [] s.m = "AFV" ->
            LET fx == (t - 14) % 2
                fy == (t - 14) \div 2
                a == Part(m, 4 * (m[1][1] + m[2][1] + m[1][2]), 0, 0, 4, 4, 2)
                corner == TLCEval([y \in 1..4 |-> TLCEval([x \in 1..4 |->
                            FoldLeft(LAMBDA z, j: LET cc == a[(j - 1) \div 4 + 1][((j - 1) % 4) + 1] IN IF cc = 0 THEN z ELSE z + MulC(cc, AfvTab[j][4 * (y - 1) + x]), 0, Iota(16))])])
                q == IdctOf(Part(m, (m[1][1] + m[2][1]) - m[1][2], 0, 1, 4, 4, 2), 4, 4)
                h == IdctOf(Part(m, m[1][1] - m[2][1], 1, 0, 4, 8, 1), 4, 8)
                at(y, x) == IF y \div 4 # fy THEN h[(y % 4) + 1][x + 1]
                            ELSE IF x \div 4 = fx THEN corner[(IF fy = 1 THEN 3 - (y % 4) ELSE y % 4) + 1][(IF fx = 1 THEN 3 - (x % 4) ELSE x % 4) + 1]
                            ELSE q[(x % 4) + 1][(y % 4) + 1]
            IN TLCEval([y \in 1..8 |-> TLCEval([x \in 1..8 |-> at(y - 1, x - 1)])])

(* the samples of a block: [ok, sum, rows (X, Y, B)] *)
BlockSamples(Q, f, v, lf, i) ==
  LET bl == v.blocks[i]
      s == Shape(bl.t)
      dq == << TLCEval(Dequant(Q, f, v, i, 1)), TLCEval(Dequant(Q, f, v, i, 2)), TLCEval(Dequant(Q, f, v, i, 3)) >>
      tiles == {<< x, y >> : x \in (bl.x \div 8)..((bl.x + s.w8 - 1) \div 8), y \in (bl.y \div 8)..((bl.y + s.h8 - 1) \div 8)}
      fac(m) == m[bl.y \div 8 + 1][bl.x \div 8 + 1]
      same == \A z \in tiles : v.xf[z[2] + 1][z[1] + 1] = fac(v.xf) /\ v.bf[z[2] + 1][z[1] + 1] = fac(v.bf)
      fits == Abs(fac(v.xf)) <= 8000 /\ Abs(fac(v.bf)) <= 8000
      k(j, m) == v.g.base[j] + (fac(m) * 65536) \div v.g.cf
      kok == fits /\ Abs(k(1, v.xf)) < 250000 /\ Abs(k(2, v.bf)) < 250000
      from(q) == [n \in 1..Len(dq[2].l) |-> << dq[2].l[n][1], dq[2].l[n][2], MulC(dq[2].l[n][3], q) >>]
      \* a block of the colour begins here
      here(c) == bl.x % ShX(f, c) = 0 /\ bl.y % ShY(f, c) = 0
      less == Subsampled(f)
      low(c) == IF ~here(c) THEN << << 0, 0, 0 >> >>
                ELSE IF s.h8 = 1 /\ s.w8 = 1 THEN << << 0, 0, lf[c][bl.y \div ShY(f, c) + 1][bl.x \div ShX(f, c) + 1] >> >>
                ELSE LowFreq(TLCEval([y \in 1..s.h8 |-> [x \in 1..s.w8 |-> lf[c][bl.y + y][bl.x + x]]]), s.h8, s.w8)
      all(c) == TLCEval(low(c) \o dq[c].l \o (IF less THEN <<>> ELSE IF c = 1 THEN from(k(1, v.xf)) ELSE IF c = 3 THEN from(k(2, v.bf)) ELSE <<>>))
      rows(l) == IF s.m = "DCT" THEN Idct(l, s.h, s.w) ELSE Special(s, bl.t, l)
      Ls == << all(1), all(2), all(3) >>
      S == Max2(Sum3(Ls[1]), Max2(Sum3(Ls[2]), Sum3(Ls[3])))
      \* of a plain 8x8 block, without its mean
      high(c) == Sum3(Tail(Ls[c]))
      hf == IF s.m = "DCT" /\ s.h8 = 1 /\ s.w8 = 1 THEN Max2(high(1), Max2(high(2), high(3))) ELSE -1
      lfok == \A c \in 1..3 : IF less THEN Abs(low(c)[1][3]) < 900000 ELSE \A y \in 1..s.h8 : \A x \in 1..s.w8 : Abs(lf[c][bl.y + y][bl.x + x]) < 900000
      ok == dq[1].ok /\ dq[2].ok /\ dq[3].ok /\ lfok /\ dq[2].sum < 900000 /\ (dq[2].l = <<>> \/ less \/ (same /\ kok))
  IN IF ~ok THEN [ok |-> FALSE, sum |-> 0, rows |-> <<>>]
     ELSE IF S > 900000 THEN [ok |-> FALSE, sum |-> 0, rows |-> <<>>]
     ELSE TLCEval([ok |-> TRUE, sum |-> S, hf |-> hf, n |-> FoldLeft(LAMBDA a, c: Max2(a, Len(Ls[c])), 0, <<1, 2, 3>>), rows |-> [c \in 1..3 |-> IF here(c) THEN rows(Ls[c]) ELSE <<>>]])

(* the colour channels of the frame: [st, chs]; flat: without the smoothing of the low frequencies *)
VdColours(ih, fr, flat) ==
  LET f == fr.f
      v == fr.vd
      soften == ~flat /\ v.soft # <<>>
      Q == QuantOf(ih)
      bs == TLCEval([i \in 1..Len(v.blocks) |-> BlockSamples(Q, f, v, IF soften THEN v.soft ELSE v.lf, i)])
      good == \A i \in 1..Len(bs) : bs[i].ok
      S == FoldLeft(LAMBDA a, z: Max2(a, z.sum), 0, bs)
      \* sample (y, x) of colour c, counted from 0 in its own resolution
      own(c, y, x) == LET i == v.cell[((y \div 8) * ShY(f, c)) * v.gx + (x \div 8) * ShX(f, c) + 1]
                      IN bs[i].rows[c][(y + 1) - (8 * v.blocks[i].y) \div ShY(f, c)][(x + 1) - (8 * v.blocks[i].x) \div ShX(f, c)]
      plane(c) == TLCEval([y \in 1..CodedH(f) |-> TLCEval([x \in 1..CodedW(f) |-> Stretched(f, c, LAMBDA yy, xx: own(c, yy, xx), 8 * CellsY(f), 8 * CellsX(f), y - 1, x - 1)])])
      N == FoldLeft(LAMBDA a, z: Max2(a, z.n), 0, bs)
      \* means that are multiples of a power of two are exact
      H == FoldLeft(LAMBDA a, z: IF a < 0 \/ z.hf < 0 THEN -1 ELSE Max2(a, z.hf), 0, bs)
      exact == v.even /\ ~soften /\ H >= 0
      E == (IF Has(f.flags, USELF) THEN (IF \A i \in 1..Len(v.blocks) : v.blocks[i].t \in {0, 1, 2, 3} \cup 12..17 THEN 2 ELSE 4) * fr.lfin.e ELSE 0)
           + (IF exact THEN H \div 8000 + 2 * N + 3 ELSE S \div 10000 + N \div 2 + (IF soften THEN 160 ELSE 13))
  IN IF ~good THEN [st |-> "beyond the fixed point range", chs |-> <<>>]
     ELSE FromPlanes(ih, f, << plane(1), plane(2), plane(3) >>, E + (IF Subsampled(f) THEN 2 ELSE 0), << 8 * 2 ^ MostV(f), 8 * 2 ^ MostH(f), MostV(f), MostH(f) >>,
                     LAMBDA y, x: EpfSlope(v.g.scale * v.blocks[v.cell[y * v.gx + x + 1]].mul, v.sharp[y + 1][x + 1]))

(* the frame's channels: colours, then the extra channels *)
VdFinish(ih, fr, flat) ==
  LET C == VdColours(ih, fr, flat)
      X == FinishFrame(ih, fr)
      x == EnlargeAll(ih, fr.f, X.chs, fr.f.ecups)
  IN IF ih.ec # <<>> /\ X.st # "" THEN [st |-> X.st, chs |-> <<>>]
     ELSE IF ih.ec # <<>> /\ x.st # "" THEN x
     ELSE IF C.st # "" THEN [st |-> C.st, chs |-> <<>>]
     ELSE IF fr.f.type = LFFRAME THEN C
     ELSE [st |-> "", chs |-> (IF NColourCh(ih) = 1 THEN << Shared(C.chs) >> ELSE C.chs) \o (IF ih.ec = <<>> THEN <<>> ELSE x.chs)]
=============================================================================
