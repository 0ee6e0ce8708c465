-------------------------------- MODULE Frame --------------------------------
(* A modular frame: sections, groups and passes.  A frame in progress is a record
     [st, f, sec, i, chs, ts, meta, wp, left, gt, pieces]
   sec: the bytes of each logical section; i: sections decoded so far; chs..left:
   the frame's own sub-stream (LfGlobal); gt: the global tree; pieces: for each
   channel the rectangles decoded by groups, [x, y, w, h, d].
   Sections are decoded one per step in logical order.                         *)
EXTENDS FrameHeader, Modular

NColourCh(ih) == IF ih.ce.cs = 1 THEN 1 ELSE 3
(* colour channels of a modular frame *)
NFrameCh(ih, f) == IF ih.xyb \/ f.ycc THEN 3 ELSE NColourCh(ih)

(* colours coded at a lower resolution: how many bits less each side has *)
SubH == <<0, 1, 1, 0>>
SubV == <<0, 1, 0, 1>>
Subsampled(f) == f.jpeg # <<0, 0, 0>>
MostH(f) == Max2(SubH[f.jpeg[1] + 1], Max2(SubH[f.jpeg[2] + 1], SubH[f.jpeg[3] + 1]))
MostV(f) == Max2(SubV[f.jpeg[1] + 1], Max2(SubV[f.jpeg[2] + 1], SubV[f.jpeg[3] + 1]))
ShX(f, c) == 2 ^ (MostH(f) - SubH[f.jpeg[c] + 1])
ShY(f, c) == 2 ^ (MostV(f) - SubV[f.jpeg[c] + 1])
(* sample (y, x), counted from 0, of colour c stretched to h rows and w columns: three quarters of the
   sample own(_, _) it lies in and a quarter of the nearer neighbour's; a quarter each way first across *)
Stretched(f, c, own(_, _), h, w, y, x) ==
  LET near(n, k, top) == IF n % 2 = 0 THEN Max2(0, k - 1) ELSE Min2(top - 1, k + 1)
      across(yy) == IF ShX(f, c) = 1 THEN own(yy, x)
                    ELSE LET k == x \div 2 IN (3 * own(yy, k) + own(yy, near(x, k, w \div 2))) \div 4
  IN IF ShY(f, c) = 1 THEN across(y)
     ELSE LET k == y \div 2 IN (3 * across(k) + across(near(y, k, h \div 2))) \div 4

(* frames whose colours are real numbers *)
Fine(ih, f) == ih.xyb \/ f.ycc \/ f.rf.gab \/ f.rf.epf > 0

(* frames this specification describes *)
Unmodelled(ih, f) ==
  IF f.enc # MODULAR THEN "VarDCT"
  ELSE IF (Fine(ih, f) \/ f.type = LFFRAME) /\ (ih.bits > 8 \/ ih.bits < 2) THEN "filtered samples of other depths"
  ELSE IF ((f.rf.epf > 0 /\ ~f.ycc) \/ f.type = LFFRAME) /\ NColourCh(ih) = 1 THEN "grey images filtered"
  ELSE IF Has(f.flags, USELF) THEN "LF frame"
  ELSE IF \E i \in 1..Len(ih.ec) : f.ecups[i] > 8 THEN "upsampling"
  ELSE IF f.rf.chs # <<>> \/ f.rf.sigma # <<>> \/ f.rf.smod # <<>> THEN "weights of the edge filter"
  ELSE IF GroupsX(f) * GroupsY(f) > 64 THEN "many groups" ELSE ""
(* features the decoder has to refuse *)
Refused(f) == Has(f.flags, NOISE) \/ Has(f.flags, PATCHES) \/ Has(f.flags, SPLINES)

NLf(f) == LfGroupsX(f) * LfGroupsY(f)
NGroups(f) == GroupsX(f) * GroupsY(f)

(* the sections, cut out of the stream; perm[i] is the place of section i in the file *)
Sections(b, toc) ==
  LET n == Len(toc.sizes)
      off == FoldLeft(LAMBDA a, s: [at |-> IF a.at > 100000000 \/ s > 100000000 THEN 100000001 ELSE a.at + s, l |-> Append(a.l, a.at)], [at |-> toc.p \div 8, l |-> <<>>], toc.sizes)
  IN IF off.at > Len(b) THEN [st |-> "err", end |-> 0, s |-> <<>>]
     ELSE [st |-> "", end |-> off.at,
           s |-> TLCEval([i \in 1..n |-> LET k == toc.perm[i] + 1 IN SubSeq(b, off.l[k] + 1, off.l[k] + toc.sizes[k])])]

StartFrame(f, sec) ==
  [st |-> "", f |-> f, sec |-> sec, i |-> 0, chs |-> <<>>, ts |-> <<>>, meta |-> 0, wp |-> DefaultWP, left |-> 1, gt |-> NoTree, pieces |-> <<>>, lfd |-> <<>>]

(* extra channel i of a frame, at its own resolution *)
ExtraChan(f, i) ==
  LET r == f.ecups[i] \div f.ups IN Chan(CeilDiv(CodedW(f), r), CeilDiv(CodedH(f), r), FloorLog2(r), FloorLog2(r))

ColourChan(f, c) ==
  IF ~Subsampled(f) THEN Chan(CodedW(f), CodedH(f), 0, 0)
  ELSE Chan(CeilDiv(CodedW(f), ShX(f, c)), CeilDiv(CodedH(f), ShY(f, c)), ShX(f, c) - 1, ShY(f, c) - 1)

(* LfGlobal: quantiser defaults, global tree, the frame's own channels *)
LfGlobal(ih, fr) ==
  LET b == fr.sec[1]
      f == fr.f
      dq == GetBits(b, 0, 1) = 1
      small(p) == HalfNeg(GetBits(b, p, 16)) \/ HalfMag(GetBits(b, p, 16)) < 16
      bad == ~dq /\ AnyHalfBad(b, 1, 3)
      p1 == IF dq THEN 1 ELSE 49
      has == GetBits(b, p1, 1) = 1
      T == IF has THEN ReadTree(b, p1 + 1) ELSE NoTree
      nc == NFrameCh(ih, f)
      chs0 == [i \in 1..(nc + Len(ih.ec)) |-> IF i <= nc THEN ColourChan(f, i) ELSE ExtraChan(f, i - nc)]
      S == SubDecode(b, IF has THEN T.p ELSE p1 + 1, chs0, 0, T, GroupDim(f))
      fail(st) == [fr EXCEPT !.st = st]
  IN IF p1 + 1 > NBits(b) THEN fail("err")
     ELSE IF bad THEN fail("err")
     ELSE IF ~dq /\ (small(1) \/ small(17) \/ small(33)) THEN fail("tiny quantiser")
     ELSE IF has /\ T.st # "" THEN fail(IF T.p > NBits(b) THEN "err" ELSE T.st)
     ELSE IF S.st # "" THEN fail(IF S.st = "over" THEN "err" ELSE S.st)
     ELSE [fr EXCEPT !.lfd = IF dq THEN <<>> ELSE << GetBits(b, 1, 16), GetBits(b, 17, 16), GetBits(b, 33, 16) >>, !.i = 1, !.chs = S.chs, !.ts = S.ts, !.meta = S.meta, !.wp = S.wp, !.left = S.left, !.gt = T,
                     !.pieces = [c \in 1..Len(S.chs) |-> <<>>]]

(* channels and rectangles of a group: x0, y0, size of the group in frame samples *)
GroupChannels(fr, x0, y0, dim, lo, hi) ==
  LET rect(c) == LET ch == fr.chs[c]
                     x == x0 \div 2 ^ ch.hs
                     y == y0 \div 2 ^ ch.vs
                 IN [c |-> c, x |-> x, y |-> y, w |-> Max2(0, Min2(dim \div 2 ^ ch.hs, ch.w - x)), h |-> Max2(0, Min2(dim \div 2 ^ ch.vs, ch.h - y))]
      fits(c) == LET m == Min2(fr.chs[c].hs, fr.chs[c].vs) IN lo <= m /\ m <= hi
      all == SelectSeq([k \in 1..(Len(fr.chs) + 1 - fr.left) |-> fr.left + k - 1], fits)
  IN SelectSeq([k \in 1..Len(all) |-> rect(all[k])], LAMBDA r: r.w > 0 /\ r.h > 0)

(* the sub-stream of a group at bit p: [st, at, fr] *)
GroupStreamAt(ih, fr, b, p, rs, sid) ==
  LET chs0 == [k \in 1..Len(rs) |-> Chan(rs[k].w, rs[k].h, fr.chs[rs[k].c].hs, fr.chs[rs[k].c].vs)]
      S == SubDecode(b, p, chs0, sid, fr.gt, 0)
      V == TLCEval(UndoAll(S.chs, S.ts, ih.bits, S.wp))
      put(ps, k) == [ps EXCEPT ![rs[k].c] = Append(ps[rs[k].c], [x |-> rs[k].x, y |-> rs[k].y, w |-> rs[k].w, h |-> rs[k].h, d |-> V.chs[k].d])]
  IN IF rs = <<>> THEN [st |-> "", at |-> p, fr |-> fr]
     ELSE IF S.st # "" THEN [st |-> IF S.st = "over" THEN "err" ELSE S.st, at |-> S.p, fr |-> fr]
     ELSE IF V.st # "" THEN [st |-> V.st, at |-> S.p, fr |-> fr]
     ELSE [st |-> "", at |-> S.p, fr |-> [fr EXCEPT !.pieces = FoldLeft(put, fr.pieces, Iota(Len(rs)))]]
GroupStream(ih, fr, b, rs, sid) ==
  LET M == GroupStreamAt(ih, fr, b, 0, rs, sid)
  IN IF M.st # "" THEN [fr EXCEPT !.st = M.st] ELSE [M.fr EXCEPT !.i = fr.i + 1]

(* which downsampling shifts pass k (0-based) brings: <<lowest, highest>> *)
Bracket(f, k) ==
  LET step(a, i) ==
        LET hit == {j \in 1..Len(f.pass.ds) : f.pass.last[j] = i}
            mn == IF hit = {} THEN a.mn ELSE CeilLog2(f.pass.ds[CHOOSE j \in hit : \A q \in hit : q <= j])
            m == IF i = f.pass.n - 1 THEN 0 ELSE mn
        IN IF a.done THEN a ELSE IF i = k THEN [mn |-> m, mx |-> a.mx, done |-> TRUE] ELSE [mn |-> m, mx |-> m - 1, done |-> FALSE]
      z == FoldLeft(step, [mn |-> 3, mx |-> 2, done |-> FALSE], [i \in 1..f.pass.n |-> i - 1])
  IN << z.mn, z.mx >>

(* decode the next section *)
NextSection(ih, fr) ==
  LET f == fr.f
      nl == NLf(f)
      ng == NGroups(f)
      gd == GroupDim(f)
      i == fr.i
      k == i - 1
      g == (i - 2 - nl) % ng
      ps == (i - 2 - nl) \div ng
      br == Bracket(f, ps)
  IN IF i = 0 THEN LfGlobal(ih, fr)
     ELSE IF i <= nl THEN GroupStream(ih, fr, fr.sec[i + 1], GroupChannels(fr, (k % LfGroupsX(f)) * 8 * gd, (k \div LfGroupsX(f)) * 8 * gd, 8 * gd, 3, 1000), 1 + nl + k)
     ELSE IF i = nl + 1 THEN [fr EXCEPT !.i = i + 1]
     ELSE GroupStream(ih, fr, fr.sec[i + 1], GroupChannels(fr, (g % GroupsX(f)) * gd, (g \div GroupsX(f)) * gd, gd, br[1], br[2]), 18 + 3 * nl + ng * ps + g)

(* put the pieces together and undo the frame's transforms: the samples of all channels *)
FinishFrame(ih, fr) ==
  LET at(ps, x, y) == LET s == {k \in 1..Len(ps) : x >= ps[k].x /\ x < ps[k].x + ps[k].w /\ y >= ps[k].y /\ y < ps[k].y + ps[k].h}
                      IN IF s = {} THEN 0 ELSE LET q == ps[CHOOSE k \in s : TRUE] IN q.d[y - q.y + 1][x - q.x + 1]
      full(c) == LET ch == fr.chs[c]
                 IN IF c < fr.left THEN ch ELSE [ch EXCEPT !.d = TLCEval([y \in 1..ch.h |-> [x \in 1..ch.w |-> at(fr.pieces[c], x - 1, y - 1)]])]
      U == UndoAll(TLCEval([c \in 1..Len(fr.chs) |-> full(c)]), fr.ts, ih.bits, fr.wp)
  IN TLCEval([st |-> U.st, chs |-> U.chs])
=============================================================================
