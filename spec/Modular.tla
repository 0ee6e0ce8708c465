------------------------------- MODULE Modular -------------------------------
(* Modular sub-images: meta-adaptive trees, predictors (with the weighted
   predictor), properties, channel decoding, and the transforms on the channel
   list.  A channel is [w, h, hs, vs, d] with d the sequence of its rows.
   Values beyond Lim in magnitude leave the model ("big").                    *)
EXTENDS Entropy

Lim == 262144          \* with the weighted predictor
BigLim == 67108864     \* without
Abs(x) == IF x < 0 THEN -x ELSE x
TruncDiv(a, n) == IF a >= 0 THEN a \div n ELSE -((-a) \div n)
Clamp3(v, a, c) == Max2(Min2(a, c), Min2(v, Max2(a, c)))

-----------------------------------------------------------------------------
(* the decision tree: breadth-first list of nodes.
   inner: [p |-> property, v, l, r], leaf: [p |-> -1, pred, off, mul, ctx]      *)
MaxNodes == 600
ReadTree(b, p0) ==
  LET c == ReadCode(b, p0, 6, FALSE)
      step(a, i) ==
        IF a.st # "" \/ a.rem = 0 THEN a
        ELSE LET pr == ReadSym(b, c.E, a.d, 1, 0)
             IN IF pr.v > 0
                THEN LET sv == ReadSym(b, c.E, pr.d, 0, 0)
                         left == Len(a.n) + (a.rem - 1) + 2       \* 1-based
                     IN [a EXCEPT !.d = sv.d, !.rem = a.rem + 1, !.st = IF pr.v > 256 THEN "property" ELSE sv.d.st,
                                  !.n = Append(a.n, [p |-> pr.v - 1, v |-> UnpackInt(sv.v), l |-> left, r |-> left + 1])]
                ELSE LET pd == ReadSym(b, c.E, pr.d, 2, 0)
                         of == ReadSym(b, c.E, pd.d, 3, 0)
                         ml == ReadSym(b, c.E, of.d, 4, 0)
                         mb == ReadSym(b, c.E, ml.d, 5, 0)
                         bad == pd.v > 13 \/ ml.v > 30 \/ (ml.v > 1 /\ mb.v > 2 ^ (31 - ml.v) - 2)
                         toobig == ml.v > 18 \/ mb.v >= Lim \/ (mb.v + 1) > Lim \div 2 ^ Min2(ml.v, 18)
                     IN [a EXCEPT !.d = mb.d, !.rem = a.rem - 1, !.ctx = a.ctx + 1,
                                  !.st = IF mb.d.st # "" THEN mb.d.st ELSE IF bad THEN "err" ELSE IF toobig THEN "big" ELSE "",
                                  !.n = Append(a.n, [p |-> -1, pred |-> pd.v, off |-> UnpackInt(of.v),
                                                     mul |-> IF bad \/ toobig THEN 1 ELSE (mb.v + 1) * 2 ^ ml.v, ctx |-> a.ctx])]
      z == FoldLeft(step, [d |-> D0(c.p), n |-> <<>>, rem |-> 1, ctx |-> 0, st |-> ""], Iota(MaxNodes))
      fail(st, p) == [st |-> st, p |-> p, nodes |-> <<>>, E |-> NoE]
  IN IF c.st # "" THEN fail(c.st, c.p)
     ELSE IF z.st # "" THEN fail(z.st, z.d.p)
     ELSE IF z.rem > 0 THEN fail("tree too large", z.d.p)
     ELSE IF ~FinalOK(z.d) THEN fail("err", z.d.p)
     ELSE LET e == ReadCode(b, z.d.p, (Len(z.n) + 1) \div 2, FALSE)
          IN IF e.st # "" THEN fail(e.st, e.p) ELSE [st |-> "", p |-> e.p, nodes |-> z.n, E |-> e.E]

NoTree == [st |-> "none", p |-> 0, nodes |-> <<>>, E |-> NoE]

TreeUsesWP(nodes) == \E i \in 1..Len(nodes) : (nodes[i].p = 15) \/ (nodes[i].p = -1 /\ nodes[i].pred = 6)

-----------------------------------------------------------------------------
(* weighted predictor *)
DefaultWP == [p1 |-> 16, p2 |-> 10, p3 |-> <<7, 7, 7, 0, 0>>, w |-> <<13, 12, 12, 12>>]
ReadWP(b, p) ==      \* [p, wp]
  IF GetBits(b, p, 1) = 1 THEN [p |-> p + 1, wp |-> DefaultWP]
  ELSE [p |-> p + 52,
        wp |-> TLCEval([p1 |-> GetBits(b, p + 1, 5), p2 |-> GetBits(b, p + 6, 5),
                p3 |-> [i \in 1..5 |-> GetBits(b, p + 11 + 5 * (i - 1), 5)],
                w |-> [i \in 1..4 |-> GetBits(b, p + 36 + 4 * (i - 1), 4)]])]

DivL(i) == 16777216 \div i          \* 2^24 / i
(* floor(s * d / 2^24) without overflow *)
MulShift24(s, d) ==
  LET sh == s \div 4096 sl == s % 4096 dh == d \div 4096 dl == d % 4096
  IN sh * dh + ((sh * dl + sl * dh) + (sl * dl) \div 4096) \div 4096

(* er: five rows (four sub-predictor errors, true error) of the row above, cr: of this
   row so far.  x is 1-based.  Result: [pred (times 8), sub, maxerr]            *)
WPredict(wp, w, x, y, W, N, NW, NE, NN, er, cr) ==
  LET n(e) == IF y = 0 THEN 0 ELSE er[e][x]
      we(e) == IF x = 1 THEN 0 ELSE cr[e][x - 1]
      ww(e) == IF x <= 2 THEN 0 ELSE cr[e][x - 2]
      nw(e) == IF x > 1 /\ y > 0 THEN er[e][x - 1] ELSE n(e)
      ne(e) == IF x < w /\ y > 0 THEN er[e][x + 1] ELSE n(e)
      tN == n(5) tW == we(5) tNW == nw(5) tNE == ne(5)
      n3 == 8 * N w3 == 8 * W nw3 == 8 * NW ne3 == 8 * NE nn3 == 8 * NN
      sub == << w3 + ne3 - n3,
                n3 - ((tW + tN + tNE) * wp.p1) \div 32,
                w3 - ((tW + tN + tNW) * wp.p2) \div 32,
                n3 - (tNW * wp.p3[1] + tN * wp.p3[2] + tNE * wp.p3[3] + (nn3 - n3) * wp.p3[4] + (nw3 - w3) * wp.p3[5]) \div 32 >>
      weight(e) ==
        LET s == n(e) + we(e) + nw(e) + ww(e) + ne(e) + (IF x = w THEN we(e) ELSE 0)
            sh == Max2(0, FloorLog2(s + 1) - 5)
        IN 4 + (wp.w[e] * DivL(s \div 2 ^ sh + 1)) \div 2 ^ sh
      w0 == << weight(1), weight(2), weight(3), weight(4) >>
      lw == FloorLog2(w0[1] + w0[2] + w0[3] + w0[4]) - 4
      w1 == << w0[1] \div 2 ^ lw, w0[2] \div 2 ^ lw, w0[3] \div 2 ^ lw, w0[4] \div 2 ^ lw >>
      ws == w1[1] + w1[2] + w1[3] + w1[4]
      s == sub[1] * w1[1] + sub[2] * w1[2] + sub[3] * w1[3] + sub[4] * w1[4] + (ws \div 2) - 1
      pr == MulShift24(s, DivL(ws))
      sameSign == (tN < 0) = (tW < 0) /\ (tN < 0) = (tNW < 0)
      free == sameSign /\ ~(tN = tW /\ tN = tNW)
      clamped == Max2(Min2(w3, Min2(n3, ne3)), Min2(pr, Max2(w3, Max2(n3, ne3))))
      m1 == IF Abs(tN) > Abs(tW) THEN tN ELSE tW
      m2 == IF Abs(tNW) > Abs(m1) THEN tNW ELSE m1
      m3 == IF Abs(tNE) > Abs(m2) THEN tNE ELSE m2
  IN [pred |-> IF free THEN pr ELSE clamped, sub |-> sub, maxerr |-> m3]

NoWP == [pred |-> 0, sub |-> <<0, 0, 0, 0>>, maxerr |-> 0]

(* predictor k from the neighbourhood *)
Predict(k, W, N, NW, NE, NN, WW, NEE, wpred) ==
  CASE k = 0 -> 0
    [] k = 1 -> W
    [] k = 2 -> N
    [] k = 3 -> TruncDiv(W + N, 2)
    [] k = 4 -> IF Abs(N - NW) < Abs(W - NW) THEN W ELSE N
    [] k = 5 -> Clamp3(W + N - NW, W, N)
    [] k = 6 -> (wpred + 3) \div 8
    [] k = 7 -> NE
    [] k = 8 -> NW
    [] k = 9 -> WW
    [] k = 10 -> TruncDiv(W + NW, 2)
    [] k = 11 -> TruncDiv(N + NW, 2)
    [] k = 12 -> TruncDiv(N + NE, 2)
    [] k = 13 -> TruncDiv(6 * N - 2 * NN + 7 * W + WW + NEE + 3 * NE + 8, 16)

(* the q-th (0..3) reference property of sample (x,y) of an earlier channel *)
RefProp(ch, q, x, y) ==
  LET v == ch.d[y + 1][x]
      W == IF x > 1 THEN ch.d[y + 1][x - 1] ELSE 0
      N == IF y > 0 THEN ch.d[y][x] ELSE W
      NW == IF x > 1 /\ y > 0 THEN ch.d[y][x - 1] ELSE W
      g == v - Clamp3(W + N - NW, W, N)
  IN CASE q = 0 -> Abs(v) [] q = 1 -> v [] q = 2 -> Abs(g) [] q = 3 -> g

(* property k of the sample whose neighbourhood is q *)
Prop(q, k) ==
  CASE k = 0 -> q.ci
    [] k = 1 -> q.sid
    [] k = 2 -> q.y
    [] k = 3 -> q.x - 1
    [] k = 4 -> Abs(q.N)
    [] k = 5 -> Abs(q.W)
    [] k = 6 -> q.N
    [] k = 7 -> q.W
    [] k = 8 -> q.W - q.g
    [] k = 9 -> q.W + q.N - q.NW
    [] k = 10 -> q.W - q.NW
    [] k = 11 -> q.NW - q.N
    [] k = 12 -> q.N - q.NE
    [] k = 13 -> q.N - q.NN
    [] k = 14 -> q.W - q.WW
    [] k = 15 -> q.maxerr
    [] OTHER -> LET j == (k - 16) \div 4 + 1
                IN IF j > Len(q.refs) THEN 0 ELSE RefProp(q.refs[j], (k - 16) % 4, q.x, q.y)

RECURSIVE Walk(_, _, _)
Walk(nodes, i, q) ==
  LET nd == nodes[i]
  IN IF nd.p = -1 THEN nd
     ELSE IF Prop(q, nd.p) > nd.v THEN Walk(nodes, nd.l, q) ELSE Walk(nodes, nd.r, q)

(* properties that do not depend on samples can be resolved once per row *)
RECURSIVE Prune(_, _, _, _, _)
Prune(nodes, i, ci, sid, y) ==
  LET nd == nodes[i]
  IN IF nd.p = -1 \/ nd.p > 2 THEN i
     ELSE LET v == CASE nd.p = 0 -> ci [] nd.p = 1 -> sid [] nd.p = 2 -> y
          IN Prune(nodes, IF v > nd.v THEN nd.l ELSE nd.r, ci, sid, y)

ErrRow == << <<>>, <<>>, <<>>, <<>>, <<>> >>

(* decode one channel: ci its index in the list, sid the stream index, refs the
   earlier channels that can serve properties 16.., nearest first             *)
DecodeChannel(b, E, nodes, wp, useWP, ch, ci, sid, mult, refs, d0) ==
  LET lim == IF useWP THEN Lim ELSE BigLim
      rowStep(ra, y) ==
        LET prev == IF y > 0 THEN ra.rows[y] ELSE <<>>
            pp == IF y > 1 THEN ra.rows[y - 1] ELSE <<>>
            root == Prune(nodes, 1, ci, sid, y)
            px(a, x) ==
              IF a.d.st # "" THEN a
              ELSE
              LET W == IF x > 1 THEN a.row[x - 1] ELSE IF y > 0 THEN prev[x] ELSE 0
                  N == IF y > 0 THEN prev[x] ELSE W
                  NW == IF x > 1 /\ y > 0 THEN prev[x - 1] ELSE W
                  NE == IF x < ch.w /\ y > 0 THEN prev[x + 1] ELSE N
                  NN == IF y > 1 THEN pp[x] ELSE N
                  WW == IF x > 2 THEN a.row[x - 2] ELSE W
                  NEE == IF x + 1 < ch.w /\ y > 0 THEN prev[x + 2] ELSE NE
                  wv == IF useWP THEN WPredict(wp, ch.w, x, y, W, N, NW, NE, NN, ra.er, a.er) ELSE NoWP
                  grad == W + N - NW
                  leaf == Walk(nodes, root, [ci |-> ci, sid |-> sid, y |-> y, x |-> x, N |-> N, W |-> W, NW |-> NW, NE |-> NE, NN |-> NN,
                                             WW |-> WW, g |-> a.g, maxerr |-> wv.maxerr, refs |-> refs])
                  s == ReadSym(b, E, a.d, leaf.ctx, mult)
                  u == UnpackInt(s.v)
                  over == Abs(u) > lim \div leaf.mul \/ Abs(leaf.off) > Lim
                  v == IF over THEN 0 ELSE u * leaf.mul + leaf.off + Predict(leaf.pred, W, N, NW, NE, NN, WW, NEE, wv.pred)
              IN IF s.d.st # "" THEN [a EXCEPT !.d = s.d]
                 ELSE IF over \/ Abs(v) > lim THEN [a EXCEPT !.d = [s.d EXCEPT !.st = "big"]]
                 ELSE [d |-> s.d, row |-> Append(a.row, v), g |-> grad,
                       er |-> IF ~useWP THEN a.er
                              ELSE << Append(a.er[1], (Abs(wv.sub[1] - 8 * v) + 3) \div 8),
                                      Append(a.er[2], (Abs(wv.sub[2] - 8 * v) + 3) \div 8),
                                      Append(a.er[3], (Abs(wv.sub[3] - 8 * v) + 3) \div 8),
                                      Append(a.er[4], (Abs(wv.sub[4] - 8 * v) + 3) \div 8),
                                      Append(a.er[5], wv.pred - 8 * v) >>]
            z == FoldLeft(px, [d |-> ra.d, row |-> <<>>, g |-> 0, er |-> ErrRow], Iota(ch.w))
        IN IF ra.d.st # "" THEN ra ELSE [d |-> z.d, rows |-> Append(ra.rows, z.row), er |-> z.er]
  IN FoldLeft(rowStep, [d |-> d0, rows |-> <<>>, er |-> ErrRow], [i \in 1..ch.h |-> i - 1])

-----------------------------------------------------------------------------
(* transforms *)
ReadSqueezeParams(b, p0, n) ==
  LET step(a, i) ==
        LET bg == Ru32(b, a.p + 2, <<0, 3, 8, 6, 72, 10, 1096, 13>>)
            nc == Ru32(b, bg[2], <<1, 0, 2, 0, 3, 0, 4, 4>>)
        IN [p |-> nc[2], l |-> Append(a.l, [hor |-> GetBits(b, a.p, 1) = 1, inpl |-> GetBits(b, a.p + 1, 1) = 1, begin |-> bg[1], num |-> nc[1]])]
  IN FoldLeft(step, [p |-> p0, l |-> <<>>], Iota(n))

ReadTransform(b, p) ==        \* [st, p, t]
  LET id == GetBits(b, p, 2)
      bg == Ru32(b, p + 2, <<0, 3, 8, 6, 72, 10, 1096, 13>>)
  IN CASE id = 0 -> (LET r == Ru32(b, bg[2], <<6, 0, 0, 2, 2, 4, 10, 6>>)
                     IN [st |-> IF r[1] >= 42 THEN "err" ELSE "", p |-> r[2], t |-> [id |-> 0, begin |-> bg[1], rct |-> r[1]]])
       [] id = 1 -> (LET nc == Ru32(b, bg[2], <<1, 0, 3, 0, 4, 0, 1, 13>>)
                         co == Ru32(b, nc[2], <<0, 8, 256, 10, 1280, 12, 5376, 16>>)
                         de == Ru32(b, co[2], <<0, 0, 1, 8, 257, 10, 1281, 16>>)
                         pr == GetBits(b, de[2], 4)
                     IN [st |-> IF pr > 13 THEN "palette predictor" ELSE "", p |-> de[2] + 4,
                         t |-> [id |-> 1, begin |-> bg[1], num |-> nc[1], col |-> co[1], del |-> de[1], pred |-> pr]])
       [] id = 2 -> (LET n == Ru32(b, p + 2, <<0, 0, 1, 4, 9, 6, 41, 8>>)
                         q == ReadSqueezeParams(b, n[2], n[1])
                     IN [st |-> "", p |-> q.p, t |-> [id |-> 2, sq |-> q.l]])
       [] OTHER -> [st |-> "err", p |-> p + 2, t |-> [id |-> 3]]

ReadTransforms(b, p0, n) ==
  LET step(a, i) == IF a.st # "" THEN a
                    ELSE LET r == ReadTransform(b, a.p) IN [st |-> r.st, p |-> r.p, l |-> Append(a.l, r.t)]
  IN FoldLeft(step, [st |-> "", p |-> p0, l |-> <<>>], Iota(n))

Chan(w, h, hs, vs) == [w |-> w, h |-> h, hs |-> hs, vs |-> vs, d |-> <<>>]
SameShape(a, c) == a.w = c.w /\ a.h = c.h /\ a.hs = c.hs /\ a.vs = c.vs
RemoveFrom(s, from, n) == SubSeq(s, 1, from - 1) \o SubSeq(s, from + n, Len(s))       \* 1-based

(* begin..begin+n-1 (0-based) exist, lie on one side of the meta channels and look alike *)
RangeOK(chs, meta, begin, n) ==
  /\ n >= 1 /\ begin + n <= Len(chs)
  /\ ~(begin < meta /\ begin + n > meta)
  /\ \A i \in 1..n : SameShape(chs[begin + i], chs[begin + 1])

DefaultSqueeze(chs, meta) ==
  LET n == Len(chs) - meta
      w0 == chs[meta + 1].w
      h0 == chs[meta + 1].h
      chroma == n > 2 /\ chs[meta + 2].w = w0 /\ chs[meta + 2].h = h0
      pre == IF chroma THEN << [hor |-> TRUE, inpl |-> FALSE, begin |-> meta + 1, num |-> 2],
                               [hor |-> FALSE, inpl |-> FALSE, begin |-> meta + 1, num |-> 2] >> ELSE <<>>
      P(hor) == [hor |-> hor, inpl |-> TRUE, begin |-> meta, num |-> n]
      tall == h0 >= w0 /\ h0 > 8
      step(a, i) ==
        LET wide == a.w > 8
            a2 == IF wide THEN [a EXCEPT !.l = Append(a.l, P(TRUE)), !.w = (a.w + 1) \div 2] ELSE a
        IN IF a2.h > 8 THEN [a2 EXCEPT !.l = Append(a2.l, P(FALSE)), !.h = (a2.h + 1) \div 2] ELSE a2
      z == FoldLeft(step, [w |-> w0, h |-> IF tall THEN (h0 + 1) \div 2 ELSE h0, l |-> IF tall THEN Append(pre, P(FALSE)) ELSE pre], Iota(31))
  IN z.l

(* apply one squeeze step to the channel list: [st, chs, meta] *)
SqueezeStep(a, s) ==
  IF a.st # "" THEN a
  ELSE IF s.begin + s.num > Len(a.chs) \/ (s.begin < a.meta /\ (~s.inpl \/ s.begin + s.num > a.meta)) THEN [a EXCEPT !.st = "err"]
  ELSE IF s.begin < a.meta THEN [a EXCEPT !.st = "squeezed meta channel"]
  ELSE LET off == IF s.inpl THEN s.begin + s.num ELSE Len(a.chs)       \* 0-based
           one(z, i) ==
             IF z.st # "" THEN z
             ELSE LET c == z.chs[s.begin + i]
                      c2 == IF s.hor THEN [c EXCEPT !.w = (c.w + 1) \div 2, !.hs = c.hs + 1]
                            ELSE [c EXCEPT !.h = (c.h + 1) \div 2, !.vs = c.vs + 1]
                      r == IF s.hor THEN [c2 EXCEPT !.w = c.w \div 2] ELSE [c2 EXCEPT !.h = c.h \div 2]
                  IN IF c.w = 0 \/ c.h = 0 THEN [z EXCEPT !.st = "squeezed empty channel"]
                     ELSE [z EXCEPT !.chs = InsertAt([z.chs EXCEPT ![s.begin + i] = c2], off + i, r)]
       IN FoldLeft(one, a, Iota(s.num))

(* the channel list after announcing transform t: [st, chs, meta, t] where t has its default parameters filled in *)
Announce(chs, meta, t) ==
  CASE t.id = 0 -> [st |-> IF RangeOK(chs, meta, t.begin, 3) THEN "" ELSE "err", chs |-> chs, meta |-> meta, t |-> t]
    [] t.id = 1 ->
       (IF ~RangeOK(chs, meta, t.begin, t.num) THEN [st |-> "err", chs |-> chs, meta |-> meta, t |-> t]
        ELSE [st |-> IF t.begin < meta /\ t.num > 1 THEN "palette of meta channels" ELSE "",
              chs |-> <<Chan(t.col, t.num, -1, -1)>> \o RemoveFrom(chs, t.begin + 2, t.num - 1),
              meta |-> IF t.begin >= meta THEN meta + 1 ELSE meta + 2 - t.num, t |-> t])
    [] t.id = 2 ->
       (IF t.sq = <<>> /\ Len(chs) = meta THEN [st |-> "err", chs |-> chs, meta |-> meta, t |-> t]
        ELSE LET l == IF t.sq = <<>> THEN DefaultSqueeze(chs, meta) ELSE t.sq
                 z == FoldLeft(SqueezeStep, [st |-> "", chs |-> chs, meta |-> meta], l)
             IN [st |-> z.st, chs |-> z.chs, meta |-> z.meta, t |-> [t EXCEPT !.sq = l]])
    [] OTHER -> [st |-> "err", chs |-> chs, meta |-> meta, t |-> t]

AnnounceAll(chs0, ts) ==
  LET step(a, t) == IF a.st # "" THEN a
                    ELSE LET r == Announce(a.chs, a.meta, t) IN [st |-> r.st, chs |-> r.chs, meta |-> r.meta, ts |-> Append(a.ts, r.t)]
  IN FoldLeft(step, [st |-> "", chs |-> chs0, meta |-> 0, ts |-> <<>>], ts)

-----------------------------------------------------------------------------
(* inverse transforms on decoded channels *)
MapRows(h, w, F(_, _)) == TLCEval([y \in 1..h |-> [x \in 1..w |-> F(x, y)]])

InvRct(chs, t) ==
  LET a == chs[t.begin + 1] b1 == chs[t.begin + 2] c == chs[t.begin + 3]
      ty == t.rct % 7
      pm == t.rct \div 7
      A(x, y) == a.d[y][x] B(x, y) == b1.d[y][x] C(x, y) == c.d[y][x]
      third(x, y) == IF ty \in {1, 3, 5} THEN C(x, y) + A(x, y) ELSE C(x, y)
      second(x, y) == IF ty \in {2, 3} THEN B(x, y) + A(x, y)
                      ELSE IF ty \in {4, 5} THEN B(x, y) + (A(x, y) + third(x, y)) \div 2 ELSE B(x, y)
      tmp(x, y) == A(x, y) - C(x, y) \div 2
      bl(x, y) == tmp(x, y) - B(x, y) \div 2
      o1 == [a EXCEPT !.d = IF ty = 6 THEN MapRows(a.h, a.w, LAMBDA x, y: bl(x, y) + B(x, y)) ELSE a.d]
      o2 == [a EXCEPT !.d = IF ty = 6 THEN MapRows(a.h, a.w, LAMBDA x, y: C(x, y) + tmp(x, y)) ELSE MapRows(a.h, a.w, second)]
      o3 == [a EXCEPT !.d = IF ty = 6 THEN MapRows(a.h, a.w, bl) ELSE MapRows(a.h, a.w, third)]
  IN [chs EXCEPT ![t.begin + 1 + (pm % 3)] = o1,
                 ![t.begin + 1 + ((pm + 1 + pm \div 3) % 3)] = o2,
                 ![t.begin + 1 + ((pm + 2 - pm \div 3) % 3)] = o3]

Tendency(B, a, n) ==
  IF B >= a /\ a >= n
  THEN LET x == TruncDiv(4 * B - 3 * n - a + 6, 12)
           x1 == IF x - (x % 2) > 2 * (B - a) THEN 2 * (B - a) + 1 ELSE x
       IN IF x1 + (x1 % 2) > 2 * (a - n) THEN 2 * (a - n) ELSE x1
  ELSE IF B <= a /\ a <= n
  THEN LET x == TruncDiv(4 * B - 3 * n - a - 6, 12)
           x1 == IF x + (x % 2) < 2 * (B - a) THEN 2 * (B - a) - 1 ELSE x
       IN IF x1 - (x1 % 2) < 2 * (a - n) THEN 2 * (a - n) ELSE x1
  ELSE 0

(* one line of averages and residuals back to samples *)
Unsqueeze(av, re) ==
  LET step(o, i) ==
        LET avg == av[i]
            next == IF i < Len(av) THEN av[i + 1] ELSE avg
            left == IF i > 1 THEN o[Len(o)] ELSE avg
            diff == re[i] + Tendency(left, avg, next)
            first == avg + TruncDiv(diff, 2)
        IN o \o <<first, first - diff>>
      o == FoldLeft(step, <<>>, Iota(Len(re)))
  IN IF Len(av) > Len(re) THEN Append(o, av[Len(av)]) ELSE o

Column(d, x) == [y \in 1..Len(d) |-> d[y][x]]

InvSqueezeOne(c, r, hor) ==
  IF hor THEN [w |-> c.w + r.w, h |-> c.h, hs |-> c.hs - 1, vs |-> c.vs,
               d |-> TLCEval([y \in 1..c.h |-> Unsqueeze(c.d[y], IF r.w = 0 THEN <<>> ELSE r.d[y])])]
  ELSE LET cols == TLCEval([x \in 1..c.w |-> Unsqueeze(TLCEval(Column(c.d, x)), IF r.h = 0 THEN <<>> ELSE TLCEval(Column(r.d, x)))])
       IN [w |-> c.w, h |-> c.h + r.h, hs |-> c.hs, vs |-> c.vs - 1,
           d |-> TLCEval([y \in 1..(c.h + r.h) |-> [x \in 1..c.w |-> cols[x][y]]])]

InvSqueeze(chs, s) ==
  LET off == IF s.inpl THEN s.begin + s.num ELSE Len(chs) - s.num       \* 0-based
      one(z, i) == [z EXCEPT ![s.begin + i] = InvSqueezeOne(z[s.begin + i], z[off + i], s.hor)]
  IN RemoveFrom(FoldLeft(one, chs, Iota(s.num)), off + 1, s.num)

DeltaPal == <<
  <<0,0,0>>,<<4,4,4>>,<<11,0,0>>,<<0,0,-13>>,<<0,-12,0>>,<<-10,-10,-10>>,<<-18,-18,-18>>,<<-27,-27,-27>>,<<-18,-18,0>>,<<0,0,-32>>,<<-32,0,0>>,<<-37,-37,-37>>,
  <<0,-32,-32>>,<<24,24,45>>,<<50,50,50>>,<<-45,-24,-24>>,<<-24,-45,-45>>,<<0,-24,-24>>,<<-34,-34,0>>,<<-24,0,-24>>,<<-45,-45,-24>>,<<64,64,64>>,<<-32,0,-32>>,<<0,-32,0>>,
  <<-32,0,32>>,<<-24,-45,-24>>,<<45,24,45>>,<<24,-24,-45>>,<<-45,-24,24>>,<<80,80,80>>,<<64,0,0>>,<<0,0,-64>>,<<0,-64,-64>>,<<-24,-24,45>>,<<96,96,96>>,<<64,64,0>>,
  <<45,-24,-24>>,<<34,-34,0>>,<<112,112,112>>,<<24,-45,-45>>,<<45,45,-24>>,<<0,-32,32>>,<<24,-24,45>>,<<0,96,96>>,<<45,-24,24>>,<<24,-45,-24>>,<<-24,-45,24>>,<<0,-64,0>>,
  <<96,0,0>>,<<128,128,128>>,<<64,0,64>>,<<144,144,144>>,<<96,96,0>>,<<-36,-36,36>>,<<45,-24,-45>>,<<45,-45,-24>>,<<0,0,-96>>,<<0,128,128>>,<<0,96,0>>,<<45,24,-45>>,
  <<-128,0,0>>,<<24,-45,24>>,<<-45,24,-45>>,<<64,0,-64>>,<<64,-64,-64>>,<<96,0,96>>,<<45,-45,24>>,<<24,45,-45>>,<<64,64,-64>>,<<128,128,0>>,<<0,0,-128>>,<<-24,45,-45>> >>

(* colour component c (0-based) of palette index i *)
PaletteValue(pal, i, c, ncol, bits) ==
  IF i >= 0 /\ i < ncol THEN pal[c + 1][i + 1]
  ELSE IF i >= ncol
  THEN LET j == i - ncol
       IN IF j < 64 THEN (((j \div 4 ^ c) % 4) * (2 ^ bits - 1)) \div 4 + 2 ^ Max2(0, bits - 3)
          ELSE ((((j - 64) \div 5 ^ c) % 5) * (2 ^ bits - 1)) \div 4
  ELSE IF c >= 3 THEN 0
  ELSE LET j == (-i - 1) % 143
           v == DeltaPal[(j + 1) \div 2 + 1][c + 1] * (IF j % 2 = 0 THEN -1 ELSE 1)
       IN IF bits > 8 THEN v * 2 ^ (Min2(bits, 24) - 8) ELSE v

(* one output channel of an inverse palette *)
PaletteChannel(pal, idx, t, c, bits, wp) ==
  LET useWP == t.pred = 6
      lim == IF useWP THEN Lim ELSE BigLim
      rowStep(ra, y) ==
        LET prev == IF y > 0 THEN ra.rows[y] ELSE <<>>
            pp == IF y > 1 THEN ra.rows[y - 1] ELSE <<>>
            px(a, x) ==
              LET i == idx.d[y + 1][x]
                  v0 == PaletteValue(pal, i, c, t.col, bits)
                  W == IF x > 1 THEN a.row[x - 1] ELSE IF y > 0 THEN prev[x] ELSE 0
                  N == IF y > 0 THEN prev[x] ELSE W
                  NW == IF x > 1 /\ y > 0 THEN prev[x - 1] ELSE W
                  NE == IF x < idx.w /\ y > 0 THEN prev[x + 1] ELSE N
                  NN == IF y > 1 THEN pp[x] ELSE N
                  WW == IF x > 2 THEN a.row[x - 2] ELSE W
                  NEE == IF x + 1 < idx.w /\ y > 0 THEN prev[x + 2] ELSE NE
                  wv == IF useWP THEN WPredict(wp, idx.w, x, y, W, N, NW, NE, NN, ra.er, a.er) ELSE NoWP
                  v == IF i < t.del THEN v0 + Predict(t.pred, W, N, NW, NE, NN, WW, NEE, wv.pred) ELSE v0
                  vv == IF Abs(v) > lim THEN 0 ELSE v
              IN [row |-> Append(a.row, vv), big |-> a.big \/ Abs(v) > lim,
                  er |-> IF ~useWP THEN a.er
                         ELSE << Append(a.er[1], (Abs(wv.sub[1] - 8 * vv) + 3) \div 8),
                                 Append(a.er[2], (Abs(wv.sub[2] - 8 * vv) + 3) \div 8),
                                 Append(a.er[3], (Abs(wv.sub[3] - 8 * vv) + 3) \div 8),
                                 Append(a.er[4], (Abs(wv.sub[4] - 8 * vv) + 3) \div 8),
                                 Append(a.er[5], wv.pred - 8 * vv) >>]
            z == FoldLeft(px, [row |-> <<>>, er |-> ErrRow, big |-> ra.big], Iota(idx.w))
        IN [rows |-> Append(ra.rows, z.row), er |-> z.er, big |-> z.big]
  IN FoldLeft(rowStep, [rows |-> <<>>, er |-> ErrRow, big |-> FALSE], [k \in 1..idx.h |-> k - 1])

(* [st, chs] *)
InvPalette(chs, t, bits, wp) ==
  LET pal == chs[1].d
      idx == chs[t.begin + 2]
      implicit == \E y \in 1..idx.h : \E x \in 1..idx.w : idx.d[y][x] >= t.col
      cs == [c \in 1..t.num |-> TLCEval(PaletteChannel(pal, idx, t, c - 1, bits, wp))]
      tc == TLCEval(cs)
      out == [c \in 1..t.num |-> [idx EXCEPT !.d = tc[c].rows]]
      st == IF bits > 16 THEN "deep palette"
            ELSE IF t.num > 3 /\ implicit THEN "implicit colour of a fourth channel"
            ELSE IF \E c \in 1..t.num : tc[c].big THEN "big" ELSE ""
  IN [st |-> st, chs |-> SubSeq(chs, 2, t.begin + 1) \o out \o SubSeq(chs, t.begin + 3, Len(chs))]

TooBig(chs) == \E i \in 1..Len(chs) : \E y \in 1..Len(chs[i].d) : \E x \in 1..Len(chs[i].d[y]) : Abs(chs[i].d[y][x]) > BigLim

(* undo all transforms, last first: [st, chs] *)
UndoAll(chs0, ts, bits, wp) ==
  LET step(a, k) ==
        LET t == ts[Len(ts) + 1 - k]
        IN IF a.st # "" THEN a
           ELSE IF TooBig(a.chs) THEN [a EXCEPT !.st = "big"]
           ELSE CASE t.id = 0 -> [a EXCEPT !.chs = TLCEval(InvRct(a.chs, t))]
                  [] t.id = 1 -> TLCEval(InvPalette(a.chs, t, bits, wp))
                  [] t.id = 2 -> FoldLeft(LAMBDA z, j: IF z.st # "" THEN z
                                                        ELSE IF TooBig(z.chs) THEN [z EXCEPT !.st = "big"]
                                                        ELSE [z EXCEPT !.chs = InvSqueeze(z.chs, t.sq[Len(t.sq) + 1 - j])], a, Iota(Len(t.sq)))
  IN FoldLeft(step, [st |-> "", chs |-> chs0], Iota(Len(ts)))

-----------------------------------------------------------------------------
(* a modular sub-stream: header, tree, samples.  Result
   [st, p, chs (with samples where decoded), ts, meta, wp, left (first index not
   decoded, 1-based)].  maxdim = 0: no limit on channel size.                 *)
SubFail(st, p) == [st |-> st, p |-> p, chs |-> <<>>, ts |-> <<>>, meta |-> 0, wp |-> DefaultWP, left |-> 1]

SubHeader(b, p, chs0) ==
  LET w == ReadWP(b, p + 1)
      nt == Ru32(b, w.p, <<0, 0, 1, 0, 2, 4, 18, 8>>)
      ts == ReadTransforms(b, nt[2], nt[1])
      an == AnnounceAll(chs0, ts.l)
  IN [st |-> IF ts.st # "" THEN ts.st ELSE an.st, p |-> ts.p, global |-> GetBits(b, p, 1) = 1, wp |-> w.wp,
      chs |-> an.chs, meta |-> an.meta, ts |-> an.ts]

SubDecode(b, p, chs0, sid, gtree, maxdim) ==
  IF chs0 = <<>> THEN SubFail("", p)
  ELSE LET H == SubHeader(b, p, chs0)
       IN IF H.st # "" THEN SubFail(H.st, H.p)
          ELSE LET big(i) == maxdim > 0 /\ i > H.meta /\ (H.chs[i].w > maxdim \/ H.chs[i].h > maxdim)
                   cut == {i \in 1..Len(H.chs) : big(i)}
                   left == IF cut = {} THEN Len(H.chs) + 1 ELSE CHOOSE i \in cut : \A j \in cut : i <= j
                   todo == {i \in 1..(left - 1) : H.chs[i].w > 0 /\ H.chs[i].h > 0}
                   wmax == FoldLeft(LAMBDA a, i: IF i \in todo THEN Max2(a, H.chs[i].w) ELSE a, 0, Iota(Len(H.chs)))
                   wall == FoldLeft(LAMBDA a, i: Max2(a, H.chs[i].w), 0, Iota(Len(H.chs)))
                   wreal == FoldLeft(LAMBDA a, i: IF i \in todo /\ i > H.meta THEN Max2(a, H.chs[i].w) ELSE a, 0, Iota(Len(H.chs)))
                   mult == IF wmax = wall /\ wmax = wreal THEN wmax ELSE -1
                   T == IF H.global THEN gtree ELSE ReadTree(b, H.p)
                   p1 == IF H.global THEN H.p ELSE T.p
                   useWP == TreeUsesWP(T.nodes)
                   step(a, i) ==
                     IF a.d.st # "" \/ i \notin todo THEN a
                     ELSE LET ch == H.chs[i]
                              refs == SelectSeq([j \in 1..(i - 1) |-> a.chs[i - j]], LAMBDA c: SameShape(c, ch))
                              z == DecodeChannel(b, T.E, T.nodes, H.wp, useWP, ch, i - 1, sid, mult, TLCEval(refs), a.d)
                          IN [d |-> z.d, chs |-> [a.chs EXCEPT ![i].d = z.rows]]
                   Z == FoldLeft(step, [d |-> D0(p1), chs |-> H.chs], Iota(left - 1))
               IN IF todo = {} /\ ~H.global THEN SubFail("local tree without samples", H.p)
                  ELSE IF H.p > NBits(b) THEN SubFail("over", H.p)
                  ELSE IF todo = {} THEN [st |-> IF T.st = "none" THEN "no samples and no tree" ELSE "", p |-> H.p, chs |-> H.chs, ts |-> H.ts, meta |-> H.meta, wp |-> H.wp, left |-> left]
                  ELSE IF H.global /\ T.st = "none" THEN SubFail("err", H.p)
                  ELSE IF T.st # "" THEN SubFail(T.st, p1)
                  ELSE IF p1 > NBits(b) THEN SubFail("over", p1)
                  ELSE IF Z.d.st # "" THEN SubFail(Z.d.st, Z.d.p)
                  ELSE IF Z.d.p > NBits(b) THEN SubFail("over", Z.d.p)
                  ELSE IF ~FinalOK(Z.d) THEN SubFail("err", Z.d.p)
                  ELSE [st |-> "", p |-> Z.d.p, chs |-> Z.chs, ts |-> H.ts, meta |-> H.meta, wp |-> H.wp, left |-> left]
=============================================================================
