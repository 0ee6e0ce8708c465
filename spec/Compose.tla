------------------------------- MODULE Compose -------------------------------
(* How frames become an image: every displayed frame is drawn onto a canvas that
   starts as what the blending source of each channel holds; the finished canvas may
   be kept as one of four references; the canvas of the last frame, turned to its
   orientation, is the image.

   A canvas channel is [w, h, m, s, e, d]: sample v stands for d/s in units of 1/m
   (m is the largest sample value).  s = 1: exact integers.  s = 64: fixed point, off
   by at most e.  U marks a pixel about which nothing is said.                  *)
EXTENDS Frame

U == 2000000000
Cap == 1048576
MaxV == 536870912
Known(a) == a # U
SMul(a, b) == IF a = U \/ b = U THEN U ELSE IF a = 0 THEN 0 ELSE IF Abs(b) > MaxV \div Abs(a) THEN U ELSE a * b
SAdd(a, b) == IF a = U \/ b = U THEN U ELSE IF Abs(a + b) > MaxV THEN U ELSE a + b
(* rounded quotient, q > 0 *)
SDiv(a, q) == IF a = U THEN U ELSE (2 * a + q) \div (2 * q)
Clamp01(v, m) == IF v < 0 THEN 0 ELSE IF v > m THEN m ELSE v

ChMax(ih, c) == LET nc == NColourCh(ih) IN 2 ^ (IF c <= nc THEN ih.bits ELSE ih.ec[c - nc].bits) - 1
Row2(w, h, v(_, _)) == TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> v(x, y)])])
(* channels of a frame are exact, or bring their own scale and error *)
ScaleOf(ch) == IF "s" \in DOMAIN ch THEN ch.s ELSE 1
ErrOf(ch) == IF "s" \in DOMAIN ch THEN ch.e ELSE 0
ToCanvas(ih, chs) == [c \in 1..Len(chs) |-> [w |-> chs[c].w, h |-> chs[c].h, m |-> ChMax(ih, c), s |-> ScaleOf(chs[c]), e |-> ErrOf(chs[c]), d |-> chs[c].d]]

(* blending of channel c (1-based) *)
Info(ih, f, c) == LET nc == NColourCh(ih) IN IF c <= nc THEN f.bl ELSE f.ecbl[c - nc]
HasAlphaCh(ih) == \E i \in 1..Len(ih.ec) : ih.ec[i].type = 0
AlphaIdx(ih, info) == NColourCh(ih) + 1 + info.alpha

(* where the samples of the frame land: canvas columns lo..hi, 0-based *)
Inside(f, ih, x, y) == x >= f.x0 /\ x < f.x0 + f.w /\ y >= f.y0 /\ y < f.y0 + f.h

(* the canvas below channel c: size of the image, zero where the reference has nothing *)
Below(ih, refs, c, src) ==
  LET r == refs[src + 1].chs
      ok == c <= Len(r)
      z == [w |-> ih.w, h |-> ih.h, m |-> ChMax(ih, c), s |-> 1, e |-> 0, d |-> <<>>]
      at(x, y) == IF ok /\ y <= r[c].h /\ x <= r[c].w THEN r[c].d[y][x] ELSE 0
  IN [z EXCEPT !.s = IF ok THEN r[c].s ELSE 1, !.e = IF ok THEN r[c].e ELSE 0, !.d = Row2(ih.w, ih.h, at)]

(* raise exact samples to fixed point *)
To64(ch) == IF ch.s = 64 THEN ch ELSE [ch EXCEPT !.s = 64, !.d = Row2(ch.w, ch.h, LAMBDA x, y: SMul(ch.d[y][x], 64))]

(* one pixel: f, fa: frame sample and frame alpha (exact); b, ba: what is below, at scale s;
   result at scale 64 *)
AlphaOver(fa, ba, A, s) == SDiv(SMul(64 \div s, SAdd(SMul(SMul(fa, A), s), SMul(ba, A - fa))), A)
PremulOver(f, b, fa, A, s) == SAdd(SMul(64, f), SDiv(SMul(64 \div s, SMul(b, A - fa)), A))
StraightOver(f, fa, b, ba, A, s) ==
  LET N == SAdd(SMul(SMul(fa, A), s), SMul(ba, A - fa))
      num == SAdd(SMul(SMul(SMul(f, fa), A), s), SMul(SDiv(SMul(b, ba), s), A - fa))
  IN IF N = U \/ N < 0 THEN U
     ELSE IF N = 0 THEN IF s = 1 THEN 0 ELSE U
     ELSE IF s = 64 /\ N < 32 * A * A THEN U
     ELSE SDiv(SMul(64, num), N)
MulOver(f, b, m, s) == SDiv(SMul(64 \div s, SMul(f, b)), m)
MulAddOver(f, fa, b, A, s) == SAdd(SMul(64 \div s, b), SDiv(SMul(SMul(64, f), fa), A))

(* the new contents of channel c *)
Drawn(ih, f, refs, chs, c) ==
  LET info == Info(ih, f, c)
      fine == ScaleOf(chs[c]) = 64
      under0 == Below(ih, refs, c, info.src)
      under == IF fine THEN To64(under0) ELSE under0
      mode == info.mode
      m == under.m
      has == HasAlphaCh(ih)
      a == AlphaIdx(ih, info)
      isA == has /\ c = a
      A == IF has THEN ChMax(ih, a) ELSE 1
      needA == has /\ mode \in {BLEND, MULADD}
      below == IF needA THEN Below(ih, refs, a, info.src) ELSE under
      s == IF needA THEN Max2(under.s, below.s) ELSE under.s
      ub == IF s = 64 THEN To64(under) ELSE under
      ab == IF s = 64 THEN To64(below) ELSE below
      prem == has /\ ih.ec[info.alpha + 1].assoc
      fs(x, y) == chs[c].d[y - f.y0][x - f.x0]
      fa(x, y) == IF ~needA THEN 1
                  ELSE LET v == chs[a].d[y - f.y0][x - f.x0]
                           k == IF info.clamp THEN Clamp01(v, A) ELSE v
                       IN IF k < 0 - 4 * A \/ k > 4 * A THEN U ELSE k
      \* what no rule covers: extra channels blended by an alpha in an image without alpha,
      \* colour blended over while its alpha channel is not, or with another source
      nc == NColourCh(ih)
      odd == \/ ~has /\ mode \in {BLEND, MULADD} /\ c > nc
             \/ needA /\ (ih.ec[info.alpha + 1].type # 0 \/ A > 4095 \/ ScaleOf(chs[a]) = 64)
             \/ needA /\ f.ecbl[info.alpha + 1].src # info.src
             \/ needA /\ mode = BLEND /\ f.ecbl[info.alpha + 1].mode # BLEND
      bl(x, y) == LET b == ub.d[y][x] IN
        IF mode = MUL
        THEN LET v == fs(x, y) IN LET k == IF info.clamp THEN Clamp01(v, m) ELSE v IN IF Abs(k) > 4 * m THEN U ELSE MulOver(k, b, m, s)
        ELSE IF ~has THEN SAdd(SMul(64, fs(x, y)), IF mode = BLEND THEN 0 ELSE SMul(64 \div s, b))
        ELSE IF mode = MULADD THEN IF isA THEN SMul(64 \div s, b) ELSE LET k == fa(x, y) IN IF k = U THEN U ELSE MulAddOver(fs(x, y), k, b, A, s)
        ELSE LET k == fa(x, y) IN
             IF k = U THEN U
             ELSE IF isA THEN AlphaOver(k, b, A, s)
             ELSE IF prem THEN PremulOver(fs(x, y), b, k, A, s)
             ELSE StraightOver(fs(x, y), k, b, ab.d[y][x], A, s)
      exact == mode \in {REPLACE, ADD}
      put(x, y) ==
        IF ~Inside(f, ih, x - 1, y - 1) THEN (IF exact THEN under.d[y][x] ELSE SMul(64 \div s, ub.d[y][x]))
        ELSE IF mode = REPLACE THEN SMul(IF fine THEN 1 ELSE under.s, fs(x, y))
        ELSE IF mode = ADD THEN SAdd(under.d[y][x], SMul(IF fine THEN 1 ELSE under.s, fs(x, y)))
        ELSE IF odd \/ fine THEN U ELSE bl(x, y)
      \* error bounds
      grow == IF mode = BLEND /\ needA /\ ~isA /\ ~prem THEN 4 + (IF s = 64 THEN 2 * ub.e + (4 * m * (1 + ab.e)) \div A ELSE 0)
              ELSE 4 + 5 * ub.e
      capped(v) == IF v = U \/ Abs(v) > Cap \/ grow > 200 THEN U ELSE v
  IN IF exact THEN [under EXCEPT !.e = under.e + ErrOf(chs[c]), !.d = Row2(ih.w, ih.h, put)]
     ELSE [under EXCEPT !.s = 64, !.e = grow, !.d = Row2(ih.w, ih.h, LAMBDA x, y: capped(put(x, y)))]

DrawFrame(ih, f, refs, chs) == TLCEval([c \in 1..Len(chs) |-> TLCEval(Drawn(ih, f, refs, chs, c))])

(* the blending sources a frame makes use of *)
Sources(ih, f) == IF f.nonorm THEN {}
                  ELSE {Info(ih, f, c).src : c \in {k \in 1..(NColourCh(ih) + Len(ih.ec)) : f.partial \/ Info(ih, f, k).mode # REPLACE}}

(* the references: what a frame was kept as. plain: usable as blending source *)
NoRefs == [i \in 1..4 |-> [plain |-> TRUE, chs |-> <<>>]]
Saves(f) == ~f.last /\ f.type # LFFRAME
Save(refs, f, own, canvas) ==
  IF ~Saves(f) THEN refs
  ELSE [refs EXCEPT ![f.save + 1] = [plain |-> ~f.sbct, chs |-> IF f.type = REFONLY THEN own ELSE canvas]]

(* turn the canvas to the orientation of the image *)
Oriented(ch, o) ==
  LET w == ch.w
      h == ch.h
      t == o >= 5
      at(x, y) ==
        CASE o = 1 -> ch.d[y][x]
          [] o = 2 -> ch.d[y][w + 1 - x]
          [] o = 3 -> ch.d[h + 1 - y][w + 1 - x]
          [] o = 4 -> ch.d[h + 1 - y][x]
          [] o = 5 -> ch.d[x][y]
          [] o = 6 -> ch.d[h + 1 - x][y]
          [] o = 7 -> ch.d[h + 1 - x][w + 1 - y]
          [] o = 8 -> ch.d[x][w + 1 - y]
  IN [ch EXCEPT !.w = IF t THEN h ELSE w, !.h = IF t THEN w ELSE h,
                !.d = Row2(IF t THEN h ELSE w, IF t THEN w ELSE h, at)]

(* does the sample o, recorded as integer or as 64-fold float, show v of channel ch *)
Shows(fl, o, ch, v) ==
  IF v = U THEN TRUE
  ELSE IF ch.s = 1
  THEN IF ~fl THEN o = v ELSE Abs(v) > 65536 \/ Abs(o - 64 * v) <= 2
  ELSE IF fl THEN Abs(o - v) <= 2 + ch.e ELSE Abs(o) < Cap /\ Abs(64 * o - v) <= 32 + ch.e
=============================================================================
