-------------------------------- MODULE Render --------------------------------
(* C12: renderings of an image, one after the other, and what each must show: the samples
   clamped and rescaled to the depth of the output.  The state is the place in the history
   and, by kind of rendering, the first result; the image itself must come out unchanged.
   Recorded samples of float channels are times 1024, PFM values times 65536.        *)
EXTENDS Icc, ImageHeader, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)

(* linear value * 2^20 of the sRGB values 0 .. 255 *)
SRGB8 == << 0, 318, 637, 955, 1273, 1591, 1910, 2228, 2546, 2864, 3183, 3509, 3855, 4220, 4605, 5009, 5433, 5878, 6343, 6828, 7335, 7863, 8413, 8984, 9578, 10193, 10832, 11492, 12176, 12883, 13614, 14368, 15145, 15947, 16773, 17624, 18499, 19399, 20324, 21274, 22250, 23251, 24278, 25331, 26410, 27516, 28648, 29807, 30993, 32205, 33445, 34713, 36008, 37331, 38681, 40060, 41467, 42903, 44367, 45860, 47381, 48932, 50512, 52121, 53760, 55428, 57127, 58855, 60613, 62402, 64221, 66071, 67951, 69862, 71805, 73778, 75783, 77819, 79886, 81985, 84117, 86280, 88475, 90702, 92962, 95254, 97579, 99937, 102328, 104751, 107208, 109698, 112222, 114779, 117370, 119994, 122653, 125345, 128072, 130833, 133628, 136458, 139323, 142222, 145156, 148125, 151130, 154169, 157244, 160355, 163501, 166683, 169900, 173154, 176443, 179769, 183131, 186530, 189964, 193436, 196944, 200489, 204072, 207691, 211347, 215041, 218772, 222540, 226346, 230190, 234071, 237991, 241948, 245944, 249978, 254050, 258161, 262310, 266498, 270724, 274990, 279294, 283637, 288020, 292442, 296903, 301404, 305944, 310523, 315143, 319802, 324502, 329241, 334021, 338840, 343700, 348601, 353542, 358523, 363546, 368609, 373713, 378858, 384044, 389271, 394539, 399849, 405201, 410594, 416028, 421504, 427022, 432582, 438184, 443828, 449515, 455243, 461014, 466827, 472683, 478582, 484523, 490507, 496534, 502604, 508717, 514873, 521072, 527315, 533601, 539930, 546303, 552720, 559181, 565685, 572234, 578826, 585462, 592143, 598868, 605637, 612451, 619309, 626211, 633159, 640151, 647188, 654270, 661397, 668569, 675786, 683048, 690356, 697709, 705108, 712552, 720042, 727577, 735159, 742786, 750459, 758178, 765944, 773755, 781613, 789517, 797468, 805465, 813509, 821599, 829736, 837920, 846151, 854429, 862753, 871125, 879545, 888011, 896525, 905086, 913695, 922351, 931055, 939807, 948606, 957453, 966349, 975292, 984283, 993323, 1002411, 1011547, 1020731, 1029964, 1039246, 1048576 >>

NaNs == 1073741822
Infinite == 1073741821          \* and more: too large to record, or infinite
Unspec == -1073741824           \* nothing is laid down

VARIABLES t, i, s               \* s: [h, prof, memo]
vars == <<t, i, s>>
R == Traces[t]

Init == t \in 1..Len(Traces) /\ i = 0 /\ s = [h |-> NoHdr]
Done(v, info) == PrintT(ToString(<<"VERDICT", t, v, info>>)) /\ i' = -1 /\ s' = [h |-> NoHdr] /\ UNCHANGED t

Mag(v) == IF v < 0 THEN -v ELSE v
Top(bits) == IF bits >= 31 THEN 2147483647 ELSE 2 ^ bits - 1
(* largest value of channel c, as recorded *)
FullScale(h, c) == IF R.ch[c].fl THEN 1024 ELSE Top(IF c <= NColours(h) THEN h.bits ELSE h.ec[c - NColours(h)].bits)
(* o shows v of 0..m on the scale 0..top, rounded to the nearest *)
Rescaled(o, v, m, top) ==
  IF v = NaNs THEN TRUE
  ELSE IF v <= 0 THEN o = 0
  ELSE IF v >= m THEN o = top
  ELSE IF m = top THEN o = v
  ELSE IF m <= 32767 \/ (top = 255 /\ m < 4194304)
       THEN Mag(o * m - v * top) <= (m \div 2) + (m \div 64) + 1
       ELSE LET k == m \div 32767 IN Mag(o * 32767 - (v \div k) * top) <= 4 * 32767
(* the same for v divided by the opacity a of 0..am *)
Divided(o, v, m, a, am, top) ==
  IF v = NaNs \/ a = NaNs \/ a <= 0 \/ a > am THEN TRUE
  ELSE IF v <= 0 THEN o = 0
  ELSE IF v >= m THEN o = top
  ELSE IF m > 65535 \/ am > 32767 THEN TRUE
  ELSE LET f == IF m > 16383 THEN 4 ELSE 1
           N == (v \div f) * am   D == (m \div f) * a
           k == (D \div 16384) + 1
       IN IF f = 4 /\ k < 4 THEN TRUE
          ELSE IF N >= D THEN o >= top - 8
          ELSE Mag(o * (D \div k) - (N \div k) * (top)) <= 2 * top + (D \div k) + (IF f = 4 THEN top * ((am \div k) + 1) ELSE 0)
(* linear light v shown as sRGB *)
Encoded(o, v, top) ==
  LET q == IF top = 255 THEN o ELSE o \div 257
      a == IF q = 0 THEN 0 ELSE SRGB8[q]
      z == IF q >= 254 THEN 1048576 ELSE SRGB8[q + 3]
  IN IF v = NaNs THEN TRUE ELSE IF v <= 0 THEN o = 0 ELSE IF v >= 1024 THEN o = top
     ELSE a <= v * 1024 + 600 /\ v * 1024 <= z + 600

(* encodings whose samples go to the output as they are *)
IsSRGB(h) == ~h.ce.icc /\ h.ce.tf = 13 /\ h.ce.wp = 1 /\ (h.ce.cs = 1 \/ h.ce.prim = 1)
IsPQ(h) == ~h.ce.icc /\ h.ce.tf = 16 /\ h.ce.wp = 1 /\ h.ce.cs = 0 /\ h.ce.prim = 9
Plain(h) == ~h.xyb /\ (h.ce.icc \/ IsSRGB(h) \/ IsPQ(h))

AlphaOf(h) == LET as == {k \in 1..Len(h.ec) : h.ec[k].type = 0}
              IN IF as = {} THEN 0 ELSE NColours(h) + (CHOOSE k \in as : \A l \in as : k <= l)
Premultiplied(h) == AlphaOf(h) > 0 /\ h.ec[AlphaOf(h) - NColours(h)].assoc
Source(h, n, c) == IF c = (IF n = 2 THEN 2 ELSE IF n = 4 THEN 4 ELSE 0) THEN AlphaOf(h) ELSE IF NColours(h) = 1 THEN 1 ELSE c

W == R.ch[1].w
H == R.ch[1].h
(* pixel (x, y) of output channel c *)
PixelOK(h, o, c, x, y) ==
  LET src == Source(h, o.nc, c)
      v == IF src = 0 THEN 0 ELSE R.ch[src].d[y][x]
      p == o.p[c][y][x]
      al == AlphaOf(h)
  IN IF src = 0 THEN p = o.mx
     ELSE IF src = al \/ (Plain(h) /\ ~Premultiplied(h)) THEN Rescaled(p, v, FullScale(h, src), o.mx)
     ELSE IF Plain(h) THEN Divided(p, v, FullScale(h, src), R.ch[al].d[y][x], FullScale(h, al), o.mx)
     ELSE IF h.xyb /\ IsSRGB(h) /\ ~Premultiplied(h) /\ R.ch[src].fl THEN Encoded(p, v, o.mx)
     ELSE TRUE
RawOK(h, o, c, x, y) ==         \* PFM: unclamped
  LET v == R.ch[c].d[y][x]
      m == FullScale(h, c)
      p == o.p[c][y][x]
  IN IF v < -1073741000 \/ v > 1073741000 \/ Mag(v) > 8000 * ((m \div 16384) + 1) THEN TRUE
     ELSE IF R.ch[c].fl THEN Mag(p - 64 * v) <= 1
     ELSE IF m <= 16383 THEN Mag(p * m - v * 65536) <= 2 * m + Mag(v) \div 16
     ELSE LET k == m \div 16383 IN Mag(p - (v \div k) * 4) <= 24
ChanOK(h, o, x, y) == Rescaled(o.p[1][y][x], R.ch[o.c + 1].d[y][x], FullScale(h, o.c + 1), o.mx)

Wrong(o, ok(_, _, _)) ==
  LET bad == {c \in 1..o.nc : \E y \in 1..o.h : \E x \in 1..o.w : ~ok(c, x, y)}
      c == CHOOSE c \in bad : TRUE
      y == CHOOSE y \in 1..o.h : \E x \in 1..o.w : ~ok(c, x, y)
      x == CHOOSE x \in 1..o.w : ~ok(c, x, y)
  IN IF bad = {} THEN <<>> ELSE <<"channel", c - 1, "x", x - 1, "y", y - 1, "is", o.p[c][y][x], "of", o.mx>>

Channels(h) == Len(R.ch)
(* <<>> or what is wrong with the rendering o *)
Judge(h, prof, o) ==
  LET size == IF o.w # W \/ o.h # H THEN <<"size", o.w, o.h>> ELSE <<>>
      first(a, b) == IF a # <<>> THEN a ELSE b
      wellformed == IF o.bad # "" THEN <<"ill-formed", o.bad>> ELSE size
      alpha == AlphaOf(h) > 0
      grey == NColours(h) = 1
  IN CASE o.op = "chan" ->
            IF o.c < 0 \/ o.c >= Channels(h) THEN (IF o.err THEN <<>> ELSE <<"no such channel", o.c>>)
            ELSE IF o.err THEN <<"refused", o.msg>>
            ELSE IF o.nc # 1 THEN <<"channels", o.nc>>
            ELSE first(wellformed, Wrong(o, LAMBDA c, x, y: ChanOK(h, o, x, y)))
       [] o.op = "pfm" ->
            IF o.err THEN <<"refused", o.msg>>
            ELSE IF o.nc # NColours(h) THEN <<"channels", o.nc>>
            ELSE first(wellformed, Wrong(o, LAMBDA c, x, y: RawOK(h, o, c, x, y)))
       [] o.op = "image" ->
            IF o.err THEN (IF Plain(h) THEN <<"refused", o.msg>> ELSE <<>>)
            ELSE IF o.nc = 1 /\ (~grey \/ alpha) THEN <<"channels", o.nc>>
            ELSE IF o.nc = 3 /\ alpha THEN <<"no alpha">>
            ELSE first(wellformed, Wrong(o, LAMBDA c, x, y: PixelOK(h, o, c, x, y)))
       [] o.op = "png" ->
            IF o.err THEN (IF Plain(h) THEN <<"refused", o.msg>> ELSE <<>>)
            ELSE IF o.bad # "" THEN <<"ill-formed", o.bad>>
            ELSE IF o.nc # (IF grey THEN 1 ELSE 3) + (IF alpha THEN 1 ELSE 0) THEN <<"channels", o.nc>>
            ELSE IF h.bits > 8 /\ o.mx # 65535 THEN <<"depth", o.mx>>
            ELSE IF o.hasicc # (h.ce.icc /\ ~h.xyb /\ prof # <<>>) THEN <<"profile present", o.hasicc>>
            ELSE IF o.hasicc /\ o.icc # prof THEN <<"profile", Len(o.icc), "bytes">>
            ELSE IF o.intent >= 0 /\ (IF IsSRGB(h) THEN o.intent # h.ce.ri ELSE ~h.xyb /\ ~h.ce.icc) THEN <<"intent", o.intent>>
            ELSE first(size, Wrong(o, LAMBDA c, x, y: PixelOK(h, o, c, x, y)))

Key(o) == IF o.op = "chan" THEN <<o.op, o.c>> ELSE <<o.op, 0>>
Result(o) == [o EXCEPT !.msg = ""]

Start ==
  /\ i = 0
  /\ LET A == ReadImageHeader(R.bytes, 0, 5)
         z == IF A.st = "" /\ A.h.ce.icc /\ ~A.h.xyb THEN IccDecode(A.h.icc) ELSE [st |-> "", out |-> <<>>]
         w == IF A.h.orient > 4 THEN A.h.h ELSE A.h.w
         hh == IF A.h.orient > 4 THEN A.h.w ELSE A.h.h
     IN IF R.pan THEN Done("REJECT", <<"panic", R.kind, R.msg>>)
        ELSE IF A.st # "" THEN Done("skip", A.st)
        ELSE IF z.st # "" THEN Done("skip", "profile")
        ELSE IF A.h.exp # 0 THEN Done("skip", "float samples")
        ELSE IF R.err THEN Done("REJECT", <<"refused", R.kind, R.msg>>)
        ELSE IF R.ch[1].w # w \/ R.ch[1].h # hh THEN Done("REJECT", <<"size of the image", R.kind>>)
        ELSE i' = 1 /\ UNCHANGED t /\ s' = TLCEval([h |-> A.h, prof |-> z.out, memo |-> <<>>])

Op ==
  /\ i > 0 /\ i <= Len(R.ops)
  /\ LET o == R.ops[i]
         j == Judge(s.h, s.prof, o)
         old == {k \in 1..Len(s.memo) : s.memo[k][1] = Key(o)}
     IN IF o.pan THEN Done("REJECT", <<"panic", o.op, R.kind, o.msg>>)
        ELSE IF j # <<>> THEN Done("REJECT", <<o.op, o.c, R.kind, j>>)
        ELSE IF \E k \in old : s.memo[k][2] # Result(o) THEN Done("REJECT", <<o.op, "again gives another result", R.kind>>)
        ELSE i' = i + 1 /\ UNCHANGED t /\ s' = IF old # {} THEN s ELSE [s EXCEPT !.memo = Append(@, <<Key(o), Result(o)>>)]

Finish ==
  /\ i > Len(R.ops)
  /\ IF R.after # R.ch THEN Done("REJECT", <<"rendering changed the image", R.kind>>) ELSE Done("ok", R.kind)

Next == Start \/ Op \/ Finish
Spec == Init /\ [][Next]_vars
View == <<t, i>>
Safe == i >= -1
===============================================================================
