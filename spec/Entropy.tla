------------------------------- MODULE Entropy -------------------------------
(* The entropy-coded symbol streams of JPEG XL: code descriptions (context
   clustering, hybrid-integer configurations, prefix codes, ANS histograms,
   LZ77 parameters) and the decoding of symbols.
   Status strings: "" fine, "err" the stream is malformed, "big" a value leaves
   the 32-bit range the model covers, "hole" the cluster map skips a number.   *)
EXTENDS Rd, TLC, SequencesExt

-----------------------------------------------------------------------------
(* prefix codes: a code is given by the list of its symbols of each length, in
   increasing order of symbol (canonical code).  single >= 0: one symbol of
   length zero.                                                              *)
SinglePrefix(s) == [kind |-> "p", single |-> s]

(* lens: sequence of <<symbol, length>>, increasing symbol, length > 0, complete *)
CanonPrefix(lens) ==
  LET bylen == TLCEval([l \in 1..15 |-> SelectSeq(lens, LAMBDA x: x[2] = l)])
      cnt == TLCEval([l \in 1..15 |-> Len(bylen[l])])
      \* first code value of each length
      fst == FoldLeft(LAMBDA a, l: Append(a, IF l = 1 THEN 0 ELSE 2 * (a[l - 1] + cnt[l - 1])), <<>>, Iota(15))
  IN TLCEval([kind |-> "p", single |-> -1, syms |-> [l \in 1..15 |-> [i \in 1..cnt[l] |-> bylen[l][i][1]]],
              cnt |-> cnt, first |-> fst])

RECURSIVE PrefixStep(_, _, _, _, _)
PrefixStep(b, p, D, l, code) ==
  LET c == 2 * code + GetBits(b, p, 1)
      k == c - D.first[l]
  IN IF k < D.cnt[l] THEN << D.syms[l][k + 1], p + 1 >>
     ELSE PrefixStep(b, p + 1, D, l + 1, c)

ReadPrefix(b, p, D) == IF D.single >= 0 THEN << D.single, p >> ELSE PrefixStep(b, p, D, 1, 0)

(* the fixed code of the code-length code lengths: 0:00 4:10? as in the format,
   written LSB first on four bits                                             *)
CLTab == << <<0,2>>, <<4,2>>, <<3,2>>, <<2,3>>, <<0,2>>, <<4,2>>, <<3,2>>, <<1,4>>,
            <<0,2>>, <<4,2>>, <<3,2>>, <<2,3>>, <<0,2>>, <<4,2>>, <<3,2>>, <<5,4>> >>
CLOrder == <<1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15>>

(* [st, p, D] *)
PErr(p) == [st |-> "err", p |-> p, D |-> SinglePrefix(0)]

SimplePrefix(b, p0, alpha) ==
  LET n == GetBits(b, p0, 2) + 1
      w == CeilLog2(alpha)
      s == [i \in 1..n |-> GetBits(b, p0 + 2 + (i - 1) * w, w)]
      p1 == p0 + 2 + n * w
      tree == n = 4 /\ GetBits(b, p1, 1) = 1
      p2 == IF n = 4 THEN p1 + 1 ELSE p1
      ls == CASE n = 2 -> <<1, 1>> [] n = 3 -> <<1, 2, 2>> [] n = 4 /\ ~tree -> <<2, 2, 2, 2>> [] OTHER -> <<1, 2, 3, 3>>
      lens == SortSeq(TLCEval([i \in 1..n |-> <<s[i], ls[i]>>]), LAMBDA x, y: x[1] < y[1])
  IN IF (\E i \in 1..n : s[i] >= alpha) \/ (\E i, j \in 1..n : i < j /\ s[i] = s[j]) THEN PErr(p2)
     ELSE IF n = 1 THEN [st |-> "", p |-> p2, D |-> SinglePrefix(s[1])]
     ELSE [st |-> "", p |-> p2, D |-> CanonPrefix(lens)]

RECURSIVE CodeLenLens(_, _, _, _, _)
CodeLenLens(b, p, i, space, acc) ==     \* acc: <<symbol, length>> with length > 0
  IF i > 18 \/ space <= 0 THEN [p |-> p, space |-> space, acc |-> acc]
  ELSE LET e == CLTab[GetBits(b, p, 4) + 1]
       IN CodeLenLens(b, p + e[2], i + 1, space - (IF e[1] = 0 THEN 0 ELSE 32 \div 2 ^ e[1]),
                      IF e[1] = 0 THEN acc ELSE Append(acc, <<CLOrder[i], e[1]>>))

(* symbol code lengths with the repeat codes 16 (previous length) and 17 (zero).
   Loop state: symbol number, space left, previous non-zero length, current
   repeat count and the length it repeats, <<symbol, length>> found so far.    *)
SymLens(b, p0, D, alpha) ==
  LET step(a, i) ==
        IF a.bad \/ a.sym >= alpha \/ a.space <= 0 THEN a
        ELSE LET r == ReadPrefix(b, a.p, D)
                 c == r[1]
             IN IF c < 16
                THEN [a EXCEPT !.p = r[2], !.sym = a.sym + 1, !.rep = 0,
                               !.space = IF c = 0 THEN a.space ELSE a.space - 32768 \div 2 ^ c,
                               !.prev = IF c = 0 THEN a.prev ELSE c,
                               !.acc = IF c = 0 THEN a.acc ELSE Append(a.acc, <<a.sym, c>>)]
                ELSE LET xb == c - 14
                         nl == IF c = 16 THEN a.prev ELSE 0
                         old == IF a.repLen # nl THEN 0 ELSE a.rep
                         new == (IF old > 0 THEN (old - 2) * 2 ^ xb ELSE 0) + GetBits(b, r[2], xb) + 3
                         d == new - old
                     IN IF a.sym + d > alpha THEN [a EXCEPT !.bad = TRUE, !.p = r[2] + xb]
                        ELSE [a EXCEPT !.p = r[2] + xb, !.sym = a.sym + d, !.rep = new, !.repLen = nl,
                                       !.space = IF nl = 0 THEN a.space ELSE a.space - d * (32768 \div 2 ^ nl),
                                       !.acc = IF nl = 0 THEN a.acc ELSE a.acc \o [k \in 1..d |-> <<a.sym + k - 1, nl>>]]
      z == FoldLeft(step, [p |-> p0, sym |-> 0, space |-> 32768, prev |-> 8, rep |-> 0, repLen |-> 0, acc |-> <<>>, bad |-> FALSE], Iota(alpha))
  IN [st |-> IF z.bad \/ z.space # 0 THEN "err" ELSE "", p |-> z.p, acc |-> z.acc]

PrefixCode(b, p, alpha) ==
  IF alpha = 1 THEN [st |-> "", p |-> p, D |-> SinglePrefix(0)]
  ELSE LET h == GetBits(b, p, 2)
       IN IF h = 1 THEN SimplePrefix(b, p + 2, alpha)
          ELSE LET c == CodeLenLens(b, p + 2, h + 1, 32, <<>>)
               IN IF ~(Len(c.acc) = 1 \/ c.space = 0) THEN PErr(c.p)
                  ELSE LET D1 == IF Len(c.acc) = 1 THEN SinglePrefix(c.acc[1][1])
                                 ELSE CanonPrefix(SortSeq(c.acc, LAMBDA x, y: x[1] < y[1]))
                           s == SymLens(b, c.p, D1, alpha)
                       IN IF s.st # "" THEN PErr(s.p)
                          ELSE [st |-> "", p |-> s.p, D |-> CanonPrefix(s.acc)]

-----------------------------------------------------------------------------
(* ANS histograms *)
LCTab == << <<10,3>>,<<12,7>>,<<7,3>>,<<3,4>>,<<6,3>>,<<8,3>>,<<9,3>>,<<5,4>>,<<10,3>>,<<4,4>>,<<7,3>>,<<1,4>>,<<6,3>>,<<8,3>>,<<9,3>>,<<2,4>>,
  <<10,3>>,<<0,5>>,<<7,3>>,<<3,4>>,<<6,3>>,<<8,3>>,<<9,3>>,<<5,4>>,<<10,3>>,<<4,4>>,<<7,3>>,<<1,4>>,<<6,3>>,<<8,3>>,<<9,3>>,<<2,4>>,
  <<10,3>>,<<11,6>>,<<7,3>>,<<3,4>>,<<6,3>>,<<8,3>>,<<9,3>>,<<5,4>>,<<10,3>>,<<4,4>>,<<7,3>>,<<1,4>>,<<6,3>>,<<8,3>>,<<9,3>>,<<2,4>>,
  <<10,3>>,<<0,5>>,<<7,3>>,<<3,4>>,<<6,3>>,<<8,3>>,<<9,3>>,<<5,4>>,<<10,3>>,<<4,4>>,<<7,3>>,<<1,4>>,<<6,3>>,<<8,3>>,<<9,3>>,<<2,4>> >>
LogCount(b, p) == LET i == GetBits(b, p, 6) IN
  IF i = 1 THEN (IF GetBits(b, p + 6, 1) = 0 THEN <<12, p + 7>> ELSE <<13, p + 7>>)
  ELSE << LCTab[i + 1][1], p + LCTab[i + 1][2] >>

(* list of log counts; entry i is <<logcount, same>> where same > 0 starts a run *)
LogCounts(b, p0, alpha) ==
  LET step(a, i) ==
        IF Len(a.acc) >= alpha THEN a
        ELSE LET l == LogCount(b, a.p)
             IN IF l[1] # 13 THEN [p |-> l[2], acc |-> Append(a.acc, <<l[1], 0>>)]
                ELSE LET r == Ru8(b, l[2])
                     IN [p |-> r[2], acc |-> a.acc \o << <<13, r[1] + 5>> >> \o [k \in 1..(r[1] + 3) |-> <<-1, 0>>]]
      z == FoldLeft(step, [p |-> p0, acc |-> <<>>], Iota(alpha))
  IN [p |-> z.p, acc |-> SubSeq(z.acc, 1, alpha)]

(* first position of the largest log count (runs excluded), 0-based, -1 if none *)
OmitPos(lc) ==
  FoldLeft(LAMBDA a, i: IF lc[i][1] # 13 /\ lc[i][1] > a[1] THEN <<lc[i][1], i - 1>> ELSE a, <<-1, -1>>, Iota(Len(lc)))[2]

FullHist(b, p, shift, lc, omit) ==
  LET step(a, i) ==      \* a: [p, f, run, prev]
        LET run == IF lc[i][2] > 0 THEN lc[i][2] - 1 ELSE a.run
            prev == IF lc[i][2] > 0 THEN (IF i > 1 THEN a.f[i - 1] ELSE 0) ELSE a.prev
            c == lc[i][1]
        IN IF run > 0 THEN [p |-> a.p, f |-> Append(a.f, prev), run |-> run - 1, prev |-> prev]
           ELSE IF i - 1 = omit \/ c = 0 THEN [p |-> a.p, f |-> Append(a.f, 0), run |-> 0, prev |-> prev]
           ELSE IF c = 1 THEN [p |-> a.p, f |-> Append(a.f, 1), run |-> 0, prev |-> prev]
           ELSE LET bc == Max2(0, Min2(shift - ((13 - c) \div 2), c - 1))
                IN [p |-> a.p + bc, run |-> 0, prev |-> prev,
                    f |-> Append(a.f, 2 ^ (c - 1) + GetBits(b, a.p, bc) * 2 ^ (c - 1 - bc))]
  IN FoldLeft(step, [p |-> p, f |-> <<>>, run |-> 0, prev |-> 0], Iota(Len(lc)))

SumSeq(s) == FoldLeft(LAMBDA a, x: a + x, 0, s)
ZeroSeq(n) == TLCEval([i \in 1..n |-> 0])

(* frequencies of the symbols 0.. : [st, p, f] *)
Histogram(b, p, logAlpha) ==
  LET size == 2 ^ logAlpha
      bad(q) == [st |-> "err", p |-> q, f |-> <<4096>>]
      fin(q, f) == IF Len(f) > size THEN bad(q) ELSE [st |-> "", p |-> q, f |-> f]
  IN IF GetBits(b, p, 1) = 1
     THEN IF GetBits(b, p + 1, 1) = 0
          THEN LET x == Ru8(b, p + 2) IN fin(x[2], [ZeroSeq(x[1] + 1) EXCEPT ![x[1] + 1] = 4096])
          ELSE LET x == Ru8(b, p + 2)
                   y == Ru8(b, x[2])
                   fr == GetBits(b, y[2], 12)
               IN IF x[1] = y[1] THEN bad(y[2])
                  ELSE fin(y[2] + 12, [ZeroSeq(Max2(x[1], y[1]) + 1) EXCEPT ![x[1] + 1] = fr, ![y[1] + 1] = 4096 - fr])
     ELSE IF GetBits(b, p + 1, 1) = 1
     THEN LET r == Ru8(b, p + 2)
              n == r[1] + 1
          IN fin(r[2], TLCEval([i \in 1..n |-> 4096 \div n + (IF i <= 4096 % n THEN 1 ELSE 0)]))
     ELSE LET len == IF GetBits(b, p + 2, 1) = 0 THEN 0 ELSE IF GetBits(b, p + 3, 1) = 0 THEN 1
                     ELSE IF GetBits(b, p + 4, 1) = 0 THEN 2 ELSE 3
              p1 == p + 2 + Min2(len + 1, 3)
              shift == 2 ^ len + GetBits(b, p1, len) - 1
              r == Ru8(b, p1 + len)
              alpha == r[1] + 3
          IN IF shift > 13 THEN bad(p1 + len)
             ELSE IF alpha > size THEN bad(r[2])
             ELSE LET L1 == LogCounts(b, r[2], alpha)
                      om == OmitPos(L1.acc)
                  IN IF om < 0 \/ (om + 1 < alpha /\ L1.acc[om + 2][1] = 13) THEN bad(L1.p)
                     ELSE LET h == FullHist(b, L1.p, shift, L1.acc, om)
                              rest == 4096 - SumSeq(h.f)
                          IN IF rest <= 0 THEN bad(h.p) ELSE fin(h.p, [h.f EXCEPT ![om + 1] = rest])

(* alias table: for each bucket [cut, sym, off]; a value at position pos of bucket i
   means symbol i with offset pos when pos < cut, else symbol sym with offset off + pos *)
Alias(bs, cut0, over0, under0) ==
  LET step(a, i) ==
        IF a.over = <<>> THEN a
        ELSE LET o == a.over[Len(a.over)]
                 u == a.under[Len(a.under)]
                 c2 == a.cut[o] - (bs - a.cut[u])
                 un == SubSeq(a.under, 1, Len(a.under) - 1)
                 ov == SubSeq(a.over, 1, Len(a.over) - 1)
             IN [cut |-> [a.cut EXCEPT ![o] = c2], sym |-> [a.sym EXCEPT ![u] = o - 1], off |-> [a.off EXCEPT ![u] = c2],
                 over |-> IF c2 > bs THEN Append(ov, o) ELSE ov, under |-> IF c2 < bs THEN Append(un, o) ELSE un]
      n == Len(cut0)
  IN FoldLeft(step, [cut |-> cut0, sym |-> ZeroSeq(n), off |-> ZeroSeq(n), over |-> over0, under |-> under0], Iota(n))

AnsTable(f0, logAlpha) ==
  LET size == 2 ^ logAlpha
      bs == 4096 \div size
      f == TLCEval([i \in 1..size |-> IF i <= Len(f0) THEN f0[i] ELSE 0])
      uniq == {i \in 1..size : f[i] = 4096}
  IN IF uniq # {}
     THEN LET u == CHOOSE i \in uniq : TRUE
          IN TLCEval([kind |-> "a", bs |-> bs, f |-> f, cut |-> ZeroSeq(size), sym |-> [i \in 1..size |-> u - 1], off |-> [i \in 1..size |-> (i - 1) * bs]])
     ELSE LET A == Alias(bs, f, SelectSeq(Iota(size), LAMBDA i: f[i] > bs), SelectSeq(Iota(size), LAMBDA i: f[i] < bs))
          IN TLCEval([kind |-> "a", bs |-> bs, f |-> f,
              cut |-> [i \in 1..size |-> IF A.cut[i] = bs THEN 0 ELSE A.cut[i]],
              sym |-> [i \in 1..size |-> IF A.cut[i] = bs THEN i - 1 ELSE A.sym[i]],
              off |-> [i \in 1..size |-> IF A.cut[i] = bs THEN 0 ELSE A.off[i] - A.cut[i]]])

(* ANS state: hi * 4096 + lo (32 bits); hi = -1 before the first symbol *)
AnsStep(b, d, D) ==
  LET st == IF d.hi >= 0 THEN <<d.hi, d.lo, d.p>>
            ELSE LET w0 == GetBits(b, d.p, 12)
                     w1 == GetBits(b, d.p + 12, 4) + 16 * GetBits(b, d.p + 16, 16)
                 IN <<w1, w0, d.p + 32>>
      i == st[2] \div D.bs + 1
      pos == st[2] % D.bs
      s == IF pos >= D.cut[i] THEN D.sym[i] ELSE i - 1
      o == IF pos >= D.cut[i] THEN D.off[i] + pos ELSE pos
      fr == D.f[s + 1]
      x == fr * (st[1] % 4096) + o
      hi == fr * (st[1] \div 4096) + x \div 4096
      lo == x % 4096
      w == GetBits(b, st[3], 16)
  IN IF hi < 16 THEN [s |-> s, d |-> [d EXCEPT !.hi = (hi * 4096 + lo) * 16 + w \div 4096, !.lo = w % 4096, !.p = st[3] + 16]]
     ELSE [s |-> s, d |-> [d EXCEPT !.hi = hi, !.lo = lo, !.p = st[3]]]

-----------------------------------------------------------------------------
(* hybrid integers *)
HybridConfig(b, p, logAlpha) ==          \* [st, p, c = <<split, msb, lsb>>]
  LET w0 == CeilLog2(logAlpha + 1)
      se == GetBits(b, p, w0)
  IN IF se = logAlpha THEN [st |-> "", p |-> p + w0, c |-> <<se, 0, 0>>]
     ELSE LET w1 == CeilLog2(se + 1)
              msb == GetBits(b, p + w0, w1)
          IN IF msb > se THEN [st |-> "err", p |-> p + w0 + w1, c |-> <<0, 0, 0>>]
             ELSE LET w2 == CeilLog2(se - msb + 1)
                      lsb == GetBits(b, p + w0 + w1, w2)
                  IN [st |-> IF msb + lsb > se THEN "err" ELSE "", p |-> p + w0 + w1 + w2, c |-> <<se, msb, lsb>>]

(* value of a token: <<value or -1 (too big), cursor>> *)
Hybrid(b, p, c, token) ==
  LET split == 2 ^ c[1]
  IN IF token < split THEN <<token, p>>
     ELSE LET n == c[1] - c[2] - c[3] + (token - split) \div 2 ^ (c[2] + c[3])
              low == token % 2 ^ c[3]
              top == 2 ^ c[2] + ((token \div 2 ^ c[3]) % 2 ^ c[2])
          IN IF n + c[2] + c[3] + 1 > 30 THEN <<-1, p + Min2(n, 64)>>
             ELSE << (top * 2 ^ n + GetBits30(b, p, n)) * 2 ^ c[3] + low, p + n >>

-----------------------------------------------------------------------------
(* the whole code description: [st, p, E] *)
NoE == [lz |-> FALSE]
CodeFail(st, p) == [st |-> st, p |-> p, E |-> NoE]

D0(p) == [p |-> p, hi |-> -1, lo |-> 0, st |-> "", win |-> <<>>, cn |-> 0, cp |-> 0, n |-> 0]

SpecialDist == <<
  <<0,1>>,<<1,0>>,<<1,1>>,<<-1,1>>,<<0,2>>,<<2,0>>,<<1,2>>,<<-1,2>>,<<2,1>>,<<-2,1>>,<<2,2>>,<<-2,2>>,<<0,3>>,<<3,0>>,<<1,3>>,<<-1,3>>,
  <<3,1>>,<<-3,1>>,<<2,3>>,<<-2,3>>,<<3,2>>,<<-3,2>>,<<0,4>>,<<4,0>>,<<1,4>>,<<-1,4>>,<<4,1>>,<<-4,1>>,<<3,3>>,<<-3,3>>,<<2,4>>,<<-2,4>>,
  <<4,2>>,<<-4,2>>,<<0,5>>,<<3,4>>,<<-3,4>>,<<4,3>>,<<-4,3>>,<<5,0>>,<<1,5>>,<<-1,5>>,<<5,1>>,<<-5,1>>,<<2,5>>,<<-2,5>>,<<5,2>>,<<-5,2>>,
  <<4,4>>,<<-4,4>>,<<3,5>>,<<-3,5>>,<<5,3>>,<<-5,3>>,<<0,6>>,<<6,0>>,<<1,6>>,<<-1,6>>,<<6,1>>,<<-6,1>>,<<2,6>>,<<-2,6>>,<<6,2>>,<<-6,2>>,
  <<4,5>>,<<-4,5>>,<<5,4>>,<<-5,4>>,<<3,6>>,<<-3,6>>,<<6,3>>,<<-6,3>>,<<0,7>>,<<7,0>>,<<1,7>>,<<-1,7>>,<<5,5>>,<<-5,5>>,<<7,1>>,<<-7,1>>,
  <<4,6>>,<<-4,6>>,<<6,4>>,<<-6,4>>,<<2,7>>,<<-2,7>>,<<7,2>>,<<-7,2>>,<<3,7>>,<<-3,7>>,<<7,3>>,<<-7,3>>,<<5,6>>,<<-5,6>>,<<6,5>>,<<-6,5>>,
  <<8,0>>,<<4,7>>,<<-4,7>>,<<7,4>>,<<-7,4>>,<<8,1>>,<<8,2>>,<<6,6>>,<<-6,6>>,<<8,3>>,<<5,7>>,<<-5,7>>,<<7,5>>,<<-7,5>>,<<8,4>>,<<6,7>>,
  <<-6,7>>,<<7,6>>,<<-7,6>>,<<8,5>>,<<7,7>>,<<-7,7>>,<<8,6>>,<<8,7>> >>

ReadToken(b, d, D) ==
  IF D.kind = "p" THEN LET r == ReadPrefix(b, d.p, D) IN [s |-> r[1], d |-> [d EXCEPT !.p = r[2]]]
  ELSE AnsStep(b, d, D)

(* copies are resolved against the whole window; win is kept only with LZ77 *)
CopyOne(d) ==
  LET v == IF d.cp < 1 THEN 0 ELSE d.win[d.cp]
  IN [v |-> v, d |-> [d EXCEPT !.win = Append(d.win, v), !.cn = d.cn - 1, !.cp = IF d.cp < 1 THEN 0 ELSE d.cp + 1, !.n = d.n + 1]]

(* read one symbol in context ctx (0-based); mult: distance multiplier, 0 for none.
   d.st accumulates trouble.                                                  *)
ReadSym(b, E, d, ctx, mult) ==
  IF d.cn > 0 THEN CopyOne(d)
  ELSE LET D == E.dist[E.map[ctx + 1] + 1]
           t == ReadToken(b, d, D)
       IN IF E.lz /\ t.s >= E.minsym
          THEN LET h == Hybrid(b, t.d.p, E.lzc, t.s - E.minsym)
                   Dd == E.dist[E.map[Len(E.map)] + 1]
                   t2 == ReadToken(b, [t.d EXCEPT !.p = h[2]], Dd)
                   g == Hybrid(b, t2.d.p, E.cfg[E.map[Len(E.map)] + 1], t2.s)
                   sp == SpecialDist[g[1] + 1]
                   dist == IF mult = 0 THEN g[1] + 1
                           ELSE IF g[1] < 120 THEN Max2(1, sp[1] + mult * sp[2])
                           ELSE g[1] - 119
                   dd == Min2(dist, Len(t2.d.win))
                   big == h[1] < 0 \/ g[1] < 0 \/ h[1] > 200000
               IN IF mult < 0 /\ g[1] < 120   \* the multiplier is not settled here
                  THEN [v |-> 0, d |-> [t2.d EXCEPT !.p = g[2], !.st = "distance multiplier"]]
                  ELSE IF big THEN [v |-> 0, d |-> [t2.d EXCEPT !.p = g[2], !.st = "big"]]
                  ELSE CopyOne([t2.d EXCEPT !.p = g[2], !.cn = E.minlen + h[1],
                                !.cp = IF dd = 0 THEN 0 ELSE Len(t2.d.win) - dd + 1])
          ELSE LET h == Hybrid(b, t.d.p, E.cfg[E.map[ctx + 1] + 1], t.s)
               IN IF h[1] < 0 THEN [v |-> 0, d |-> [t.d EXCEPT !.p = h[2], !.st = "big"]]
                  ELSE [v |-> h[1], d |-> IF E.lz THEN [t.d EXCEPT !.p = h[2], !.win = Append(t.d.win, h[1]), !.n = t.d.n + 1]
                                          ELSE [t.d EXCEPT !.p = h[2], !.n = t.d.n + 1]]

(* did the stream end in the state the format requires? *)
FinalOK(d) == d.hi = -1 \/ (d.hi = 304 /\ d.lo = 0)     \* 0x130000

ReadSyms(b, E, d0, ctxs) ==        \* a list of contexts, no multiplier
  LET step(a, c) == LET r == ReadSym(b, E, a.d, c, 0) IN [d |-> r.d, v |-> Append(a.v, r.v)]
  IN FoldLeft(step, [d |-> d0, v |-> <<>>], ctxs)

MoveToFront(idx) ==
  LET step(a, x) == LET v == a.m[x + 1]
                    IN [m |-> <<v>> \o SubSeq(a.m, 1, x) \o SubSeq(a.m, x + 2, 256), o |-> Append(a.o, v)]
  IN FoldLeft(step, [m |-> TLCEval([i \in 1..256 |-> i - 1]), o |-> <<>>], idx).o

MaxSeq(s) == FoldLeft(LAMBDA a, x: Max2(a, x), 0, s)

RECURSIVE ReadCode(_, _, _, _), ClusterMap(_, _, _)

ClusterMap(b, p, n) ==                  \* [st, p, m]
  LET fin(q, m) ==
        LET k == MaxSeq(m)
        IN IF k >= n THEN [st |-> "err", p |-> q, m |-> m]
           ELSE IF \E c \in 0..k : \A i \in 1..n : m[i] # c THEN [st |-> "hole", p |-> q, m |-> m]
           ELSE [st |-> "", p |-> q, m |-> m]
  IN IF n = 1 THEN [st |-> "", p |-> p, m |-> <<0>>]
     ELSE IF GetBits(b, p, 1) = 1
     THEN LET w == GetBits(b, p + 1, 2)
          IN fin(p + 3 + n * w, TLCEval([i \in 1..n |-> GetBits(b, p + 3 + (i - 1) * w, w)]))
     ELSE LET mtf == GetBits(b, p + 1, 1) = 1
              c == ReadCode(b, p + 2, 1, n <= 2)
          IN IF c.st # "" THEN [st |-> c.st, p |-> c.p, m |-> <<>>]
             ELSE LET r == ReadSyms(b, c.E, D0(c.p), ZeroSeq(n))
                  IN IF r.d.st # "" THEN [st |-> r.d.st, p |-> r.d.p, m |-> <<>>]
                     ELSE IF MaxSeq(r.v) > 255 \/ ~FinalOK(r.d) THEN [st |-> "err", p |-> r.d.p, m |-> <<>>]
                     ELSE fin(r.d.p, IF mtf THEN MoveToFront(r.v) ELSE r.v)

RECURSIVE Configs(_, _, _, _, _)
Configs(b, p, k, logAlpha, acc) ==
  IF Len(acc) = k THEN [st |-> "", p |-> p, c |-> acc]
  ELSE LET h == HybridConfig(b, p, logAlpha)
       IN IF h.st # "" THEN [st |-> h.st, p |-> h.p, c |-> acc] ELSE Configs(b, h.p, k, logAlpha, Append(acc, h.c))

RECURSIVE AlphaSizes(_, _, _, _)
AlphaSizes(b, p, k, acc) ==
  IF Len(acc) = k THEN [p |-> p, a |-> acc]
  ELSE IF GetBits(b, p, 1) = 0 THEN AlphaSizes(b, p + 1, k, Append(acc, 1))
  ELSE LET n == GetBits(b, p + 1, 4) IN AlphaSizes(b, p + 5 + n, k, Append(acc, 1 + 2 ^ n + GetBits(b, p + 5, n)))

RECURSIVE PrefixCodes(_, _, _, _)
PrefixCodes(b, p, a, acc) ==
  IF Len(acc) = Len(a) THEN [st |-> "", p |-> p, d |-> acc]
  ELSE IF a[Len(acc) + 1] > 32768 THEN [st |-> "err", p |-> p, d |-> acc]
  ELSE LET r == PrefixCode(b, p, a[Len(acc) + 1])
       IN IF r.st # "" THEN [st |-> r.st, p |-> r.p, d |-> acc] ELSE PrefixCodes(b, r.p, a, Append(acc, r.D))

RECURSIVE AnsCodes(_, _, _, _, _)
AnsCodes(b, p, k, logAlpha, acc) ==
  IF Len(acc) = k THEN [st |-> "", p |-> p, d |-> acc]
  ELSE LET r == Histogram(b, p, logAlpha)
       IN IF r.st # "" THEN [st |-> r.st, p |-> r.p, d |-> acc]
          ELSE AnsCodes(b, r.p, k, logAlpha, Append(acc, AnsTable(r.f, logAlpha)))

ReadCode(b, p, n0, noLZ) ==
  LET lz == GetBits(b, p, 1) = 1
  IN IF lz /\ noLZ THEN CodeFail("err", p + 1)
     ELSE LET ms == Ru32(b, p + 1, <<224, 0, 512, 0, 4096, 0, 8, 15>>)
              ml == Ru32(b, ms[2], <<3, 0, 4, 0, 5, 2, 9, 8>>)
              lc == HybridConfig(b, ml[2], 8)
              n == IF lz THEN n0 + 1 ELSE n0
              m == ClusterMap(b, IF lz THEN lc.p ELSE p + 1, n)
          IN IF lz /\ lc.st # "" THEN CodeFail(lc.st, lc.p)
             ELSE IF m.st # "" THEN CodeFail(m.st, m.p)
             ELSE LET k == MaxSeq(m.m) + 1
                      pre == GetBits(b, m.p, 1) = 1
                      la == IF pre THEN 15 ELSE 5 + GetBits(b, m.p + 1, 2)
                      cf == Configs(b, IF pre THEN m.p + 1 ELSE m.p + 3, k, la, <<>>)
                  IN IF cf.st # "" THEN CodeFail(cf.st, cf.p)
                     ELSE LET as == AlphaSizes(b, cf.p, k, <<>>)
                              ds == IF pre THEN PrefixCodes(b, as.p, as.a, <<>>) ELSE AnsCodes(b, cf.p, k, la, <<>>)
                          IN IF ds.st # "" THEN CodeFail(ds.st, ds.p)
                             ELSE [st |-> "", p |-> ds.p,
                                   E |-> [lz |-> lz, minsym |-> IF lz THEN ms[1] ELSE 0, minlen |-> IF lz THEN ml[1] ELSE 0,
                                          lzc |-> IF lz THEN lc.c ELSE <<0, 0, 0>>, map |-> m.m, cfg |-> cf.c, dist |-> ds.d, prefix |-> pre]]
=============================================================================
