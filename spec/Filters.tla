-------------------------------- MODULE Filters --------------------------------
(* From the samples of a frame to the samples it contributes to the image: frames and
   extra channels of a reduced resolution are enlarged.                        *)
EXTENDS Frame, Fix

HalfE(h) == (h \div 1024) % 32
(* half float given as the bits of the equal single float, 16 bits after the point *)
SingleFix(q) == LET e == (q[2] \div 128) % 256
                    m == 1024 + (q[2] % 128) * 8 + q[1] \div 8192
                IN IF q[2] % 32768 = 0 THEN 0 ELSE IF e >= 121 THEN m * 2 ^ Min2(10, e - 121) ELSE IF e < 100 THEN 0 ELSE (m + 2 ^ (120 - e)) \div 2 ^ (121 - e)
SingleSigned(q) == IF q[2] >= 32768 THEN -SingleFix(q) ELSE SingleFix(q)

-----------------------------------------------------------------------------
(* enlarging by k = 2, 4, 8: each sample becomes k x k samples, each the sum of the
   5 x 5 samples around, weighted, within the bounds of these.  The weights, 16 bits
   after the point, are symmetric: those of the upper left quarter, seen as a matrix
   of 5k/2 rows and columns, its upper triangle row by row. *)
DefaultUp2 == <<-1125, -2263, -2636, -1914, -409, 9248, 18938, 183, -1055, 37134, 2476, -1302, -2061, -777, -140>>
DefaultUp4 == <<-1585, -2289, -2420, -2028, -347, -1090, -2331, -2549, -2305, -648, 15501, 21884, -704, -861, -2331, 8551, 26282, 2589, -1362, 30746,
  -137, -973, -2664, 12414, 36884, 4374, -1531, -2328, -495, -1486, -1549, 207, -2228, -891, -60, -220, -762, -1055, -638, -126,
  -718, -2096, -2920, -1835, -423, 4188, 15050, 414, -1243, 44261, 5560, -1661, -1445, -1093, -252>>
DefaultUp8 == <<-1919, -2429, -2480, -2179, -293, -1651, -2459, -2557, -2401, -424, -1354, -2516, -2623, -2556, -591, -1066, -2591, -2652, -2608, -802,
  19592, 23434, -1604, -709, -2828, 15665, 26948, -376, -950, -2783, 11513, 29636, 1499, -1269, -2348, 7584, 31075, 4119, -1760, 27997,
  -1474, -757, -2990, 18802, 32174, -5, -1013, -2990, 13919, 35377, 2208, -1357, -2534, 9325, 37089, 5272, -1893, -2412, -355, -1914,
  -1828, -1388, -2584, -508, -1595, -2093, -1331, -2650, -704, -1265, -2373, -1294, -2569, -954, -30, -236, -669, -807, -419, -47,
  -183, -627, -844, -479, -71, -138, -584, -864, -533, -101, -1395, -2735, -3166, -2158, -344, -1127, -2656, -3307, -2364, -484,
  -879, -2599, -3376, -2500, -659, 12431, 21669, -852, -900, -2633, 8997, 23857, 674, -1201, -2205, 5724, 25031, 2843, -1655, 36968,
  300, -1080, -3203, 16112, 40649, 2828, -1451, -2725, 10903, 42616, 6306, -2033, -2676, -593, -1829, -1388, 523, -2619, -815, -1463,
  -1931, 650, -2359, -1104, -73, -269, -850, -1130, -670, -108, -205, -798, -1156, -738, -152, -901, -2489, -3370, -2043, -381,
  -697, -2365, -3455, -2212, -521, 6310, 17780, -232, -1136, -2067, 3727, 18678, 1462, -1556, 44705, 3289, -1521, -2873, 12098, 46870,
  7082, -2139, -2384, -914, -1646, -1133, 3544, -1879, -1241, -158, -293, -1072, -1558, -998, -218, -537, -1943, -2949, -1799, -401,
  1787, 12745, 105, -1463, 49141, 7506, -2194, -1052, -1357, -300>>

Weights(ih, k) ==
  LET own == IF k = 2 THEN ih.up2 ELSE IF k = 4 THEN ih.up4 ELSE ih.up8
      def == IF k = 2 THEN DefaultUp2 ELSE IF k = 4 THEN DefaultUp4 ELSE DefaultUp8
  IN IF own = <<>> THEN def ELSE TLCEval([i \in 1..Len(own) |-> SingleSigned(own[i])])
(* the 25 weights for the sample at (ky, kx) of the k x k *)
Kernel(ws, k, ky, kx) ==
  LET at(iy, ix) ==
        LET j == IF ky < k \div 2 THEN iy + 5 * ky ELSE (4 - iy) + 5 * (k - 1 - ky)
            i == IF kx < k \div 2 THEN ix + 5 * kx ELSE (4 - ix) + 5 * (k - 1 - kx)
            y == Min2(i, j)
            x == Max2(i, j)
        IN ws[(((5 * k) \div 2) * y + x + 1) - ((y * (y - 1)) \div 2 + y)]
  IN TLCEval([n \in 1..25 |-> at((n - 1) \div 5, (n - 1) % 5)])
Kernels(ws, k) == TLCEval([n \in 1..(k * k) |-> Kernel(ws, k, (n - 1) \div k, (n - 1) % k)])
(* the largest sum of the weights' sizes *)
Gain(ks) == FoldLeft(LAMBDA a, z: Max2(a, FoldLeft(LAMBDA u, q: u + Abs(q), 0, z)), 0, ks)
Reflect(i, n) == LET m == (i - 1) % (2 * n) IN IF m < n THEN m + 1 ELSE 2 * n - m

(* rows d (h x w), enlarged k times and cut to H x W; sum(win, ws): the weighted sum, unit: of a sample in it *)
Enlarge(d, h, w, k, ks, H, W, unit, sum(_, _)) ==
  LET win(y, x) == TLCEval([n \in 1..25 |-> d[Reflect((y + ((n - 1) \div 5)) - 2, h)][Reflect((x + ((n - 1) % 5)) - 2, w)]])
      wins == TLCEval([y \in 1..CeilDiv(H, k) |-> TLCEval([x \in 1..CeilDiv(W, k) |->
                LET z == win(y, x) IN [z |-> z, lo |-> unit * FoldLeft(LAMBDA a, q: Min2(a, q), z[1], z), hi |-> unit * FoldLeft(LAMBDA a, q: Max2(a, q), z[1], z)]])])
      at(y, x) == LET z == wins[(y - 1) \div k + 1][(x - 1) \div k + 1]
                  IN Max2(z.lo, Min2(z.hi, sum(z.z, ks[((y - 1) % k) * k + ((x - 1) % k) + 1])))
  IN TLCEval([y \in 1..H |-> TLCEval([x \in 1..W |-> at(y, x)])])

(* a channel of integers, to 64ths: [ok, ch] *)
EnlargeInt(ih, ch, k, H, W) ==
  LET ks == Kernels(Weights(ih, k), k)
      top == FoldLeft(LAMBDA a, r: FoldLeft(LAMBDA u, q: Max2(u, Abs(q)), a, r), 0, ch.d)
      gain == Gain(ks) \div 65536 + 1
      dot(z, ws) == FoldLeft(LAMBDA a, n: a + z[n] * ws[n], 0, Iota(25))
      wide == TLCEval(Enlarge(ch.d, ch.h, ch.w, k, ks, H, W, 65536, dot))
  IN IF k = 1 THEN [ok |-> TRUE, ch |-> ch]
     ELSE IF top > 8191 \/ gain * top > 30000 \/ \E z \in 1..Len(ks) : \E n \in 1..25 : Abs(ks[z][n]) > 131072 THEN [ok |-> FALSE, ch |-> ch]
     ELSE [ok |-> TRUE, ch |-> [w |-> W, h |-> H, s |-> 64, e |-> top \div 80 + 2,
                                d |-> TLCEval([y \in 1..H |-> TLCEval([x \in 1..W |-> (wide[y][x] + 512) \div 1024])])]]

(* channels l, enlarged by the factors ks: [st, chs] *)
EnlargeAll(ih, f, l, ks) ==
  LET z == TLCEval([i \in 1..Len(l) |-> EnlargeInt(ih, l[i], ks[i], f.h, f.w)])
  IN [st |-> IF \E i \in 1..Len(l) : ~z[i].ok THEN "large samples enlarged" ELSE "", chs |-> [i \in 1..Len(l) |-> z[i].ch]]

-----------------------------------------------------------------------------
(* planes of real numbers, 17 bits after the point *)
(* 3x3 smoothing of a plane; w1, w2: weights of the neighbours beside and across, 16 bits *)
Gaborish(pl, h, w, w1, w2) ==
  LET D == 65536 + 4 * (w1 + w2)
      at(y, x) == pl[Max2(1, Min2(h, y))][Max2(1, Min2(w, x))]
      out(y, x) == LET S == at(y, x) + MulC(at(y, x - 1) + at(y, x + 1) + at(y - 1, x) + at(y + 1, x), w1)
                            + MulC(at(y - 1, x - 1) + at(y - 1, x + 1) + at(y + 1, x - 1) + at(y + 1, x + 1), w2)
                   IN ((S * 512) \div D) * 128 + (((S * 512) % D) * 128) \div D
  IN TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> out(y, x)])])
Mul14(a, c) == ((a \div 128) * c + ((a % 128) * c) \div 128) \div 128

-----------------------------------------------------------------------------
(* XYB: what the mixed cubes mean in the colours the file names.  p, w: primaries, white point;
   m: from the default mix, 14 bits after the point; c: from the colours of sRGB, 16 bits *)
SpaceTab == <<
  [p |-> 1, w |-> 1, m |-> << << 180741, -161660, -2697 >>, << -53316, 72397, -2697 >>, << -59947, 44449, 31882 >> >>,
   c |-> << << 65536, 0, 0 >>, << 0, 65536, 0 >>, << 0, 0, 65536 >> >>],
  [p |-> 1, w |-> 10, m |-> << << 154434, -135604, -2446 >>, << -54857, 73918, -2677 >>, << -60721, 44890, 32215 >> >>,
   c |-> << << 58184, 6877, 476 >>, << -430, 65929, 38 >>, << -199, -433, 66168 >> >>],
  [p |-> 1, w |-> 11, m |-> << << 201664, -182658, -2621 >>, << -52419, 71373, -2570 >>, << -60735, 44596, 32523 >> >>,
   c |-> << << 71398, -6006, 144 >>, << 258, 65036, 242 >>, << -186, -1028, 66750 >> >>],
  [p |-> 9, w |-> 1, m |-> << << 93242, -75659, -1199 >>, << -37216, 55905, -2305 >>, << -55419, 43531, 28272 >> >>,
   c |-> << << 41117, 21580, 2839 >>, << 4529, 60263, 744 >>, << 1074, 5767, 58695 >> >>],
  [p |-> 9, w |-> 10, m |-> << << 87785, -70122, -1279 >>, << -36870, 55538, -2284 >>, << -55555, 43645, 28294 >> >>,
   c |-> << << 39584, 23265, 2687 >>, << 4627, 60127, 782 >>, << 1037, 5764, 58735 >> >>],
  [p |-> 9, w |-> 11, m |-> << << 97802, -80203, -1215 >>, << -37467, 56095, -2244 >>, << -55487, 43646, 28225 >> >>,
   c |-> << << 42393, 20335, 2808 >>, << 4462, 60214, 859 >>, << 1052, 5879, 58604 >> >>],
  [p |-> 11, w |-> 1, m |-> << << 139183, -120102, -2697 >>, << -45544, 64625, -2697 >>, << -55357, 42952, 28788 >> >>,
   c |-> << << 53900, 11636, 1 >>, << 2176, 63360, -1 >>, << 1119, 4744, 59673 >> >>],
  [p |-> 11, w |-> 10, m |-> << << 124040, -105177, -2479 >>, << -46105, 65156, -2668 >>, << -55452, 43012, 28824 >> >>,
   c |-> << << 49671, 15452, 413 >>, << 2021, 63460, 56 >>, << 1094, 4701, 59740 >> >>],
  [p |-> 11, w |-> 11, m |-> << << 149960, -130966, -2610 >>, << -45253, 64208, -2571 >>, << -55440, 42978, 28846 >> >>,
   c |-> << << 56922, 8450, 165 >>, << 2264, 63033, 239 >>, << 1099, 4655, 59782 >> >>] >>
(* chromaticities, in millionths, that are those of a named space *)
NamedPrims == << [n |-> 1, xy |-> << <<639999, 330010>>, <<300004, 600003>>, <<150002, 59997>> >>],
                 [n |-> 9, xy |-> << <<708000, 292000>>, <<170000, 797000>>, <<131000, 46000>> >>],
                 [n |-> 11, xy |-> << <<680000, 320000>>, <<265000, 690000>>, <<150000, 60000>> >>] >>
NamedWhites == << [n |-> 1, xy |-> <<312700, 329000>>], [n |-> 10, xy |-> <<333333, 333333>>], [n |-> 11, xy |-> <<314000, 351000>>] >>
Named(list, n, xy) == IF n # 2 THEN n ELSE LET z == SelectSeq(list, LAMBDA q: q.xy = xy) IN IF z = <<>> THEN 0 ELSE z[1].n
(* the logarithm and the cube root, 17 bits after the point, of a half float q given as a single *)
SingleLog(q) == Log(1024 + (q[2] % 128) * 8 + q[1] \div 8192) + (((q[2] \div 128) % 256) - 137) * 65536
SingleRoot(q) == IF q[2] % 32768 = 0 THEN 0 ELSE IF q[2] >= 32768 THEN -Exp(SingleLog(q) \div 3) ELSE Exp(SingleLog(q) \div 3)
DefaultSpace == [st |-> "", m |-> SpaceTab[1].m, b |-> << -497, -497, -497 >>, cb |-> << -20441, -20441, -20441 >>, loose |-> 0]
(* [st, m: 14 bits after the point, b: what is added to the cubes, cb: their roots, 17 bits; loose: how much m may be off] *)
Space(ih) ==
  LET ce == ih.ce
      p == Named(NamedPrims, ce.prim, ce.pxy)
      w == Named(NamedWhites, ce.wp, ce.wxy)
      row == SelectSeq(SpaceTab, LAMBDA z: z.p = p /\ z.w = w)
      own == ih.opsin # <<>>
      Q(i) == ih.opsin[i]
      huge == own /\ \/ \E i \in 1..9 : (Q(i)[2] \div 128) % 256 > 130
                     \/ \E i \in 10..12 : (Q(i)[2] \div 128) % 256 > 125
      M == [i \in 1..3 |-> [j \in 1..3 |-> (SingleSigned(Q(3 * i + j - 3)) + 2) \div 4]]
      conv == [i \in 1..3 |-> [j \in 1..3 |-> MulC(M[1][j], row[1].c[i][1]) + MulC(M[2][j], row[1].c[i][2]) + MulC(M[3][j], row[1].c[i][3])]]
      m == IF own THEN conv ELSE row[1].m
      \* 255 over the intensity the largest sample stands for
      q == ih.tm.target
      e == (q[2] \div 128) % 256
      d == 1024 + (q[2] % 128) * 8 + q[1] \div 8192
      dim(a) == LET z == 255 * a IN IF e <= 137 THEN (z \div d) * 2 ^ (137 - e) + ((z % d) * 2 ^ (137 - e)) \div d ELSE (z \div d) \div 2 ^ (e - 137)
      top == FoldLeft(LAMBDA a, i: Max2(a, FoldLeft(LAMBDA b, j: Max2(b, Abs(M[i][j]) \div 16384), 0, Iota(3))), 0, Iota(3))
  IN IF ce.icc \/ ce.cs > 1 \/ row = <<>> THEN [DefaultSpace EXCEPT !.st = "other XYB spaces"]
     ELSE IF huge \/ e < 133 THEN [DefaultSpace EXCEPT !.st = "extreme XYB spaces"]
     ELSE TLCEval([st |-> "", m |-> TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> dim(m[i][j])])]),
                   b |-> IF own THEN << 2 * SingleSigned(Q(10)), 2 * SingleSigned(Q(11)), 2 * SingleSigned(Q(12)) >> ELSE DefaultSpace.b,
                   cb |-> IF own THEN << SingleRoot(Q(10)), SingleRoot(Q(11)), SingleRoot(Q(12)) >> ELSE DefaultSpace.cb,
                   loose |-> (IF own THEN top + 2 ELSE 0) + (IF ih.tm = DefaultTM THEN 0 ELSE 2)])
(* what coefficients of VarDCT stand for: logarithms of the values of 1; others are q - n / (d q) *)
QuantOf(ih) ==
  LET Q(i) == ih.opsin[i]
      n == SingleSigned(Q(16))
  IN IF ih.opsin = <<>> THEN [ok |-> TRUE, one |-> << -5314, -6867, -4843 >>, n |-> 145, d |-> 1000]
     ELSE IF \/ \E i \in 13..15 : Q(i)[2] % 32768 = 0 \/ Q(i)[2] >= 32768 \/ (Q(i)[2] \div 128) % 256 > 127
             \/ (Q(16)[2] \div 128) % 256 > 127 \/ n % 64 # 0 THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, one |-> << SingleLog(Q(13)), SingleLog(Q(14)), SingleLog(Q(15)) >>, n |-> n \div 64, d |-> 1024]
-----------------------------------------------------------------------------

Open == 2000000000

PlaneTop(P) == FoldLeft(LAMBDA a, p: FoldLeft(LAMBDA b, r: FoldLeft(LAMBDA u, q: Max2(u, Abs(q)), b, r), a, p), 0, P)

-----------------------------------------------------------------------------
(* the edge-preserving filter: each sample becomes the average of itself and its
   neighbours, weighted by how alike the surroundings are.  A real number as <<m, e>>:
   m * 2^-e with m of 15 bits.                                                  *)
Norm(z, e) == LET k == 14 - FloorLog2(z) IN IF k >= 0 THEN << z * 2 ^ k, e + k >> ELSE << z \div 2 ^ (-k), e + k >>
TimesN(a, b) == Norm(a[1] * b[1], a[2] + b[2])
(* how steep the weights fall: 1.65 * 4 * (1 - sqrt(1/2)), times 0.9 in the first pass and 6.5 in the last; two thirds on the rim of a cell *)
EpfStep == << << 28505, 14 >>, << 31672, 14 >>, << 25733, 11 >> >>
EpfRim == << 21845, 15 >>
EpfCopy == << >>
(* the steepness of a cell: n: scale times multiplier, sharp: its sharpness; <<-1>>: too close to the limit *)
EpfSlope(n, sharp) ==
  IF sharp = 0 \/ n > 200000 THEN EpfCopy
  ELSE LET d == n * 105 - 1507328 * sharp
       IN IF Abs(d) <= 23 * sharp THEN << -1 >>
          ELSE IF d > 0 THEN EpfCopy
          ELSE LET z == n * 15583 IN IF z < 1048576 * 16 THEN Norm((z * 64) \div sharp, 32) ELSE Norm(z \div sharp, 26)
(* difference d (twice, 17 bits) at steepness c: what the weight, 16 bits, falls short of 1 by *)
EpfShort(d, c) ==
  LET e == c[2]
  IN IF e < 25 /\ d >= 2 ^ (4 + e) THEN 65540
     ELSE IF e < 13 THEN (d * c[1]) \div 2 ^ (e + 2)
     ELSE ((d \div 32768) * c[1] + ((d % 32768) * c[1]) \div 32768) \div 2 ^ Min2(30, e - 13)

EpfNear == << <<-1, 0>>, <<0, -1>>, <<0, 1>>, <<1, 0>> >>
EpfWide == EpfNear \o << <<-2, 0>>, <<2, 0>>, <<0, -2>>, <<0, 2>>, <<-1, -1>>, <<-1, 1>>, <<1, -1>>, <<1, 1>> >>

(* one pass (0, 1, 2) over the planes z.P, h x w, known up to z.e of each sample; cell(y, x): the
   steepness of the cell (0-based): [P, e] *)
EpfPass(z, h, w, pass, cell(_, _)) ==
  LET P == z.P
      wide(p) == TLCEval([y \in 1..(h + 6) |-> TLCEval([x \in 1..(w + 6) |-> p[Reflect(y - 3, h)][Reflect(x - 3, w)]])])
      X == << wide(P[1]), wide(P[2]), wide(P[3]) >>
      Xe == wide(z.e)
      dirs == IF pass = 0 THEN EpfWide ELSE EpfNear
      N == Len(dirs)
      each(q(_, _, _, _)) == TLCEval([k \in 1..N |-> LET dy == dirs[k][1] dx == dirs[k][2] IN TLCEval([y \in 1..(h + 2) |-> TLCEval([x \in 1..(w + 2) |->
             q(y + 2, x + 2, y + 2 + dy, x + 2 + dx)])])])
      D == each(LAMBDA y, x, v, u: 80 * Abs(X[1][y][x] - X[1][v][u]) + 10 * Abs(X[2][y][x] - X[2][v][u]) + 7 * Abs(X[3][y][x] - X[3][v][u]))
      De == each(LAMBDA y, x, v, u: 97 * (Xe[y][x] + Xe[v][u]))
      sum5(d, k, y, x) == IF pass = 2 THEN d[k][y + 1][x + 1]
                          ELSE d[k][y + 1][x + 1] + d[k][y][x + 1] + d[k][y + 2][x + 1] + d[k][y + 1][x] + d[k][y + 1][x + 2]
      slopes == TLCEval([y \in 1..CeilDiv(h, 8) |-> TLCEval([x \in 1..CeilDiv(w, 8) |->
                  LET c == cell(y - 1, x - 1) a == TimesN(c, EpfStep[pass + 1]) IN IF c = EpfCopy THEN <<>> ELSE << a, TimesN(a, EpfRim) >>])])
      rim(q) == (q - 1) % 8 \in {0, 7}
      at(y, x) ==
        LET sl == slopes[(y - 1) \div 8 + 1][(x - 1) \div 8 + 1]
            v == << P[1][y][x], P[2][y][x], P[3][y][x] >>
        IN IF sl = <<>> THEN << v[1], v[2], v[3], z.e[y][x] >>
           ELSE LET c0 == sl[IF rim(y) \/ rim(x) THEN 2 ELSE 1]
                    T == TLCEval([k \in 1..N |-> EpfShort(sum5(D, k, y, x), c0)])
                    W == TLCEval([k \in 1..N |-> Max2(0, 65536 - T[k])])
                    \* how far a weight may be off
                    dW == TLCEval([k \in 1..N |->
                            LET d == sum5(D, k, y, x) r == sum5(De, k, y, x) lo == Max2(0, d - r)
                            IN IF T[k] >= 65536 /\ EpfShort(lo - lo \div 2048, c0) >= 65540 THEN 0
                               ELSE Min2(65536, EpfShort(r, c0) + T[k] \div 4096 + 2)])
                    sum == FoldLeft(LAMBDA a, k: a + W[k], 65536, Iota(N))
                    low == Max2(65536, FoldLeft(LAMBDA a, k: a - dW[k], sum, Iota(N)))
                    over(S, d) == ((S * 64) \div d) * 1024 + (((S * 64) % d) * 1024) \div d
                    near(c, k) == X[c][y + 3 + dirs[k][1]][x + 3 + dirs[k][2]]
                    mean(c) == v[c] + over(FoldLeft(LAMBDA a, k: IF W[k] = 0 THEN a ELSE a + MulC(near(c, k) - v[c], W[k]), 0, Iota(N)), sum)
                    M == TLCEval([c \in 1..3 |-> mean(c)])
                    off(c) == over(FoldLeft(LAMBDA a, k: IF dW[k] = 0 THEN a ELSE a + MulC(Abs(near(c, k) - M[c]), dW[k]), 0, Iota(N)), low)
                    \* of the samples that count at all
                    e0 == FoldLeft(LAMBDA a, k: IF W[k] = 0 /\ dW[k] = 0 THEN a ELSE Max2(a, Xe[y + 3 + dirs[k][1]][x + 3 + dirs[k][2]]), z.e[y][x], Iota(N))
                IN << M[1], M[2], M[3], Min2(1000000, e0 + Max2(off(1), Max2(off(2), off(3))) + N + 2) >>
      Q == TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> TLCEval(at(y, x))])])
      plane(c) == TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> Q[y][x][c]])])
  IN [P |-> << plane(1), plane(2), plane(3) >>, e |-> plane(4)]

(* all passes: n of them; [ok, P, e] *)
Epf(P, e, h, w, n, cell(_, _)) ==
  LET small(z) == PlaneTop(z.P) < 524288
      pass(z, k) == IF small(z) THEN EpfPass(z, h, w, k, cell) ELSE z
      z0 == [P |-> P, e |-> TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> e])])]
      z1 == TLCEval(IF n = 3 THEN pass(z0, 0) ELSE z0)
      z2 == TLCEval(IF n >= 1 THEN pass(z1, 1) ELSE z1)
      z3 == TLCEval(IF n >= 2 THEN pass(z2, 2) ELSE z2)
  IN [ok |-> n = 0 \/ small(z3), P |-> z3.P, e |-> z3.e]

-----------------------------------------------------------------------------
(* the colour channels a frame contributes, from its planes P as coded (X, Y, B or Cb, Y, Cr
   or R, G, B), off by at most E0; pad: sizes are rounded up to multiples of pad[1] (rows) and pad[2]
   (columns), pad[3] and pad[4] of the last known samples depend on what is beyond the size;
   cell(y, x): how steep the edge-preserving filter is there: [st, chs]  *)
FromPlanes(ih, f, P0, E0, pad, cell(_, _)) ==
  LET h0 == CodedH(f)
      w0 == CodedW(f)
      h == f.h
      w == f.w
      k == f.ups
      w1(c) == IF f.rf.gw = <<>> THEN 7548 ELSE SingleSigned(f.rf.gw[2 * c - 1])
      w2(c) == IF f.rf.gw = <<>> THEN 4014 ELSE SingleSigned(f.rf.gw[2 * c])
      wok == ~f.rf.gab \/ \A c \in 1..3 : w1(c) < 65536 /\ w2(c) < 65536 /\ w1(c) >= 0 /\ w2(c) >= 0
      soft(c) == IF f.rf.gab THEN Gaborish(P0[c], h0, w0, w1(c), w2(c)) ELSE P0[c]
      Q1 == TLCEval(Epf(<< soft(1), soft(2), soft(3) >>, E0, h0, w0, f.rf.epf, cell))
      P1 == Q1.P
      \* samples known this well are judged: few closely in some frames, many loosely in others
      strict == E0 + << 25, 120, 700 >>[(PlaneTop(P1) % 3) + 1]
      vague == FoldLeft(LAMBDA a, r: a + FoldLeft(LAMBDA b, q: IF q > strict THEN b + 1 ELSE b, 0, r), 0, Q1.e)
      lim == IF f.rf.epf = 0 \/ strict > 700 \/ 3 * vague > h0 * w0 THEN 700 ELSE strict
      E1 == IF f.rf.epf = 0 THEN E0 ELSE IF k > 1 THEN PlaneTop(<< Q1.e >>) ELSE PlaneTop(<< [y \in 1..h0 |-> [x \in 1..w0 |-> IF Q1.e[y][x] > lim THEN 0 ELSE Q1.e[y][x]]] >>)
      close == f.rf.epf > 0 /\ \E y \in 0..(CeilDiv(h0, 8) - 1) : \E x \in 0..(CeilDiv(w0, 8) - 1) : cell(y, x) = << -1 >>
      \* enlarged
      ks == Kernels(Weights(ih, k), k)
      top == PlaneTop(P1)
      kok == k = 1 \/ (top < 2000000 /\ Gain(ks) < 524288 /\ \A z \in 1..Len(ks) : \A n \in 1..25 : Abs(ks[z][n]) < 131072)
      dot(z, ws) == FoldLeft(LAMBDA a, n: a + MulC(z[n], ws[n]), 0, Iota(25))
      P == IF k = 1 THEN P1 ELSE TLCEval([c \in 1..3 |-> Enlarge(P1[c], h0, w0, k, ks, h, w, 1, dot)])
      E == IF k = 1 THEN E1 ELSE (E1 * (Gain(ks) \div 256 + 1)) \div 256 + 25 * (top \div 131072 + 2)
      map(q(_, _)) == TLCEval([y \in 1..h |-> TLCEval([x \in 1..w |-> q(y, x)])])
      \* where the last row or column lies inside a cell, what the filters take to be beyond it is left open
      reach == (IF f.rf.gab THEN 1 ELSE 0) + << 0, 2, 3, 6 >>[f.rf.epf + 1] + (IF k > 1 THEN 2 ELSE 0)
      open(y, x) == \/ f.rf.epf > 0 /\ k = 1 /\ Q1.e[y][x] > lim
                    \/ h0 % pad[1] # 0 /\ (y - 1) \div k >= h0 - reach - pad[3]
                    \/ w0 % pad[2] # 0 /\ (x - 1) \div k >= w0 - reach - pad[4]
      out(q(_, _)) == map(LAMBDA y, x: IF open(y, x) THEN Open ELSE q(y, x))
      max == 2 ^ ih.bits - 1
      to64(d) == (d \div 2048) * max + ((d % 2048) * max + 1024) \div 2048
      rgb(c) == [w |-> w, h |-> h, s |-> 64, e |-> (E * max) \div 2048 + 1, d |-> out(LAMBDA y, x: to64(P[c][y][x]))]
      \* YCbCr: Cb, Y, Cr
      yy(y, x) == P[2][y][x] + 65793
      ycc(c) == [w |-> w, h |-> h, s |-> 64, e |-> (3 * E * max) \div 2048 + 1,
                 d |-> out(LAMBDA y, x: to64(CASE c = 1 -> yy(y, x) + MulC(P[3][y][x], 91881)
                                               [] c = 2 -> yy(y, x) - MulC(P[1][y][x], 22553) - MulC(P[3][y][x], 46802)
                                               [] c = 3 -> yy(y, x) + MulC(P[1][y][x], 116130)))]
      \* XYB
      sp == IF ih.xyb THEN Space(ih) ELSE DefaultSpace
      gm == IF ~ih.xyb THEN <<>>
            ELSE << map(LAMBDA y, x: (P[2][y][x] + P[1][y][x]) - sp.cb[1]), map(LAMBDA y, x: (P[2][y][x] - P[1][y][x]) - sp.cb[2]), map(LAMBDA y, x: P[3][y][x] - sp.cb[3]) >>
      gtop == PlaneTop(gm)
      g16 == gtop \div 8192 + 1                   \* 16ths
      g3 == (g16 * g16 * g16) \div 4096 + 1
      mtop == PlaneTop(<< sp.m >>)
      cube(a) == MulQ(MulQ(a, a), a)
      mix == << map(LAMBDA y, x: cube(gm[1][y][x]) + sp.b[1]), map(LAMBDA y, x: cube(gm[2][y][x]) + sp.b[2]), map(LAMBDA y, x: cube(gm[3][y][x]) + sp.b[3]) >>
      xyb(c) == [w |-> w, h |-> h, s |-> 64,
                 e |-> (((3 * (E + (IF ih.opsin = <<>> THEN 0 ELSE 2)) * g16 * g16) \div 256 + 3) * ((Abs(sp.m[c][1]) + Abs(sp.m[c][2]) + Abs(sp.m[c][3])) \div 16384 + 1)) \div 8
                       + 2 * sp.loose * g3 + 2,
                 d |-> out(LAMBDA y, x: to64(Mul14(mix[1][y][x], sp.m[c][1]) + Mul14(mix[2][y][x], sp.m[c][2]) + Mul14(mix[3][y][x], sp.m[c][3])))]
      chan(c) == IF ih.xyb THEN xyb(c) ELSE IF f.ycc THEN ycc(c) ELSE rgb(c)
      \* what is taken to be beyond the size shows in the samples an LF frame gives
      rim == (f.rf.gab \/ f.rf.epf > 0) /\ (h0 % pad[1] # 0 \/ w0 % pad[2] # 0)
  IN IF ~wok THEN [st |-> "beyond the fixed point range", chs |-> <<>>]
     ELSE IF close THEN [st |-> "sharpness at its limit", chs |-> <<>>]
     ELSE IF f.type = LFFRAME THEN IF ~Q1.ok \/ E1 > 10000 \/ rim THEN [st |-> "low frequencies not known well", chs |-> <<>>]
                                   ELSE TLCEval([st |-> "", chs |-> <<>>, planes |-> P1, e |-> IF f.rf.epf = 0 THEN E0 ELSE PlaneTop(<< Q1.e >>)])
     ELSE IF ~Q1.ok \/ E1 > 10000 \/ ~kok THEN [st |-> "beyond the fixed point range", chs |-> <<>>]
     ELSE IF ih.xyb /\ gtop > 280000 THEN [st |-> "large mix", chs |-> <<>>]
     ELSE IF ih.xyb /\ g3 * (mtop \div 1024 + 1) > 1950 THEN [st |-> "too bright", chs |-> <<>>]
     ELSE TLCEval([st |-> "", chs |-> << chan(1), chan(2), chan(3) >>])

(* v times a half float h divided by 128: 17 bits after the point; |v| < 10000, h < 2 *)
HalfTimes(v, h) == (v * (1024 + (h % 1024))) \div 2 ^ (15 - HalfE(h))

(* the channel of a grey image, coded as three that have to agree *)
Shared(chs) ==
  LET same(y, x) == LET a == chs[1].d[y][x] b == chs[2].d[y][x] c == chs[3].d[y][x] IN a # Open /\ Abs(a - b) <= 16 /\ Abs(c - b) <= 16
  IN [chs[2] EXCEPT !.e = chs[2].e + 16, !.d = TLCEval([y \in 1..chs[1].h |-> TLCEval([x \in 1..chs[1].w |-> IF same(y, x) THEN chs[2].d[y][x] ELSE Open])])]

(* the channels of a modular frame.  Its colours are numbers from 0 to the largest sample, or
   multiples of the steps of the low frequencies: Y, X, B without Y *)
ModFinish(ih, fr) ==
  LET Z == FinishFrame(ih, fr)
      f == fr.f
      nc == NFrameCh(ih, f)
      grey == NColourCh(ih) = 1
      fine == Fine(ih, f) \/ f.type = LFFRAME
      ups(c) == IF c <= nc THEN f.ups ELSE f.ecups[c - nc]
      max == 2 ^ ih.bits - 1
      top == FoldLeft(LAMBDA a, c: FoldLeft(LAMBDA b, r: FoldLeft(LAMBDA u, q: Max2(u, Abs(q)), b, r), a, Z.chs[c].d), 0, Iota(nc))
      steep == \E c \in 1..Len(fr.lfd) : HalfE(fr.lfd[c]) > 15
      step(c, v) == IF fr.lfd = <<>> THEN v * << 32, 256, 512 >>[c] ELSE HalfTimes(v, fr.lfd[c])
      plane(q(_, _)) == TLCEval([y \in 1..CodedH(f) |-> TLCEval([x \in 1..CodedW(f) |-> q(y, x)])])
      hh == CeilDiv(CodedH(f), 2 ^ MostV(f)) * 2 ^ MostV(f)
      ww == CeilDiv(CodedW(f), 2 ^ MostH(f)) * 2 ^ MostH(f)
      P == IF ih.xyb THEN << plane(LAMBDA y, x: step(1, Z.chs[2].d[y][x])), plane(LAMBDA y, x: step(2, Z.chs[1].d[y][x])),
                             plane(LAMBDA y, x: step(3, Z.chs[3].d[y][x] + Z.chs[1].d[y][x])) >>
           ELSE LET of(c) == plane(LAMBDA y, x: Stretched(f, c, LAMBDA yy, xx: (Z.chs[c].d[yy + 1][xx + 1] * 131072 + max \div 2) \div max,
                                                          hh, ww, y - 1, x - 1)) IN IF nc = 1 THEN << of(1), of(1), of(1) >> ELSE << of(1), of(2), of(3) >>
      C == FromPlanes(ih, f, P, IF Subsampled(f) THEN 3 ELSE 1, << 2 ^ MostV(f), 2 ^ MostH(f), 0, 0 >>, LAMBDA y, x: << 16384, 14 >>)
      X == EnlargeAll(ih, f, SubSeq(Z.chs, nc + 1, Len(Z.chs)), f.ecups)
  IN IF Z.st # "" THEN Z
     ELSE IF ~fine THEN TLCEval(EnlargeAll(ih, f, Z.chs, [c \in 1..Len(Z.chs) |-> ups(c)]))
     ELSE IF steep \/ top > 4000 THEN [st |-> "large samples", chs |-> <<>>]
     ELSE IF C.st # "" \/ f.type = LFFRAME THEN C
     ELSE IF X.st # "" THEN X
     ELSE [st |-> "", chs |-> (IF grey THEN << Shared(C.chs) >> ELSE C.chs) \o X.chs]
=============================================================================
