#!/usr/bin/env python3
"""Writes spec/Fix.tla: the tables and the arithmetic of the VarDCT specification."""
import math, os
here = os.path.dirname(os.path.abspath(__file__))

def seq(v, per=16):
    return '<<' + ',\n  '.join(', '.join(str(x) for x in v[i:i + per]) for i in range(0, len(v), per)) + '>>'

log = [round(65536 * math.log2(1 + i / 256)) for i in range(257)]
ex = [round((1 << 20) * 2 ** (i / 256)) for i in range(257)]
cos = [round(65536 * math.sqrt(2) * math.cos(math.pi * j / 512)) for j in range(257)]
res = [131072] + [round(131072 * 8 * math.sin(math.pi * j / 512) / math.sin(math.pi * j / 64)) for j in range(1, 32)]
afv = [
 [0.25] * 16,
 [0.876902929799142, 0.2206518106944235, -0.10140050393753763, -0.1014005039375375, 0.2206518106944236] + [-0.1014005039375376] * 11,
 [0, 0, 0.40670075830260755, 0.44444816619734445, 0, 0, 0.19574399372042936, 0.2929100136981264, -0.40670075830260716, -0.19574399372042872, 0, 0.11379074460448091, -0.44444816619734384, -0.29291001369812636, -0.1137907446044814, 0],
 [0, 0, -0.21255748058288748, 0.3085497062849767, 0, 0.4706702258572536, -0.1621205195722993, 0, -0.21255748058287047, -0.16212051957228327, -0.47067022585725277, -0.1464291867126764, 0.3085497062849487, 0, -0.14642918671266536, 0.4251149611657548],
 [0, -0.7071067811865474, 0, 0, 0.7071067811865476] + [0] * 11,
 [-0.4105377591765233, 0.6235485373547691, -0.06435071657946274, -0.06435071657946266, 0.6235485373547694] + [-0.06435071657946274] * 11,
 [0, 0, -0.4517556589999482, 0.15854503551840063, 0, -0.04038515160822202, 0.0074182263792423875, 0.39351034269210167, -0.45175565899994635, 0.007418226379244351, 0.1107416575309343, 0.08298163094882051, 0.15854503551839705, 0.3935103426921022, 0.0829816309488214, -0.45175565899994796],
 [0, 0, -0.304684750724869, 0.5112616136591823, 0, 0, -0.290480129728998, -0.06578701549142804, 0.304684750724884, 0.2904801297290076, 0, -0.23889773523344604, -0.5112616136592012, 0.06578701549142545, 0.23889773523345467, 0],
 [0, 0, 0.3017929516615495, 0.25792362796341184, 0, 0.16272340142866204, 0.09520022653475037, 0, 0.3017929516615503, 0.09520022653475055, -0.16272340142866173, -0.35312385449816297, 0.25792362796341295, 0, -0.3531238544981624, -0.6035859033230976],
 [0, 0, 0.40824829046386274, 0, 0, 0, 0, -0.4082482904638628, -0.4082482904638635, 0, 0, -0.40824829046386296, 0, 0.4082482904638634, 0.408248290463863, 0],
 [0, 0, 0.1747866975480809, 0.0812611176717539, 0, 0, -0.3675398009862027, -0.307882213957909, -0.17478669754808135, 0.3675398009862011, 0, 0.4826689115059883, -0.08126111767175039, 0.30788221395790305, -0.48266891150598584, 0],
 [0, 0, -0.21105601049335784, 0.18567180916109802, 0, 0, 0.49215859013738733, -0.38525013709251915, 0.21105601049335806, -0.49215859013738905, 0, 0.17419412659916217, -0.18567180916109904, 0.3852501370925211, -0.1741941265991621, 0],
 [0, 0, -0.14266084808807264, -0.3416446842253372, 0, 0.7367497537172237, 0.24627107722075148, -0.08574019035519306, -0.14266084808807344, 0.24627107722075137, 0.14883399227113567, -0.04768680350229251, -0.3416446842253373, -0.08574019035519267, -0.047686803502292804, -0.14266084808807242],
 [0, 0, -0.13813540350758585, 0.3302282550303788, 0, 0.08755115000587084, -0.07946706605909573, -0.4613374887461511, -0.13813540350758294, -0.07946706605910261, 0.49724647109535086, 0.12538059448563663, 0.3302282550303805, -0.4613374887461554, 0.12538059448564315, -0.13813540350758452],
 [0, 0, -0.17437602599651067, 0.0702790691196284, 0, -0.2921026642334881, 0.3623817333531167, 0, -0.1743760259965108, 0.36238173335311646, 0.29210266423348785, -0.4326608024727445, 0.07027906911962818, 0, -0.4326608024727457, 0.34875205199302267],
 [0, 0, 0.11354987314994337, -0.07417504595810355, 0, 0.19402893032594343, -0.435190496523228, 0.21918684838857466, 0.11354987314994257, -0.4351904965232251, 0.5550443808910661, -0.25468277124066463, -0.07417504595810233, 0.2191868483885728, -0.25468277124066413, 0.1135498731499429]]
freq = [0, 0, 0.8517778890324296, 5.37778436506804, 0, 0, 4.734747904497923, 5.449245381693219, 1.6598270267479331, 4, 7.275749096817861, 10.423227632456525, 2.662932286148962, 7.630657783650829, 8.962388608184032, 12.97166202570235]
for i in range(16):
    for j in range(16):
        assert abs(sum(a * b for a, b in zip(afv[i], afv[j])) - (i == j)) < 1e-6, (i, j)

# quantisation tables: [mode, param (rounded log2s), bands of channel 0..2 (log2 of the bands)]
def lg(v): return round(65536 * math.log2(v))
def bands(p):
    o = [p[0]]
    for v in p[1:]:
        o.append(o[-1] * (1 + v if v >= 0 else 1 / (1 - v)))
    return [lg(v) for v in o]
A = [-1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671]
B = [-0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037]
C = [-1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5]
d44 = [[2200, 0, 0, 0], [392, 0, 0, 0], [112, -0.25, -0.25, -0.5]]
d48 = [[2198.050556016380522, -0.96269623020744692, -0.76194253026666783, -0.6551140670773547],
       [764.3655248643528689, -0.92630200888366945, -0.9675229603596517, -0.27845290869168118],
       [527.107573587542228, -1.4594385811273854, -1.450082094097871593, -1.5843722511996204]]
abc = lambda x, y, b: ('DCT', None, [[x] + A, [y] + B, [b] + C], None)
T = [
 ('DCT', None, [[3150, 0, -.4, -.4, -.4, -2], [560, 0, -.3, -.3, -.3, -.3], [512, -2, -1, 0, -1, -2]], None),
 ('ID', [[280, 3160, 3160], [60, 864, 864], [18, 200, 200]], None, None),
 ('DCT2', [[3840, 2560, 1280, 640, 480, 300], [960, 640, 320, 180, 140, 120], [640, 320, 128, 64, 32, 16]], None, None),
 ('DCT4', [[1, 1]] * 3, d44, None),
 ('DCT', None, [[8996.8725711814115328, -1.3000777393353804, -0.49424529824571225, -0.439093774457103443, -0.6350101832695744, -0.90177264050827612, -1.6162099239887414],
                [3191.48366296844234752, -0.67424582104194355, -0.80745813428471001, -0.44925837484843441, -0.35865440981033403, -0.31322389111877305, -0.37615025315725483],
                [1157.50408145487200256, -2.0531423165804414, -1.4, -0.50687130033378396, -0.42708730624733904, -1.4856834539296244, -4.9209142884401604]], None),
 ('DCT', None, [[15718.40830982518931456, -1.025, -0.98, -0.9012, -0.4, -0.48819395464, -0.421064, -0.27],
                [7305.7636810695983104, -0.8041958212306401, -0.7633036457487539, -0.55660379990111464, -0.49785304658857626, -0.43699592683512467, -0.40180866526242109, -0.27321683125358037],
                [3803.53173721215041536, -3.060733579805728, -2.0413270132490346, -2.0235650159727417, -0.5495389509954993, -0.4, -0.4, -0.3]], None),
 ('DCT', None, [[7240.7734393502, -.7, -.7, -.2, -.2, -.2, -.5], [1448.15468787004, -.5, -.5, -.5, -.2, -.2, -.2], [506.854140754517, -1.4, -.2, -.5, -.5, -1.5, -3.6]], None),
 ('DCT', None, [[16283.2494710648897, -1.7812845336559429, -1.6309059012653515, -1.0382179034313539, -0.85, -0.7, -0.9, -1.2360638576849587],
                [5089.15750884921511936, -0.320049391452786891, -0.35362849922161446, -0.30340000000000003, -0.61, -0.5, -0.5, -0.6],
                [3397.77603275308720128, -0.321327362693153371, -0.34507619223117997, -0.70340000000000003, -0.9, -1.0, -1.0, -1.1754605576265209]], None),
 ('DCT', None, [[13844.97076442300573, -0.97113799999999995, -0.658, -0.42026, -0.22712, -0.2206, -0.226, -0.6],
                [4798.964084220744293, -0.61125308982767057, -0.83770786552491361, -0.79014862079498627, -0.2692727459704829, -0.38272769465388551, -0.22924222653091453, -0.20719098826199578],
                [1807.236946760964614, -1.2, -1.2, -0.7, -0.7, -0.7, -0.4, -0.5]], None),
 ('DCT48', [[1]] * 3, d48, None),
 ('AFV', [[3072, 3072, 256, 256, 256, 414, 0, 0, 0], [1024, 1024, 50, 50, 50, 58, 0, 0, 0], [384, 384, 12, 12, 12, 22, -.25, -.25, -.25]], d48, d44),
 abc(23966.1665298448605, 8380.19148390090414, 4493.02378009847706),
 abc(15358.89804933239925, 5597.360516150652990, 2919.961618960011210),
 abc(47932.3330596897210, 16760.38296780180828, 8986.04756019695412),
 abc(30717.796098664792, 11194.72103230130598, 5839.92323792002242),
 abc(95864.6661193794420, 33520.76593560361656, 17972.09512039390824),
 abc(61435.5921973295970, 24209.44206460261196, 12979.84647584004484)]
def tl(v): return '<<' + ', '.join(tl(x) if isinstance(x, list) else str(x) for x in v) + '>>'
rows = []
for mode, prm, d, d4 in T:
    if mode == 'AFV':
        p = [[lg(x) for x in r[:5]] + bands([r[5]] + r[6:]) for r in prm]
    else:
        p = [[lg(x) for x in r] for r in prm] if prm else []
    rows.append('[mode |-> "%s", p |-> %s, d |-> %s, d4 |-> %s]' % (mode, tl(p), tl([bands(x) for x in d]) if d else '<<>>', tl([bands(x) for x in d4]) if d4 else '<<>>'))

out = f'''-------------------------------- MODULE Fix --------------------------------
(* Real numbers as integers of 31 bits.  A value v stands for v / 131072 (17 bits after
   the point), a logarithm l for log2 = l / 65536.  Written by tools/mkfix.py.     *)
EXTENDS Rd, SequencesExt

LogTab == {seq(log)}
ExpTab == {seq(ex)}
(* sqrt 2 cos(pi j / 512), 16 bits after the point *)
CosTab == {seq(cos)}
(* 8 sin(pi j / 512) / sin(pi j / 64): by how much the j-th of 32 low frequencies exceeds
   that of the means of its blocks *)
ResTab == {seq(res)}
(* basis of the corner transform, 16 bits after the point *)
AfvTab == <<
  {(","+chr(10)+"  ").join(seq([round(65536*x) for x in r]) for r in afv)} >>
(* frequency of coefficient (y, x) of that basis: place between the weight bands, 14 bits after the point *)
AfvPos == {seq([max(0, round(16384 * 3 * (f - freq[2]) / (freq[15] - freq[2]))) for f in freq])}
(* the default quantisation tables: parameters and bands as logarithms *)
DefaultTables == <<
  {(","+chr(10)+"  ").join(rows)} >>

-----------------------------------------------------------------------------
Log(n) ==                                  \\* of an integer > 0
  LET k == FloorLog2(n)
      m == IF k > 16 THEN n \\div 2 ^ (k - 16) ELSE n * 2 ^ (16 - k)
      i == (m - 65536) \\div 256
  IN k * 65536 + LogTab[i + 1] + ((LogTab[i + 2] - LogTab[i + 1]) * (m % 256) + 128) \\div 256
Exp(l) ==                                  \\* the value 2 ^ (l / 65536), l < 4 * 65536
  LET k == l \\div 65536
      f == l % 65536
      i == f \\div 256
      m == ExpTab[i + 1] + ((ExpTab[i + 2] - ExpTab[i + 1]) * (f % 256)) \\div 256
  IN IF k < -24 THEN 0 ELSE IF k >= 3 THEN m * 2 ^ (k - 3) ELSE (m + 2 ^ (2 - k)) \\div 2 ^ (3 - k)
(* a * c: a value below 16, c < 2 with 16 bits after the point *)
MulC(a, c) == ((a \\div 256) * c + ((a % 256) * c + 128) \\div 256 + 128) \\div 256
(* a * c: values, a below 8, c below 4 *)
MulQ(a, c) == ((a \\div 512) * c + ((a % 512) * c + 256) \\div 512 + 128) \\div 256

Cos(j) == IF j <= 256 THEN CosTab[j + 1] ELSE IF j <= 512 THEN -CosTab[513 - j] ELSE IF j <= 768 THEN -CosTab[j - 511] ELSE CosTab[1025 - j]
Basis(n, k, size) == IF n = 0 THEN 65536 ELSE Cos((n * (2 * k + 1) * (256 \\div size)) % 1024)

(* integer square root *)
Isqrt(n) ==
  LET step(a, i) == LET r == a + 2 ^ (16 - i) IN IF r <= 46340 /\\ r * r <= n THEN r ELSE a
  IN FoldLeft(step, 0, Iota(16))

(* sum of the cosines: coefficients <<v, u, F>> to samples *)
Idct(l, h, w) ==
  LET used == SelectSeq([i \\in 1..h |-> i - 1], LAMBDA v: \\E i \\in 1..Len(l) : l[i][1] = v)
      row(v) == LET s == TLCEval(SelectSeq(l, LAMBDA t: t[1] = v))
                IN TLCEval([x \\in 1..w |-> FoldLeft(LAMBDA a, t: a + MulC(t[3], Basis(t[2], x - 1, w)), 0, s)])
      rs == TLCEval([i \\in 1..Len(used) |-> row(used[i])])
      col(y) == TLCEval([i \\in 1..Len(used) |-> Basis(used[i], y - 1, h)])
      line(c) == TLCEval([x \\in 1..w |-> FoldLeft(LAMBDA a, i: a + MulC(rs[i][x], c[i]), 0, Iota(Len(used)))])
  IN TLCEval([y \\in 1..h |-> line(col(y))])
(* means of blocks m (h x w) to the low frequencies <<v, u, F>> of the whole *)
LowFreq(m, h, w) ==
  LET a == TLCEval([y \\in 1..h |-> TLCEval([u \\in 1..w |-> (FoldLeft(LAMBDA z, x: z + MulC(m[y][x], Basis(u - 1, x - 1, w)), 0, Iota(w)) + w \\div 2) \\div w])])
      f(v, u) == (FoldLeft(LAMBDA z, y: z + MulC(a[y][u], Basis(v - 1, y - 1, h)), 0, Iota(h)) + h \\div 2) \\div h
      g(v, u) == MulQ(MulQ(f(v, u), ResTab[(v - 1) * (32 \\div h) + 1]), ResTab[(u - 1) * (32 \\div w) + 1])
      all == TLCEval([k \\in 1..(h * w) |-> << (k - 1) \\div w, (k - 1) % w, g((k - 1) \\div w + 1, ((k - 1) % w) + 1) >>])
  IN SelectSeq(all, LAMBDA t: t[3] # 0)
=============================================================================
'''
open(os.path.join(here, '..', 'spec', 'Fix.tla'), 'w').write(out)
