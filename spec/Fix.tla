-------------------------------- MODULE Fix --------------------------------
(* Real numbers as integers of 31 bits.  A value v stands for v / 131072 (17 bits after
   the point), a logarithm l for log2 = l / 65536.  Written by tools/mkfix.py.     *)
EXTENDS Rd, SequencesExt

LogTab == <<0, 369, 736, 1102, 1466, 1829, 2190, 2551, 2909, 3267, 3623, 3978, 4331, 4683, 5034, 5384,
  5732, 6079, 6425, 6769, 7112, 7454, 7795, 8134, 8473, 8810, 9146, 9480, 9814, 10146, 10477, 10807,
  11136, 11464, 11791, 12116, 12440, 12764, 13086, 13407, 13727, 14046, 14363, 14680, 14996, 15310, 15624, 15937,
  16248, 16559, 16868, 17177, 17484, 17791, 18096, 18401, 18704, 19007, 19308, 19609, 19909, 20207, 20505, 20802,
  21098, 21393, 21687, 21980, 22272, 22564, 22854, 23144, 23433, 23720, 24007, 24293, 24579, 24863, 25146, 25429,
  25711, 25992, 26272, 26551, 26830, 27108, 27384, 27660, 27936, 28210, 28484, 28757, 29029, 29300, 29571, 29840,
  30109, 30378, 30645, 30912, 31178, 31443, 31707, 31971, 32234, 32496, 32758, 33019, 33279, 33538, 33797, 34055,
  34312, 34569, 34825, 35080, 35334, 35588, 35841, 36094, 36346, 36597, 36847, 37097, 37346, 37595, 37842, 38090,
  38336, 38582, 38827, 39072, 39316, 39559, 39802, 40044, 40286, 40527, 40767, 41006, 41246, 41484, 41722, 41959,
  42196, 42432, 42667, 42902, 43137, 43370, 43603, 43836, 44068, 44300, 44530, 44761, 44990, 45220, 45448, 45676,
  45904, 46131, 46357, 46583, 46809, 47034, 47258, 47482, 47705, 47928, 48150, 48372, 48593, 48813, 49034, 49253,
  49472, 49691, 49909, 50127, 50344, 50560, 50776, 50992, 51207, 51422, 51636, 51850, 52063, 52276, 52488, 52700,
  52911, 53122, 53332, 53542, 53751, 53960, 54169, 54377, 54584, 54791, 54998, 55204, 55410, 55615, 55820, 56025,
  56229, 56432, 56635, 56838, 57040, 57242, 57443, 57644, 57845, 58045, 58245, 58444, 58643, 58841, 59039, 59237,
  59434, 59631, 59827, 60023, 60219, 60414, 60609, 60803, 60997, 61190, 61384, 61576, 61769, 61961, 62152, 62343,
  62534, 62725, 62915, 63104, 63294, 63483, 63671, 63859, 64047, 64234, 64421, 64608, 64794, 64980, 65166, 65351,
  65536>>
ExpTab == <<1048576, 1051419, 1054270, 1057128, 1059994, 1062868, 1065750, 1068639, 1071537, 1074442, 1077355, 1080276, 1083205, 1086142, 1089087, 1092040,
  1095000, 1097969, 1100946, 1103931, 1106924, 1109925, 1112935, 1115952, 1118978, 1122012, 1125054, 1128104, 1131163, 1134230, 1137305, 1140388,
  1143480, 1146581, 1149689, 1152806, 1155932, 1159066, 1162209, 1165360, 1168519, 1171687, 1174864, 1178050, 1181244, 1184446, 1187658, 1190878,
  1194106, 1197344, 1200590, 1203845, 1207109, 1210382, 1213664, 1216954, 1220254, 1223562, 1226880, 1230206, 1233542, 1236886, 1240240, 1243602,
  1246974, 1250355, 1253745, 1257144, 1260553, 1263970, 1267397, 1270834, 1274279, 1277734, 1281198, 1284672, 1288155, 1291648, 1295150, 1298661,
  1302182, 1305713, 1309253, 1312803, 1316362, 1319931, 1323510, 1327098, 1330696, 1334304, 1337922, 1341549, 1345187, 1348834, 1352491, 1356158,
  1359835, 1363522, 1367219, 1370926, 1374642, 1378369, 1382107, 1385854, 1389611, 1393379, 1397157, 1400945, 1404743, 1408552, 1412371, 1416200,
  1420040, 1423890, 1427751, 1431622, 1435503, 1439395, 1443298, 1447211, 1451135, 1455069, 1459014, 1462970, 1466937, 1470914, 1474902, 1478901,
  1482910, 1486931, 1490962, 1495005, 1499058, 1503123, 1507198, 1511284, 1515382, 1519491, 1523610, 1527741, 1531883, 1536037, 1540201, 1544377,
  1548564, 1552763, 1556973, 1561194, 1565427, 1569672, 1573927, 1578195, 1582474, 1586764, 1591066, 1595380, 1599706, 1604043, 1608392, 1612753,
  1617125, 1621510, 1625906, 1630314, 1634735, 1639167, 1643611, 1648067, 1652536, 1657016, 1661509, 1666014, 1670531, 1675060, 1679601, 1684155,
  1688722, 1693300, 1697891, 1702495, 1707110, 1711739, 1716380, 1721034, 1725700, 1730379, 1735070, 1739774, 1744491, 1749221, 1753964, 1758719,
  1763488, 1768269, 1773063, 1777870, 1782691, 1787524, 1792371, 1797230, 1802103, 1806989, 1811888, 1816801, 1821727, 1826666, 1831618, 1836584,
  1841564, 1846557, 1851563, 1856583, 1861617, 1866665, 1871726, 1876800, 1881889, 1886991, 1892107, 1897237, 1902381, 1907539, 1912711, 1917897,
  1923097, 1928311, 1933539, 1938781, 1944038, 1949309, 1954594, 1959893, 1965207, 1970535, 1975878, 1981235, 1986607, 1991993, 1997394, 2002809,
  2008240, 2013685, 2019144, 2024619, 2030108, 2035612, 2041131, 2046665, 2052214, 2057778, 2063358, 2068952, 2074562, 2080186, 2085826, 2091481,
  2097152>>
(* sqrt 2 cos(pi j / 512), 16 bits after the point *)
CosTab == <<92682, 92680, 92675, 92666, 92654, 92638, 92619, 92596, 92570, 92541, 92507, 92471, 92431, 92387, 92340, 92290,
  92236, 92178, 92117, 92053, 91985, 91914, 91839, 91760, 91679, 91594, 91505, 91413, 91317, 91218, 91116, 91010,
  90901, 90788, 90672, 90553, 90430, 90304, 90174, 90041, 89904, 89764, 89621, 89475, 89325, 89171, 89015, 88854,
  88691, 88524, 88354, 88181, 88004, 87824, 87641, 87454, 87264, 87071, 86874, 86675, 86472, 86265, 86056, 85843,
  85627, 85408, 85185, 84960, 84731, 84499, 84263, 84025, 83783, 83539, 83291, 83040, 82786, 82528, 82268, 82005,
  81738, 81469, 81196, 80920, 80641, 80359, 80075, 79787, 79496, 79202, 78905, 78605, 78303, 77997, 77688, 77377,
  77062, 76745, 76425, 76101, 75775, 75446, 75115, 74780, 74443, 74103, 73760, 73414, 73065, 72714, 72360, 72003,
  71644, 71282, 70917, 70550, 70180, 69807, 69431, 69053, 68673, 68290, 67904, 67515, 67125, 66731, 66335, 65937,
  65536, 65133, 64727, 64319, 63908, 63495, 63079, 62662, 62241, 61819, 61394, 60967, 60537, 60106, 59672, 59235,
  58797, 58356, 57913, 57468, 57021, 56571, 56120, 55666, 55211, 54753, 54293, 53831, 53367, 52901, 52433, 51963,
  51491, 51017, 50542, 50064, 49585, 49103, 48620, 48135, 47648, 47159, 46669, 46177, 45683, 45187, 44690, 44191,
  43690, 43188, 42684, 42178, 41671, 41162, 40652, 40140, 39627, 39112, 38595, 38078, 37559, 37038, 36516, 35993,
  35468, 34942, 34414, 33886, 33356, 32825, 32292, 31758, 31224, 30688, 30150, 29612, 29073, 28532, 27990, 27448,
  26904, 26359, 25814, 25267, 24719, 24171, 23621, 23071, 22520, 21968, 21415, 20861, 20307, 19751, 19195, 18639,
  18081, 17523, 16964, 16405, 15845, 15284, 14723, 14162, 13599, 13036, 12473, 11909, 11345, 10781, 10216, 9650,
  9084, 8518, 7952, 7385, 6818, 6251, 5683, 5116, 4548, 3980, 3411, 2843, 2275, 1706, 1137, 569,
  0>>
(* 8 sin(pi j / 512) / sin(pi j / 64): by how much the j-th of 32 low frequencies exceeds
   that of the means of its blocks *)
ResTab == <<131072, 131124, 131279, 131540, 131905, 132376, 132956, 133646, 134448, 135366, 136402, 137560, 138845, 140261, 141813, 143507,
  145351, 147350, 149515, 151852, 154374, 157089, 160012, 163156, 166535, 170167, 174070, 178266, 182779, 187633, 192860, 198492>>
(* basis of the corner transform, 16 bits after the point *)
AfvTab == <<
  <<16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384, 16384>>,
  <<57469, 14461, -6645, -6645, 14461, -6645, -6645, -6645, -6645, -6645, -6645, -6645, -6645, -6645, -6645, -6645>>,
  <<0, 0, 26654, 29127, 0, 0, 12828, 19196, -26654, -12828, 0, 7457, -29127, -19196, -7457, 0>>,
  <<0, 0, -13930, 20221, 0, 30846, -10625, 0, -13930, -10625, -30846, -9596, 20221, 0, -9596, 27860>>,
  <<0, -46341, 0, 0, 46341, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<-26905, 40865, -4217, -4217, 40865, -4217, -4217, -4217, -4217, -4217, -4217, -4217, -4217, -4217, -4217, -4217>>,
  <<0, 0, -29606, 10390, 0, -2647, 486, 25789, -29606, 486, 7258, 5438, 10390, 25789, 5438, -29606>>,
  <<0, 0, -19968, 33506, 0, 0, -19037, -4311, 19968, 19037, 0, -15656, -33506, 4311, 15656, 0>>,
  <<0, 0, 19778, 16903, 0, 10664, 6239, 0, 19778, 6239, -10664, -23142, 16903, 0, -23142, -39557>>,
  <<0, 0, 26755, 0, 0, 0, 0, -26755, -26755, 0, 0, -26755, 0, 26755, 26755, 0>>,
  <<0, 0, 11455, 5326, 0, 0, -24087, -20177, -11455, 24087, 0, 31632, -5326, 20177, -31632, 0>>,
  <<0, 0, -13832, 12168, 0, 0, 32254, -25248, 13832, -32254, 0, 11416, -12168, 25248, -11416, 0>>,
  <<0, 0, -9349, -22390, 0, 48284, 16140, -5619, -9349, 16140, 9754, -3125, -22390, -5619, -3125, -9349>>,
  <<0, 0, -9053, 21642, 0, 5738, -5208, -30234, -9053, -5208, 32588, 8217, 21642, -30234, 8217, -9053>>,
  <<0, 0, -11428, 4606, 0, -19143, 23749, 0, -11428, 23749, 19143, -28355, 4606, 0, -28355, 22856>>,
  <<0, 0, 7442, -4861, 0, 12716, -28521, 14365, 7442, -28521, 36375, -16691, -4861, 14365, -16691, 7442>> >>
(* frequency of coefficient (y, x) of that basis: place between the weight bands, 14 bits after the point *)
AfvPos == <<0, 0, 0, 18355, 0, 0, 15747, 18645, 3277, 12768, 26052, 38817, 7345, 27492, 32892, 49152>>
(* the default quantisation tables: parameters and bands as logarithms *)
DefaultTables == <<
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<761603, 761603, 729790, 697977, 666164, 562292>>, <<598297, 598297, 573491, 548684, 523878, 499072>>, <<589824, 485952, 420416, 420416, 354880, 251008>>>>, d4 |-> <<>>],
  [mode |-> "ID", p |-> <<<<532761, 761902, 761902>>, <<387114, 639296, 639296>>, <<273280, 500948, 500948>>>>, d |-> <<>>, d4 |-> <<>>],
  [mode |-> "DCT2", p |-> <<<<780330, 741994, 676458, 610922, 583722, 539284>>, <<649258, 610922, 545386, 490986, 467225, 452650>>, <<610922, 545386, 458752, 393216, 327680, 262144>>>>, d |-> <<>>, d4 |-> <<>>],
  [mode |-> "DCT4", p |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>, d |-> <<<<727665, 727665, 727665, 727665>>, <<564574, 564574, 564574, 564574>>, <<446127, 425029, 403931, 365595>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<860829, 782076, 744103, 709686, 663201, 602427, 511497>>, <<762840, 714113, 658148, 623065, 594087, 568324, 538135>>, <<666947, 561415, 478640, 439872, 406247, 320156, 152003>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<913583, 846872, 782287, 721541, 689728, 652139, 618914, 596315>>, <<841143, 785348, 731721, 689883, 651682, 617403, 585468, 562631>>, <<779428, 646931, 541765, 437153, 395745, 363932, 332119, 307313>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<840298, 790128, 739958, 722719, 705481, 688243, 649907>>, <<688128, 649792, 611456, 573120, 555881, 538643, 521405>>, <<588869, 506095, 488856, 450520, 412184, 325550, 181264>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<916921, 820206, 728747, 661421, 603256, 553086, 492400, 416315>>, <<806959, 780705, 752077, 727024, 681997, 643661, 605325, 560887>>, <<768762, 742417, 714388, 664029, 603343, 537807, 472271, 398784>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<901584, 837422, 789617, 756446, 737095, 718247, 698982, 654544>>, <<801407, 756307, 698772, 643717, 621172, 590533, 571018, 553215>>, <<709071, 634524, 559976, 509806, 459636, 409466, 377653, 339317>>>>, d4 |-> <<>>],
  [mode |-> "DCT48", p |-> <<<<0>>, <<0>>, <<0>>>>, d |-> <<<<727581, 663825, 610272, 562631>>, <<627712, 565725, 501737, 478511>>, <<592573, 507486, 422759, 332987>>>>, d4 |-> <<>>],
  [mode |-> "AFV", p |-> <<<<759232, 759232, 524288, 524288, 524288, 569736, 569736, 569736, 569736>>, <<655360, 655360, 369876, 369876, 369876, 383909, 383909, 383909, 383909>>, <<562624, 562624, 234944, 234944, 234944, 292253, 271155, 250058, 228960>>>>, d |-> <<<<727581, 663825, 610272, 562631>>, <<627712, 565725, 501737, 478511>>, <<592573, 507486, 422759, 332987>>>>, d4 |-> <<<<727665, 727665, 727665, 727665>>, <<564574, 564574, 564574, 564574>>, <<446127, 425029, 403931, 365595>>>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<953464, 886754, 832236, 784882, 768401, 750520, 717295, 690521>>, <<854115, 829005, 799703, 770867, 742892, 715433, 690495, 667658>>, <<795179, 720632, 646084, 590510, 540340, 490170, 458357, 420021>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<911395, 844685, 790167, 742812, 726332, 708451, 675226, 648452>>, <<815958, 790847, 761546, 732710, 704735, 677276, 652338, 629500>>, <<754433, 679886, 605338, 549764, 499594, 449424, 417611, 379275>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<1019000, 952290, 897772, 850418, 833937, 816056, 782831, 756057>>, <<919651, 894541, 865239, 836403, 808428, 780969, 756031, 733194>>, <<860715, 786168, 711620, 656046, 605876, 555706, 523893, 485557>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<976931, 910221, 855703, 808348, 791868, 773987, 740762, 713988>>, <<881494, 856383, 827082, 798246, 770271, 742812, 717874, 695036>>, <<819969, 745422, 670874, 615300, 565130, 514960, 483147, 444811>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<1084536, 1017826, 963308, 915954, 899473, 881592, 848367, 821593>>, <<985187, 960077, 930775, 901939, 873964, 846505, 821567, 798730>>, <<926251, 851704, 777156, 721582, 671412, 621242, 589429, 551093>>>>, d4 |-> <<>>],
  [mode |-> "DCT", p |-> <<>>, d |-> <<<<1042467, 975757, 921239, 873884, 857404, 839523, 806298, 779524>>, <<954419, 929308, 900007, 871171, 843196, 815737, 790799, 767961>>, <<895483, 820936, 746388, 690814, 640644, 590474, 558661, 520325>>>>, d4 |-> <<>>] >>

-----------------------------------------------------------------------------
Log(n) ==                                  \* of an integer > 0
  LET k == FloorLog2(n)
      m == IF k > 16 THEN n \div 2 ^ (k - 16) ELSE n * 2 ^ (16 - k)
      i == (m - 65536) \div 256
  IN k * 65536 + LogTab[i + 1] + ((LogTab[i + 2] - LogTab[i + 1]) * (m % 256) + 128) \div 256
Exp(l) ==                                  \* the value 2 ^ (l / 65536), l < 4 * 65536
  LET k == l \div 65536
      f == l % 65536
      i == f \div 256
      m == ExpTab[i + 1] + ((ExpTab[i + 2] - ExpTab[i + 1]) * (f % 256)) \div 256
  IN IF k < -24 THEN 0 ELSE IF k >= 3 THEN m * 2 ^ (k - 3) ELSE (m + 2 ^ (2 - k)) \div 2 ^ (3 - k)
(* a * c: a value below 16, c < 2 with 16 bits after the point *)
MulC(a, c) == ((a \div 256) * c + ((a % 256) * c + 128) \div 256 + 128) \div 256
(* a * c: values, a below 8, c below 4 *)
MulQ(a, c) == ((a \div 512) * c + ((a % 512) * c + 256) \div 512 + 128) \div 256

Cos(j) == IF j <= 256 THEN CosTab[j + 1] ELSE IF j <= 512 THEN -CosTab[513 - j] ELSE IF j <= 768 THEN -CosTab[j - 511] ELSE CosTab[1025 - j]
Basis(n, k, size) == IF n = 0 THEN 65536 ELSE Cos((n * (2 * k + 1) * (256 \div size)) % 1024)

(* integer square root *)
Isqrt(n) ==
  LET step(a, i) == LET r == a + 2 ^ (16 - i) IN IF r <= 46340 /\ r * r <= n THEN r ELSE a
  IN FoldLeft(step, 0, Iota(16))

(* sum of the cosines: coefficients <<v, u, F>> to samples *)
Idct(l, h, w) ==
  LET used == SelectSeq([i \in 1..h |-> i - 1], LAMBDA v: \E i \in 1..Len(l) : l[i][1] = v)
      row(v) == LET s == TLCEval(SelectSeq(l, LAMBDA t: t[1] = v))
                IN TLCEval([x \in 1..w |-> FoldLeft(LAMBDA a, t: a + MulC(t[3], Basis(t[2], x - 1, w)), 0, s)])
      rs == TLCEval([i \in 1..Len(used) |-> row(used[i])])
      col(y) == TLCEval([i \in 1..Len(used) |-> Basis(used[i], y - 1, h)])
      line(c) == TLCEval([x \in 1..w |-> FoldLeft(LAMBDA a, i: a + MulC(rs[i][x], c[i]), 0, Iota(Len(used)))])
  IN TLCEval([y \in 1..h |-> line(col(y))])
(* means of blocks m (h x w) to the low frequencies <<v, u, F>> of the whole *)
LowFreq(m, h, w) ==
  LET a == TLCEval([y \in 1..h |-> TLCEval([u \in 1..w |-> (FoldLeft(LAMBDA z, x: z + MulC(m[y][x], Basis(u - 1, x - 1, w)), 0, Iota(w)) + w \div 2) \div w])])
      f(v, u) == (FoldLeft(LAMBDA z, y: z + MulC(a[y][u], Basis(v - 1, y - 1, h)), 0, Iota(h)) + h \div 2) \div h
      g(v, u) == MulQ(MulQ(f(v, u), ResTab[(v - 1) * (32 \div h) + 1]), ResTab[(u - 1) * (32 \div w) + 1])
      all == TLCEval([k \in 1..(h * w) |-> << (k - 1) \div w, (k - 1) % w, g((k - 1) \div w + 1, ((k - 1) % w) + 1) >>])
  IN SelectSeq(all, LAMBDA t: t[3] # 0)
=============================================================================
