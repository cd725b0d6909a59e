-------------------------------- MODULE Tables --------------------------------
(* Written by tools/mktables.py; MCNum checks every entry (TablesRight). *)
EXTENDS Integers
MaxN == 32
\* cosine and sine of k/n turns: CosTab[n][k + 1]
CosTab == <<
  <<<<1, <<1>>, 0>>>>,
  <<<<1, <<1>>, 0>>, <<-1, <<1>>, 0>>>>,
  <<<<1, <<1>>, 0>>, <<-1, <<2048>>, -1>>, <<-1, <<2048>>, -1>>>>,
  <<<<1, <<1>>, 0>>, <<0, <<>>, 0>>, <<-1, <<1>>, 0>>, <<0, <<>>, 0>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2048>>, -1>>, <<-1, <<2048>>, -1>>, <<-1, <<1>>, 0>>, <<-1, <<2048>>, -1>>, <<1, <<2048>>, -1>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<0, <<>>, 0>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<0, <<>>, 0>>, <<1, <<2526, 831, 1267, 2896>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2689, 359, 2941, 3137>>, -4>>, <<1, <<1767, 4033, 1076, 711>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<360, 297, 4018, 3848>>, -4>>, <<-1, <<360, 297, 4018, 3848>>, -4>>, <<-1, <<2048>>, -1>>, <<1, <<1767, 4033, 1076, 711>>, -4>>, <<1, <<2689, 359, 2941, 3137>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<4005, 3531, 3004, 3313>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<-1, <<4005, 3531, 3004, 1265>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<4005, 3531, 3004, 3313>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<1925, 946, 3172, 3445>>, -4>>, <<1, <<3146, 1649, 2211, 1701>>, -4>>, <<-1, <<3721, 3201, 3774, 582>>, -4>>, <<-1, <<2756, 4027, 1267, 2682>>, -4>>, <<-1, <<2690, 3558, 340, 3930>>, -4>>, <<-1, <<2690, 3558, 340, 3930>>, -4>>, <<-1, <<2756, 4027, 1267, 2682>>, -4>>, <<-1, <<3721, 3201, 3774, 582>>, -4>>, <<1, <<3146, 1649, 2211, 1701>>, -4>>, <<1, <<1925, 946, 3172, 3445>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<2048>>, -1>>, <<0, <<>>, 0>>, <<-1, <<2048>>, -1>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<2048>>, -1>>, <<0, <<>>, 0>>, <<1, <<2048>>, -1>>, <<1, <<613, 1068, 983, 3547>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2567, 3, 3391, 3626>>, -4>>, <<1, <<2184, 3923, 3248, 2326>>, -4>>, <<1, <<2622, 3770, 2941, 493>>, -4>>, <<-1, <<2422, 3213, 1890, 1452>>, -4>>, <<-1, <<2416, 2049, 3686, 3065>>, -4>>, <<-1, <<2536, 2434, 4004, 3976>>, -4>>, <<-1, <<2536, 2434, 4004, 3976>>, -4>>, <<-1, <<2416, 2049, 3686, 3065>>, -4>>, <<-1, <<2422, 3213, 1890, 1452>>, -4>>, <<1, <<2622, 3770, 2941, 493>>, -4>>, <<1, <<2184, 3923, 3248, 2326>>, -4>>, <<1, <<2567, 3, 3391, 3626>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2787, 1253, 1509, 3690>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<1, <<1163, 3168, 1825, 911>>, -4>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<-1, <<3950, 325, 3335, 2553>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<3950, 325, 3335, 2553>>, -4>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<1, <<1163, 3168, 1825, 911>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<1, <<2787, 1253, 1509, 3690>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<3068, 1919, 3613, 3741>>, -4>>, <<1, <<94, 2929, 3108, 2740>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<-1, <<3159, 2483, 608, 428>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<3, 2365, 2017, 4006>>, -4>>, <<-1, <<3, 2365, 2017, 4006>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<3159, 2483, 608, 428>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<94, 2929, 3108, 2740>>, -4>>, <<1, <<3068, 1919, 3613, 3741>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<1130, 1945, 862, 3784>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<2725, 2475, 1930, 1567>>, -4>>, <<0, <<>>, 0>>, <<-1, <<2725, 2475, 1930, 1567>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<1130, 1945, 862, 3784>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<1130, 1945, 862, 3784>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<2725, 2475, 1930, 1567>>, -4>>, <<0, <<>>, 0>>, <<1, <<2725, 2475, 1930, 1567>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<1130, 1945, 862, 3784>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2124, 27, 1664, 3819>>, -4>>, <<1, <<2628, 942, 4016, 3026>>, -4>>, <<1, <<527, 2762, 3048, 1825>>, -4>>, <<1, <<2487, 805, 3814, 377>>, -4>>, <<-1, <<3124, 391, 3783, 1120>>, -4>>, <<-1, <<3981, 1898, 1603, 2468>>, -4>>, <<-1, <<1309, 2183, 2004, 3482>>, -4>>, <<-1, <<3447, 63, 1056, 4026>>, -4>>, <<-1, <<3447, 63, 1056, 4026>>, -4>>, <<-1, <<1309, 2183, 2004, 3482>>, -4>>, <<-1, <<3981, 1898, 1603, 2468>>, -4>>, <<-1, <<3124, 391, 3783, 1120>>, -4>>, <<1, <<2487, 805, 3814, 377>>, -4>>, <<1, <<527, 2762, 3048, 1825>>, -4>>, <<1, <<2628, 942, 4016, 3026>>, -4>>, <<1, <<2124, 27, 1664, 3819>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<360, 297, 4018, 3848>>, -4>>, <<1, <<2689, 359, 2941, 3137>>, -4>>, <<1, <<2048>>, -1>>, <<1, <<1767, 4033, 1076, 711>>, -4>>, <<-1, <<1767, 4033, 1076, 711>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<2689, 359, 2941, 3137>>, -4>>, <<-1, <<360, 297, 4018, 3848>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<360, 297, 4018, 3848>>, -4>>, <<-1, <<2689, 359, 2941, 3137>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<1767, 4033, 1076, 711>>, -4>>, <<1, <<1767, 4033, 1076, 711>>, -4>>, <<1, <<2048>>, -1>>, <<1, <<2689, 359, 2941, 3137>>, -4>>, <<1, <<360, 297, 4018, 3848>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2271, 657, 276, 3874>>, -4>>, <<1, <<3689, 3196, 1308, 3232>>, -4>>, <<1, <<3654, 1595, 1227, 2240>>, -4>>, <<1, <<2448, 174, 2083, 1005>>, -4>>, <<-1, <<245, 2114, 1003, 338>>, -4>>, <<-1, <<1627, 3709, 1410, 1645>>, -4>>, <<-1, <<231, 901, 595, 2774>>, -4>>, <<-1, <<3919, 369, 1329, 3602>>, -4>>, <<-1, <<1941, 2626, 556, 4040>>, -4>>, <<-1, <<1941, 2626, 556, 4040>>, -4>>, <<-1, <<3919, 369, 1329, 3602>>, -4>>, <<-1, <<231, 901, 595, 2774>>, -4>>, <<-1, <<1627, 3709, 1410, 1645>>, -4>>, <<-1, <<245, 2114, 1003, 338>>, -4>>, <<1, <<2448, 174, 2083, 1005>>, -4>>, <<1, <<3654, 1595, 1227, 2240>>, -4>>, <<1, <<3689, 3196, 1308, 3232>>, -4>>, <<1, <<2271, 657, 276, 3874>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<4005, 3531, 3004, 3313>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<0, <<>>, 0>>, <<-1, <<4005, 3531, 3004, 1265>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<4005, 3531, 3004, 1265>>, -4>>, <<0, <<>>, 0>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<4005, 3531, 3004, 3313>>, -4>>, <<1, <<679, 2466, 2160, 3895>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<3174, 1500, 107, 3914>>, -4>>, <<1, <<4051, 1573, 1122, 3384>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<1, <<2674, 1144, 1789, 1496>>, -4>>, <<1, <<2831, 3775, 386, 306>>, -4>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<2011, 2428, 2377, 3002>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<2528, 1470, 1028, 4050>>, -4>>, <<-1, <<2528, 1470, 1028, 4050>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<2011, 2428, 2377, 3002>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<1, <<2831, 3775, 386, 306>>, -4>>, <<1, <<2674, 1144, 1789, 1496>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<1, <<4051, 1573, 1122, 3384>>, -4>>, <<1, <<3174, 1500, 107, 3914>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2690, 3558, 340, 3930>>, -4>>, <<1, <<1925, 946, 3172, 3445>>, -4>>, <<1, <<2756, 4027, 1267, 2682>>, -4>>, <<1, <<3146, 1649, 2211, 1701>>, -4>>, <<1, <<3721, 3201, 3774, 582>>, -4>>, <<-1, <<3721, 3201, 3774, 582>>, -4>>, <<-1, <<3146, 1649, 2211, 1701>>, -4>>, <<-1, <<2756, 4027, 1267, 2682>>, -4>>, <<-1, <<1925, 946, 3172, 3445>>, -4>>, <<-1, <<2690, 3558, 340, 3930>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<2690, 3558, 340, 3930>>, -4>>, <<-1, <<1925, 946, 3172, 3445>>, -4>>, <<-1, <<2756, 4027, 1267, 2682>>, -4>>, <<-1, <<3146, 1649, 2211, 1701>>, -4>>, <<-1, <<3721, 3201, 3774, 582>>, -4>>, <<1, <<3721, 3201, 3774, 582>>, -4>>, <<1, <<3146, 1649, 2211, 1701>>, -4>>, <<1, <<2756, 4027, 1267, 2682>>, -4>>, <<1, <<1925, 946, 3172, 3445>>, -4>>, <<1, <<2690, 3558, 340, 3930>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2413, 1310, 447, 3944>>, -4>>, <<1, <<2127, 3705, 2874, 3499>>, -4>>, <<1, <<2039, 2110, 3021, 2795>>, -4>>, <<1, <<1691, 2097, 1746, 1884>>, -4>>, <<1, <<3153, 1955, 1457, 833>>, -4>>, <<-1, <<2547, 2905, 2133, 279>>, -4>>, <<-1, <<3869, 2405, 2731, 1371>>, -4>>, <<-1, <<2791, 1339, 338, 2362>>, -4>>, <<-1, <<1699, 3595, 1283, 3177>>, -4>>, <<-1, <<3277, 503, 3676, 3756>>, -4>>, <<-1, <<1334, 429, 3480, 4057>>, -4>>, <<-1, <<1334, 429, 3480, 4057>>, -4>>, <<-1, <<3277, 503, 3676, 3756>>, -4>>, <<-1, <<1699, 3595, 1283, 3177>>, -4>>, <<-1, <<2791, 1339, 338, 2362>>, -4>>, <<-1, <<3869, 2405, 2731, 1371>>, -4>>, <<-1, <<2547, 2905, 2133, 279>>, -4>>, <<1, <<3153, 1955, 1457, 833>>, -4>>, <<1, <<1691, 2097, 1746, 1884>>, -4>>, <<1, <<2039, 2110, 3021, 2795>>, -4>>, <<1, <<2127, 3705, 2874, 3499>>, -4>>, <<1, <<2413, 1310, 447, 3944>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<1528, 932, 1770, 3956>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<2048>>, -1>>, <<1, <<3098, 100, 503, 1060>>, -4>>, <<0, <<>>, 0>>, <<-1, <<3098, 100, 503, 1060>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<1528, 932, 1770, 3956>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<1528, 932, 1770, 3956>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<3098, 100, 503, 1060>>, -4>>, <<0, <<>>, 0>>, <<1, <<3098, 100, 503, 1060>>, -4>>, <<1, <<2048>>, -1>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<1528, 932, 1770, 3956>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<247, 3720, 1296, 3967>>, -4>>, <<1, <<3586, 1856, 1442, 3589>>, -4>>, <<1, <<1472, 489, 3504, 2985>>, -4>>, <<1, <<346, 3596, 3057, 2194>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<147, 446, 778, 257>>, -4>>, <<-1, <<1780, 3232, 2104, 767>>, -4>>, <<-1, <<1542, 585, 4063, 1743>>, -4>>, <<-1, <<2061, 3930, 3639, 2610>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<2775, 3831, 1492, 3808>>, -4>>, <<-1, <<1736, 2624, 2874, 4063>>, -4>>, <<-1, <<1736, 2624, 2874, 4063>>, -4>>, <<-1, <<2775, 3831, 1492, 3808>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<2061, 3930, 3639, 2610>>, -4>>, <<-1, <<1542, 585, 4063, 1743>>, -4>>, <<-1, <<1780, 3232, 2104, 767>>, -4>>, <<1, <<147, 446, 778, 257>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<346, 3596, 3057, 2194>>, -4>>, <<1, <<1472, 489, 3504, 2985>>, -4>>, <<1, <<3586, 1856, 1442, 3589>>, -4>>, <<1, <<247, 3720, 1296, 3967>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2536, 2434, 4004, 3976>>, -4>>, <<1, <<2567, 3, 3391, 3626>>, -4>>, <<1, <<2416, 2049, 3686, 3065>>, -4>>, <<1, <<2184, 3923, 3248, 2326>>, -4>>, <<1, <<2422, 3213, 1890, 1452>>, -4>>, <<1, <<2622, 3770, 2941, 493>>, -4>>, <<-1, <<2622, 3770, 2941, 493>>, -4>>, <<-1, <<2422, 3213, 1890, 1452>>, -4>>, <<-1, <<2184, 3923, 3248, 2326>>, -4>>, <<-1, <<2416, 2049, 3686, 3065>>, -4>>, <<-1, <<2567, 3, 3391, 3626>>, -4>>, <<-1, <<2536, 2434, 4004, 3976>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<2536, 2434, 4004, 3976>>, -4>>, <<-1, <<2567, 3, 3391, 3626>>, -4>>, <<-1, <<2416, 2049, 3686, 3065>>, -4>>, <<-1, <<2184, 3923, 3248, 2326>>, -4>>, <<-1, <<2422, 3213, 1890, 1452>>, -4>>, <<-1, <<2622, 3770, 2941, 493>>, -4>>, <<1, <<2622, 3770, 2941, 493>>, -4>>, <<1, <<2422, 3213, 1890, 1452>>, -4>>, <<1, <<2184, 3923, 3248, 2326>>, -4>>, <<1, <<2416, 2049, 3686, 3065>>, -4>>, <<1, <<2567, 3, 3391, 3626>>, -4>>, <<1, <<2536, 2434, 4004, 3976>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<3663, 3978, 2423, 3985>>, -4>>, <<1, <<962, 3405, 1307, 3660>>, -4>>, <<1, <<2689, 359, 2941, 3137>>, -4>>, <<1, <<909, 2782, 3938, 2445>>, -4>>, <<1, <<3801, 3227, 1403, 1622>>, -4>>, <<1, <<1767, 4033, 1076, 711>>, -4>>, <<-1, <<2589, 1449, 660, 238>>, -4>>, <<-1, <<406, 3214, 3055, 1174>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<3256, 764, 3464, 2810>>, -4>>, <<-1, <<2469, 1955, 647, 3422>>, -4>>, <<-1, <<360, 297, 4018, 3848>>, -4>>, <<-1, <<615, 1914, 1246, 4068>>, -4>>, <<-1, <<615, 1914, 1246, 4068>>, -4>>, <<-1, <<360, 297, 4018, 3848>>, -4>>, <<-1, <<2469, 1955, 647, 3422>>, -4>>, <<-1, <<3256, 764, 3464, 2810>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<406, 3214, 3055, 1174>>, -4>>, <<-1, <<2589, 1449, 660, 238>>, -4>>, <<1, <<1767, 4033, 1076, 711>>, -4>>, <<1, <<3801, 3227, 1403, 1622>>, -4>>, <<1, <<909, 2782, 3938, 2445>>, -4>>, <<1, <<2689, 359, 2941, 3137>>, -4>>, <<1, <<962, 3405, 1307, 3660>>, -4>>, <<1, <<3663, 3978, 2423, 3985>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<1867, 684, 1248, 3993>>, -4>>, <<1, <<2787, 1253, 1509, 3690>>, -4>>, <<1, <<3826, 2690, 1563, 3202>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<1, <<1711, 860, 769, 1777>>, -4>>, <<1, <<1163, 3168, 1825, 911>>, -4>>, <<0, <<>>, 0>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<-1, <<1711, 860, 769, 1777>>, -4>>, <<-1, <<3950, 325, 3335, 2553>>, -4>>, <<-1, <<3826, 2690, 1563, 3202>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<1867, 684, 1248, 3993>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<1867, 684, 1248, 3993>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<3826, 2690, 1563, 3202>>, -4>>, <<-1, <<3950, 325, 3335, 2553>>, -4>>, <<-1, <<1711, 860, 769, 1777>>, -4>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<0, <<>>, 0>>, <<1, <<1163, 3168, 1825, 911>>, -4>>, <<1, <<1711, 860, 769, 1777>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<1, <<3826, 2690, 1563, 3202>>, -4>>, <<1, <<2787, 1253, 1509, 3690>>, -4>>, <<1, <<1867, 684, 1248, 3993>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<76, 54, 974, 4000>>, -4>>, <<1, <<998, 3490, 1756, 3717>>, -4>>, <<1, <<1842, 1308, 3265, 3260>>, -4>>, <<1, <<1107, 2192, 2843, 2651>>, -4>>, <<1, <<2520, 2399, 2461, 1918>>, -4>>, <<1, <<3192, 2955, 3260, 1095>>, -4>>, <<1, <<196, 669, 3084, 221>>, -4>>, <<-1, <<1684, 2052, 2699, 662>>, -4>>, <<-1, <<4043, 3202, 351, 1516>>, -4>>, <<-1, <<2925, 2506, 2548, 2298>>, -4>>, <<-1, <<2672, 749, 2775, 2973>>, -4>>, <<-1, <<2962, 3791, 2813, 3509>>, -4>>, <<-1, <<3658, 3874, 2405, 3881>>, -4>>, <<-1, <<178, 987, 4051, 4071>>, -4>>, <<-1, <<178, 987, 4051, 4071>>, -4>>, <<-1, <<3658, 3874, 2405, 3881>>, -4>>, <<-1, <<2962, 3791, 2813, 3509>>, -4>>, <<-1, <<2672, 749, 2775, 2973>>, -4>>, <<-1, <<2925, 2506, 2548, 2298>>, -4>>, <<-1, <<4043, 3202, 351, 1516>>, -4>>, <<-1, <<1684, 2052, 2699, 662>>, -4>>, <<1, <<196, 669, 3084, 221>>, -4>>, <<1, <<3192, 2955, 3260, 1095>>, -4>>, <<1, <<2520, 2399, 2461, 1918>>, -4>>, <<1, <<1107, 2192, 2843, 2651>>, -4>>, <<1, <<1842, 1308, 3265, 3260>>, -4>>, <<1, <<998, 3490, 1756, 3717>>, -4>>, <<1, <<76, 54, 974, 4000>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<3, 2365, 2017, 4006>>, -4>>, <<1, <<3068, 1919, 3613, 3741>>, -4>>, <<1, <<4005, 3531, 3004, 3313>>, -4>>, <<1, <<94, 2929, 3108, 2740>>, -4>>, <<1, <<2048>>, -1>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<3159, 2483, 608, 428>>, -4>>, <<-1, <<3159, 2483, 608, 428>>, -4>>, <<-1, <<4005, 3531, 3004, 1265>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<94, 2929, 3108, 2740>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<3068, 1919, 3613, 3741>>, -4>>, <<-1, <<3, 2365, 2017, 4006>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<3, 2365, 2017, 4006>>, -4>>, <<-1, <<3068, 1919, 3613, 3741>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<94, 2929, 3108, 2740>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<4005, 3531, 3004, 1265>>, -4>>, <<-1, <<3159, 2483, 608, 428>>, -4>>, <<1, <<3159, 2483, 608, 428>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<2048>>, -1>>, <<1, <<94, 2929, 3108, 2740>>, -4>>, <<1, <<4005, 3531, 3004, 3313>>, -4>>, <<1, <<3068, 1919, 3613, 3741>>, -4>>, <<1, <<3, 2365, 2017, 4006>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<476, 1650, 633, 4012>>, -4>>, <<1, <<7, 2869, 209, 3764>>, -4>>, <<1, <<3287, 2203, 3469, 3361>>, -4>>, <<1, <<1209, 3351, 34, 2822>>, -4>>, <<1, <<3460, 1873, 2607, 2166>>, -4>>, <<1, <<656, 1003, 2303, 1422>>, -4>>, <<1, <<1679, 2177, 1016, 620>>, -4>>, <<-1, <<2906, 187, 1880, 207>>, -4>>, <<-1, <<1526, 2763, 2755, 1026>>, -4>>, <<-1, <<2602, 3300, 3499, 1803>>, -4>>, <<-1, <<2664, 1163, 762, 2507>>, -4>>, <<-1, <<2614, 3752, 3576, 3107>>, -4>>, <<-1, <<1425, 155, 1326, 3581>>, -4>>, <<-1, <<358, 1633, 632, 3908>>, -4>>, <<-1, <<775, 2172, 4033, 4074>>, -4>>, <<-1, <<775, 2172, 4033, 4074>>, -4>>, <<-1, <<358, 1633, 632, 3908>>, -4>>, <<-1, <<1425, 155, 1326, 3581>>, -4>>, <<-1, <<2614, 3752, 3576, 3107>>, -4>>, <<-1, <<2664, 1163, 762, 2507>>, -4>>, <<-1, <<2602, 3300, 3499, 1803>>, -4>>, <<-1, <<1526, 2763, 2755, 1026>>, -4>>, <<-1, <<2906, 187, 1880, 207>>, -4>>, <<1, <<1679, 2177, 1016, 620>>, -4>>, <<1, <<656, 1003, 2303, 1422>>, -4>>, <<1, <<3460, 1873, 2607, 2166>>, -4>>, <<1, <<1209, 3351, 34, 2822>>, -4>>, <<1, <<3287, 2203, 3469, 3361>>, -4>>, <<1, <<7, 2869, 209, 3764>>, -4>>, <<1, <<476, 1650, 633, 4012>>, -4>>>>,
  <<<<1, <<1>>, 0>>, <<1, <<2789, 2043, 1214, 4017>>, -4>>, <<1, <<1130, 1945, 862, 3784>>, -4>>, <<1, <<1293, 1159, 2865, 3405>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<838, 3287, 2521, 2275>>, -4>>, <<1, <<2725, 2475, 1930, 1567>>, -4>>, <<1, <<844, 1933, 368, 799>>, -4>>, <<0, <<>>, 0>>, <<-1, <<844, 1933, 368, 799>>, -4>>, <<-1, <<2725, 2475, 1930, 1567>>, -4>>, <<-1, <<838, 3287, 2521, 2275>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<1293, 1159, 2865, 3405>>, -4>>, <<-1, <<1130, 1945, 862, 3784>>, -4>>, <<-1, <<2789, 2043, 1214, 4017>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<2789, 2043, 1214, 4017>>, -4>>, <<-1, <<1130, 1945, 862, 3784>>, -4>>, <<-1, <<1293, 1159, 2865, 3405>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<838, 3287, 2521, 2275>>, -4>>, <<-1, <<2725, 2475, 1930, 1567>>, -4>>, <<-1, <<844, 1933, 368, 799>>, -4>>, <<0, <<>>, 0>>, <<1, <<844, 1933, 368, 799>>, -4>>, <<1, <<2725, 2475, 1930, 1567>>, -4>>, <<1, <<838, 3287, 2521, 2275>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<1293, 1159, 2865, 3405>>, -4>>, <<1, <<1130, 1945, 862, 3784>>, -4>>, <<1, <<2789, 2043, 1214, 4017>>, -4>>>>>>
SinTab == <<
  <<<<0, <<>>, 0>>>>,
  <<<<0, <<>>, 0>>, <<0, <<>>, 0>>>>,
  <<<<0, <<>>, 0>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<1>>, 0>>, <<0, <<>>, 0>>, <<-1, <<1>>, 0>>>>,
  <<<<0, <<>>, 0>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<0, <<>>, 0>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<3826, 2690, 1563, 3202>>, -4>>, <<1, <<1867, 684, 1248, 3993>>, -4>>, <<1, <<1711, 860, 769, 1777>>, -4>>, <<-1, <<1711, 860, 769, 1777>>, -4>>, <<-1, <<1867, 684, 1248, 3993>>, -4>>, <<-1, <<3826, 2690, 1563, 3202>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<1>>, 0>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<0, <<>>, 0>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<176, 2334, 3514, 2632>>, -4>>, <<1, <<2272, 1600, 3164, 4033>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<2095, 3362, 3745, 1400>>, -4>>, <<-1, <<2095, 3362, 3745, 1400>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<2272, 1600, 3164, 4033>>, -4>>, <<-1, <<176, 2334, 3514, 2632>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<0, <<>>, 0>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2752, 3165, 1903, 2214>>, -4>>, <<1, <<352, 1911, 3492, 3725>>, -4>>, <<1, <<535, 540, 1264, 4054>>, -4>>, <<1, <<325, 3485, 2253, 3095>>, -4>>, <<1, <<2614, 3933, 3999, 1153>>, -4>>, <<-1, <<2614, 3933, 3999, 1153>>, -4>>, <<-1, <<325, 3485, 2253, 3095>>, -4>>, <<-1, <<535, 540, 1264, 4054>>, -4>>, <<-1, <<352, 1911, 3492, 3725>>, -4>>, <<-1, <<2752, 3165, 1903, 2214>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2048>>, -1>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<1>>, 0>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<2048>>, -1>>, <<0, <<>>, 0>>, <<-1, <<2048>>, -1>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<2048>>, -1>>>>,
  <<<<0, <<>>, 0>>, <<1, <<3857, 153, 2073, 1903>>, -4>>, <<1, <<1566, 338, 3858, 3370>>, -4>>, <<1, <<827, 843, 555, 4066>>, -4>>, <<1, <<10, 1913, 3385, 3829>>, -4>>, <<1, <<380, 294, 616, 2716>>, -4>>, <<1, <<2331, 2424, 970, 980>>, -4>>, <<-1, <<2331, 2424, 970, 980>>, -4>>, <<-1, <<380, 294, 616, 2716>>, -4>>, <<-1, <<10, 1913, 3385, 3829>>, -4>>, <<-1, <<827, 843, 555, 4066>>, -4>>, <<-1, <<1566, 338, 3858, 3370>>, -4>>, <<-1, <<3857, 153, 2073, 1903>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<1711, 860, 769, 1777>>, -4>>, <<1, <<3826, 2690, 1563, 3202>>, -4>>, <<1, <<1867, 684, 1248, 3993>>, -4>>, <<1, <<1867, 684, 1248, 3993>>, -4>>, <<1, <<3826, 2690, 1563, 3202>>, -4>>, <<1, <<1711, 860, 769, 1777>>, -4>>, <<0, <<>>, 0>>, <<-1, <<1711, 860, 769, 1777>>, -4>>, <<-1, <<3826, 2690, 1563, 3202>>, -4>>, <<-1, <<1867, 684, 1248, 3993>>, -4>>, <<-1, <<1867, 684, 1248, 3993>>, -4>>, <<-1, <<3826, 2690, 1563, 3202>>, -4>>, <<-1, <<1711, 860, 769, 1777>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2155, 2113, 4068, 1665>>, -4>>, <<1, <<3574, 1049, 3773, 3043>>, -4>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<830, 2684, 2300, 4073>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<1201, 1416, 2483, 851>>, -4>>, <<-1, <<1201, 1416, 2483, 851>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<830, 2684, 2300, 4073>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<3574, 1049, 3773, 3043>>, -4>>, <<-1, <<2155, 2113, 4068, 1665>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2725, 2475, 1930, 1567>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<1130, 1945, 862, 3784>>, -4>>, <<1, <<1>>, 0>>, <<1, <<1130, 1945, 862, 3784>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<2725, 2475, 1930, 1567>>, -4>>, <<0, <<>>, 0>>, <<-1, <<2725, 2475, 1930, 1567>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<1130, 1945, 862, 3784>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<1130, 1945, 862, 3784>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<2725, 2475, 1930, 1567>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2547, 1891, 2645, 1479>>, -4>>, <<1, <<2925, 1358, 1873, 2759>>, -4>>, <<1, <<800, 3663, 2411, 3666>>, -4>>, <<1, <<601, 1451, 2159, 4078>>, -4>>, <<1, <<420, 2334, 2612, 3939>>, -4>>, <<1, <<47, 1613, 2779, 3268>>, -4>>, <<1, <<3819, 433, 1090, 2156>>, -4>>, <<1, <<3469, 1434, 2613, 752>>, -4>>, <<-1, <<3469, 1434, 2613, 752>>, -4>>, <<-1, <<3819, 433, 1090, 2156>>, -4>>, <<-1, <<47, 1613, 2779, 3268>>, -4>>, <<-1, <<420, 2334, 2612, 3939>>, -4>>, <<-1, <<601, 1451, 2159, 4078>>, -4>>, <<-1, <<800, 3663, 2411, 3666>>, -4>>, <<-1, <<2925, 1358, 1873, 2759>>, -4>>, <<-1, <<2547, 1891, 2645, 1479>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2095, 3362, 3745, 1400>>, -4>>, <<1, <<176, 2334, 3514, 2632>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<2272, 1600, 3164, 4033>>, -4>>, <<1, <<2272, 1600, 3164, 4033>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<176, 2334, 3514, 2632>>, -4>>, <<1, <<2095, 3362, 3745, 1400>>, -4>>, <<0, <<>>, 0>>, <<-1, <<2095, 3362, 3745, 1400>>, -4>>, <<-1, <<176, 2334, 3514, 2632>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<2272, 1600, 3164, 4033>>, -4>>, <<-1, <<2272, 1600, 3164, 4033>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<176, 2334, 3514, 2632>>, -4>>, <<-1, <<2095, 3362, 3745, 1400>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<830, 532, 3969, 1329>>, -4>>, <<1, <<2593, 1436, 3339, 2515>>, -4>>, <<1, <<495, 3415, 138, 3429>>, -4>>, <<1, <<368, 2671, 2717, 3970>>, -4>>, <<1, <<2581, 1234, 41, 4082>>, -4>>, <<1, <<2136, 3720, 30, 3751>>, -4>>, <<1, <<2544, 3955, 2150, 3013>>, -4>>, <<1, <<1519, 891, 1968, 1949>>, -4>>, <<1, <<2737, 4069, 734, 674>>, -4>>, <<-1, <<2737, 4069, 734, 674>>, -4>>, <<-1, <<1519, 891, 1968, 1949>>, -4>>, <<-1, <<2544, 3955, 2150, 3013>>, -4>>, <<-1, <<2136, 3720, 30, 3751>>, -4>>, <<-1, <<2581, 1234, 41, 4082>>, -4>>, <<-1, <<368, 2671, 2717, 3970>>, -4>>, <<-1, <<495, 3415, 138, 3429>>, -4>>, <<-1, <<2593, 1436, 3339, 2515>>, -4>>, <<-1, <<830, 532, 3969, 1329>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<4005, 3531, 3004, 3313>>, -4>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<1>>, 0>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<4005, 3531, 3004, 3313>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<4005, 3531, 3004, 1265>>, -4>>, <<0, <<>>, 0>>, <<-1, <<4005, 3531, 3004, 1265>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<4005, 3531, 3004, 3313>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<4005, 3531, 3004, 1265>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<3054, 934, 1299, 1207>>, -4>>, <<1, <<103, 1193, 1470, 2307>>, -4>>, <<1, <<3826, 2690, 1563, 3202>>, -4>>, <<1, <<444, 3890, 3517, 3812>>, -4>>, <<1, <<1814, 2053, 2239, 4084>>, -4>>, <<1, <<1867, 684, 1248, 3993>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<2908, 3845, 4044, 2785>>, -4>>, <<1, <<1711, 860, 769, 1777>>, -4>>, <<1, <<714, 1199, 1954, 610>>, -4>>, <<-1, <<714, 1199, 1954, 610>>, -4>>, <<-1, <<1711, 860, 769, 1777>>, -4>>, <<-1, <<2908, 3845, 4044, 2785>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<1867, 684, 1248, 3993>>, -4>>, <<-1, <<1814, 2053, 2239, 4084>>, -4>>, <<-1, <<444, 3890, 3517, 3812>>, -4>>, <<-1, <<3826, 2690, 1563, 3202>>, -4>>, <<-1, <<103, 1193, 1470, 2307>>, -4>>, <<-1, <<3054, 934, 1299, 1207>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2614, 3933, 3999, 1153>>, -4>>, <<1, <<2752, 3165, 1903, 2214>>, -4>>, <<1, <<325, 3485, 2253, 3095>>, -4>>, <<1, <<352, 1911, 3492, 3725>>, -4>>, <<1, <<535, 540, 1264, 4054>>, -4>>, <<1, <<535, 540, 1264, 4054>>, -4>>, <<1, <<352, 1911, 3492, 3725>>, -4>>, <<1, <<325, 3485, 2253, 3095>>, -4>>, <<1, <<2752, 3165, 1903, 2214>>, -4>>, <<1, <<2614, 3933, 3999, 1153>>, -4>>, <<0, <<>>, 0>>, <<-1, <<2614, 3933, 3999, 1153>>, -4>>, <<-1, <<2752, 3165, 1903, 2214>>, -4>>, <<-1, <<325, 3485, 2253, 3095>>, -4>>, <<-1, <<352, 1911, 3492, 3725>>, -4>>, <<-1, <<535, 540, 1264, 4054>>, -4>>, <<-1, <<535, 540, 1264, 4054>>, -4>>, <<-1, <<352, 1911, 3492, 3725>>, -4>>, <<-1, <<325, 3485, 2253, 3095>>, -4>>, <<-1, <<2752, 3165, 1903, 2214>>, -4>>, <<-1, <<2614, 3933, 3999, 1153>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<3985, 2890, 358, 1105>>, -4>>, <<1, <<3518, 654, 884, 2128>>, -4>>, <<1, <<174, 3413, 2064, 2993>>, -4>>, <<1, <<984, 378, 3186, 3636>>, -4>>, <<1, <<299, 906, 1345, 4010>>, -4>>, <<1, <<2551, 1790, 1848, 4086>>, -4>>, <<1, <<3220, 76, 2051, 3859>>, -4>>, <<1, <<3045, 1476, 1264, 3346>>, -4>>, <<1, <<1983, 3100, 3834, 2584>>, -4>>, <<1, <<1170, 569, 3485, 1631>>, -4>>, <<1, <<3230, 1162, 3025, 557>>, -4>>, <<-1, <<3230, 1162, 3025, 557>>, -4>>, <<-1, <<1170, 569, 3485, 1631>>, -4>>, <<-1, <<1983, 3100, 3834, 2584>>, -4>>, <<-1, <<3045, 1476, 1264, 3346>>, -4>>, <<-1, <<3220, 76, 2051, 3859>>, -4>>, <<-1, <<2551, 1790, 1848, 4086>>, -4>>, <<-1, <<299, 906, 1345, 4010>>, -4>>, <<-1, <<984, 378, 3186, 3636>>, -4>>, <<-1, <<174, 3413, 2064, 2993>>, -4>>, <<-1, <<3518, 654, 884, 2128>>, -4>>, <<-1, <<3985, 2890, 358, 1105>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<3098, 100, 503, 1060>>, -4>>, <<1, <<2048>>, -1>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<1528, 932, 1770, 3956>>, -4>>, <<1, <<1>>, 0>>, <<1, <<1528, 932, 1770, 3956>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<2048>>, -1>>, <<1, <<3098, 100, 503, 1060>>, -4>>, <<0, <<>>, 0>>, <<-1, <<3098, 100, 503, 1060>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<1528, 932, 1770, 3956>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<1528, 932, 1770, 3956>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<2048>>, -1>>, <<-1, <<3098, 100, 503, 1060>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2063, 3907, 2595, 1018>>, -4>>, <<1, <<3749, 1839, 1077, 1973>>, -4>>, <<1, <<2304, 2696, 3706, 2803>>, -4>>, <<1, <<372, 4018, 1503, 3458>>, -4>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<543, 4082, 3757, 4087>>, -4>>, <<1, <<2127, 1554, 1837, 4023>>, -4>>, <<1, <<172, 3694, 702, 3706>>, -4>>, <<1, <<2911, 429, 91, 3156>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<676, 554, 3433, 1507>>, -4>>, <<1, <<695, 2996, 1494, 513>>, -4>>, <<-1, <<695, 2996, 1494, 513>>, -4>>, <<-1, <<676, 554, 3433, 1507>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<2911, 429, 91, 3156>>, -4>>, <<-1, <<172, 3694, 702, 3706>>, -4>>, <<-1, <<2127, 1554, 1837, 4023>>, -4>>, <<-1, <<543, 4082, 3757, 4087>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<372, 4018, 1503, 3458>>, -4>>, <<-1, <<2304, 2696, 3706, 2803>>, -4>>, <<-1, <<3749, 1839, 1077, 1973>>, -4>>, <<-1, <<2063, 3907, 2595, 1018>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<2331, 2424, 970, 980>>, -4>>, <<1, <<3857, 153, 2073, 1903>>, -4>>, <<1, <<380, 294, 616, 2716>>, -4>>, <<1, <<1566, 338, 3858, 3370>>, -4>>, <<1, <<10, 1913, 3385, 3829>>, -4>>, <<1, <<827, 843, 555, 4066>>, -4>>, <<1, <<827, 843, 555, 4066>>, -4>>, <<1, <<10, 1913, 3385, 3829>>, -4>>, <<1, <<1566, 338, 3858, 3370>>, -4>>, <<1, <<380, 294, 616, 2716>>, -4>>, <<1, <<3857, 153, 2073, 1903>>, -4>>, <<1, <<2331, 2424, 970, 980>>, -4>>, <<0, <<>>, 0>>, <<-1, <<2331, 2424, 970, 980>>, -4>>, <<-1, <<3857, 153, 2073, 1903>>, -4>>, <<-1, <<380, 294, 616, 2716>>, -4>>, <<-1, <<1566, 338, 3858, 3370>>, -4>>, <<-1, <<10, 1913, 3385, 3829>>, -4>>, <<-1, <<827, 843, 555, 4066>>, -4>>, <<-1, <<827, 843, 555, 4066>>, -4>>, <<-1, <<10, 1913, 3385, 3829>>, -4>>, <<-1, <<1566, 338, 3858, 3370>>, -4>>, <<-1, <<380, 294, 616, 2716>>, -4>>, <<-1, <<3857, 153, 2073, 1903>>, -4>>, <<-1, <<2331, 2424, 970, 980>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<1792, 1132, 2468, 944>>, -4>>, <<1, <<3774, 3222, 1152, 1838>>, -4>>, <<1, <<176, 2334, 3514, 2632>>, -4>>, <<1, <<3834, 259, 2034, 3285>>, -4>>, <<1, <<1554, 3931, 53, 3761>>, -4>>, <<1, <<2272, 1600, 3164, 4033>>, -4>>, <<1, <<2791, 2481, 287, 4089>>, -4>>, <<1, <<3670, 3988, 3788, 3923>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<1878, 2856, 1320, 2979>>, -4>>, <<1, <<3112, 3354, 3230, 2250>>, -4>>, <<1, <<2095, 3362, 3745, 1400>>, -4>>, <<1, <<1815, 3671, 2115, 475>>, -4>>, <<-1, <<1815, 3671, 2115, 475>>, -4>>, <<-1, <<2095, 3362, 3745, 1400>>, -4>>, <<-1, <<3112, 3354, 3230, 2250>>, -4>>, <<-1, <<1878, 2856, 1320, 2979>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<3670, 3988, 3788, 3923>>, -4>>, <<-1, <<2791, 2481, 287, 4089>>, -4>>, <<-1, <<2272, 1600, 3164, 4033>>, -4>>, <<-1, <<1554, 3931, 53, 3761>>, -4>>, <<-1, <<3834, 259, 2034, 3285>>, -4>>, <<-1, <<176, 2334, 3514, 2632>>, -4>>, <<-1, <<3774, 3222, 1152, 1838>>, -4>>, <<-1, <<1792, 1132, 2468, 944>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<1163, 3168, 1825, 911>>, -4>>, <<1, <<1711, 860, 769, 1777>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<1, <<3826, 2690, 1563, 3202>>, -4>>, <<1, <<2787, 1253, 1509, 3690>>, -4>>, <<1, <<1867, 684, 1248, 3993>>, -4>>, <<1, <<1>>, 0>>, <<1, <<1867, 684, 1248, 3993>>, -4>>, <<1, <<2787, 1253, 1509, 3690>>, -4>>, <<1, <<3826, 2690, 1563, 3202>>, -4>>, <<1, <<3950, 325, 3335, 2553>>, -4>>, <<1, <<1711, 860, 769, 1777>>, -4>>, <<1, <<1163, 3168, 1825, 911>>, -4>>, <<0, <<>>, 0>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>, <<-1, <<1711, 860, 769, 1777>>, -4>>, <<-1, <<3950, 325, 3335, 2553>>, -4>>, <<-1, <<3826, 2690, 1563, 3202>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<1867, 684, 1248, 3993>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<1867, 684, 1248, 3993>>, -4>>, <<-1, <<2787, 1253, 1509, 3690>>, -4>>, <<-1, <<3826, 2690, 1563, 3202>>, -4>>, <<-1, <<3950, 325, 3335, 2553>>, -4>>, <<-1, <<1711, 860, 769, 1777>>, -4>>, <<-1, <<1163, 3168, 1825, 911>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<37, 2085, 2125, 880>>, -4>>, <<1, <<1517, 626, 3546, 1719>>, -4>>, <<1, <<962, 2154, 3250, 2478>>, -4>>, <<1, <<1661, 1744, 3341, 3121>>, -4>>, <<1, <<1164, 1672, 3544, 3618>>, -4>>, <<1, <<3677, 1438, 2870, 3946>>, -4>>, <<1, <<1068, 3143, 4066, 4089>>, -4>>, <<1, <<1065, 2962, 169, 4042>>, -4>>, <<1, <<3012, 357, 363, 3805>>, -4>>, <<1, <<1988, 421, 877, 3390>>, -4>>, <<1, <<154, 1492, 3346, 2816>>, -4>>, <<1, <<1767, 1726, 2902, 2111>>, -4>>, <<1, <<3885, 3031, 3518, 1307>>, -4>>, <<1, <<1241, 515, 3504, 442>>, -4>>, <<-1, <<1241, 515, 3504, 442>>, -4>>, <<-1, <<3885, 3031, 3518, 1307>>, -4>>, <<-1, <<1767, 1726, 2902, 2111>>, -4>>, <<-1, <<154, 1492, 3346, 2816>>, -4>>, <<-1, <<1988, 421, 877, 3390>>, -4>>, <<-1, <<3012, 357, 363, 3805>>, -4>>, <<-1, <<1065, 2962, 169, 4042>>, -4>>, <<-1, <<1068, 3143, 4066, 4089>>, -4>>, <<-1, <<3677, 1438, 2870, 3946>>, -4>>, <<-1, <<1164, 1672, 3544, 3618>>, -4>>, <<-1, <<1661, 1744, 3341, 3121>>, -4>>, <<-1, <<962, 2154, 3250, 2478>>, -4>>, <<-1, <<1517, 626, 3546, 1719>>, -4>>, <<-1, <<37, 2085, 2125, 880>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<1201, 1416, 2483, 851>>, -4>>, <<1, <<2155, 2113, 4068, 1665>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<3574, 1049, 3773, 3043>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<830, 2684, 2300, 4073>>, -4>>, <<1, <<830, 2684, 2300, 4073>>, -4>>, <<1, <<679, 2466, 2160, 3895>>, -4>>, <<1, <<613, 1068, 983, 3547>>, -4>>, <<1, <<3574, 1049, 3773, 3043>>, -4>>, <<1, <<2770, 570, 2328, 2407>>, -4>>, <<1, <<2155, 2113, 4068, 1665>>, -4>>, <<1, <<1201, 1416, 2483, 851>>, -4>>, <<0, <<>>, 0>>, <<-1, <<1201, 1416, 2483, 851>>, -4>>, <<-1, <<2155, 2113, 4068, 1665>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<3574, 1049, 3773, 3043>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<830, 2684, 2300, 4073>>, -4>>, <<-1, <<830, 2684, 2300, 4073>>, -4>>, <<-1, <<679, 2466, 2160, 3895>>, -4>>, <<-1, <<613, 1068, 983, 3547>>, -4>>, <<-1, <<3574, 1049, 3773, 3043>>, -4>>, <<-1, <<2770, 570, 2328, 2407>>, -4>>, <<-1, <<2155, 2113, 4068, 1665>>, -4>>, <<-1, <<1201, 1416, 2483, 851>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<917, 3080, 2124, 824>>, -4>>, <<1, <<676, 1483, 1153, 1615>>, -4>>, <<1, <<912, 977, 3746, 2339>>, -4>>, <<1, <<1687, 600, 3077, 2968>>, -4>>, <<1, <<206, 62, 192, 3476>>, -4>>, <<1, <<883, 309, 134, 3841>>, -4>>, <<1, <<3844, 2401, 3138, 4048>>, -4>>, <<1, <<1639, 2308, 3042, 4090>>, -4>>, <<1, <<2375, 3800, 998, 3965>>, -4>>, <<1, <<2075, 2810, 1668, 3677>>, -4>>, <<1, <<3618, 1417, 71, 3239>>, -4>>, <<1, <<3687, 3436, 88, 2668>>, -4>>, <<1, <<367, 3484, 3263, 1987>>, -4>>, <<1, <<3211, 3180, 783, 1226>>, -4>>, <<1, <<964, 3237, 1578, 414>>, -4>>, <<-1, <<964, 3237, 1578, 414>>, -4>>, <<-1, <<3211, 3180, 783, 1226>>, -4>>, <<-1, <<367, 3484, 3263, 1987>>, -4>>, <<-1, <<3687, 3436, 88, 2668>>, -4>>, <<-1, <<3618, 1417, 71, 3239>>, -4>>, <<-1, <<2075, 2810, 1668, 3677>>, -4>>, <<-1, <<2375, 3800, 998, 3965>>, -4>>, <<-1, <<1639, 2308, 3042, 4090>>, -4>>, <<-1, <<3844, 2401, 3138, 4048>>, -4>>, <<-1, <<883, 309, 134, 3841>>, -4>>, <<-1, <<206, 62, 192, 3476>>, -4>>, <<-1, <<1687, 600, 3077, 2968>>, -4>>, <<-1, <<912, 977, 3746, 2339>>, -4>>, <<-1, <<676, 1483, 1153, 1615>>, -4>>, <<-1, <<917, 3080, 2124, 824>>, -4>>>>,
  <<<<0, <<>>, 0>>, <<1, <<844, 1933, 368, 799>>, -4>>, <<1, <<2725, 2475, 1930, 1567>>, -4>>, <<1, <<838, 3287, 2521, 2275>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<1293, 1159, 2865, 3405>>, -4>>, <<1, <<1130, 1945, 862, 3784>>, -4>>, <<1, <<2789, 2043, 1214, 4017>>, -4>>, <<1, <<1>>, 0>>, <<1, <<2789, 2043, 1214, 4017>>, -4>>, <<1, <<1130, 1945, 862, 3784>>, -4>>, <<1, <<1293, 1159, 2865, 3405>>, -4>>, <<1, <<2526, 831, 1267, 2896>>, -4>>, <<1, <<838, 3287, 2521, 2275>>, -4>>, <<1, <<2725, 2475, 1930, 1567>>, -4>>, <<1, <<844, 1933, 368, 799>>, -4>>, <<0, <<>>, 0>>, <<-1, <<844, 1933, 368, 799>>, -4>>, <<-1, <<2725, 2475, 1930, 1567>>, -4>>, <<-1, <<838, 3287, 2521, 2275>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<1293, 1159, 2865, 3405>>, -4>>, <<-1, <<1130, 1945, 862, 3784>>, -4>>, <<-1, <<2789, 2043, 1214, 4017>>, -4>>, <<-1, <<1>>, 0>>, <<-1, <<2789, 2043, 1214, 4017>>, -4>>, <<-1, <<1130, 1945, 862, 3784>>, -4>>, <<-1, <<1293, 1159, 2865, 3405>>, -4>>, <<-1, <<2526, 831, 1267, 2896>>, -4>>, <<-1, <<838, 3287, 2521, 2275>>, -4>>, <<-1, <<2725, 2475, 1930, 1567>>, -4>>, <<-1, <<844, 1933, 368, 799>>, -4>>>>>>
Recips == {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 30, 56, 90, 132, 182, 240}
\* reciprocals (gaps are zero)
DRcp == <<
  <<0, <<>>, 0>>,
  <<1, <<2048>>, -1>>,
  <<1, <<1365, 1365, 1365, 1365, 1365, 1365, 1365, 1365>>, -8>>,
  <<1, <<1024>>, -1>>,
  <<1, <<819, 819, 819, 819, 819, 819, 819, 819>>, -8>>,
  <<1, <<2730, 2730, 2730, 2730, 2730, 2730, 2730, 682>>, -8>>,
  <<1, <<585, 585, 585, 585, 585, 585, 585, 585>>, -8>>,
  <<1, <<512>>, -1>>,
  <<1, <<455, 455, 455, 455, 455, 455, 455, 455>>, -8>>,
  <<1, <<2457, 2457, 2457, 2457, 2457, 2457, 2457, 409>>, -8>>,
  <<1, <<1861, 1489, 372, 1117, 3351, 1861, 1489, 372>>, -8>>,
  <<1, <<1365, 1365, 1365, 1365, 1365, 1365, 1365, 341>>, -8>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<1, <<2184, 2184, 2184, 2184, 2184, 2184, 2184, 136>>, -8>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<1, <<585, 585, 585, 585, 585, 585, 585, 73>>, -8>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<1, <<2093, 2093, 2093, 2093, 2093, 2093, 2093, 45>>, -8>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<1, <<496, 124, 3103, 3847, 1985, 496, 124, 31>>, -8>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<1, <<2070, 2070, 2070, 2070, 2070, 2070, 2070, 22>>, -8>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<0, <<>>, 0>>,
  <<1, <<273, 273, 273, 273, 273, 273, 273, 17>>, -8>>>>
DPi == <<1, <<787, 141, 1443, 2184, 3946, 579, 3>>, -6>>
DLn2 == <<1, <<3643, 3017, 1946, 463, 3965, 535, 2839>>, -7>>
=============================================================================
