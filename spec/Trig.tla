-------------------------------- MODULE Trig --------------------------------
(* Integer geometry.  Angles are in 1/10000 radian.  (generated: tools/mktrig.py) *)
EXTENDS Integers, Sequences

Turn == 62832
Pi == 31416
HalfPi == 15708

\* AtanTable[k + 1] = arctan(k / 2048)
AtanTable == <<
  0, 5, 10, 15, 20, 24, 29, 34, 39, 44, 49, 54, 59, 63, 68, 73, 78, 83, 88, 93,
  98, 103, 107, 112, 117, 122, 127, 132, 137, 142, 146, 151, 156, 161, 166, 171, 176, 181, 186, 190,
  195, 200, 205, 210, 215, 220, 225, 229, 234, 239, 244, 249, 254, 259, 264, 268, 273, 278, 283, 288,
  293, 298, 303, 308, 312, 317, 322, 327, 332, 337, 342, 347, 351, 356, 361, 366, 371, 376, 381, 386,
  390, 395, 400, 405, 410, 415, 420, 425, 429, 434, 439, 444, 449, 454, 459, 464, 468, 473, 478, 483,
  488, 493, 498, 503, 507, 512, 517, 522, 527, 532, 537, 541, 546, 551, 556, 561, 566, 571, 576, 580,
  585, 590, 595, 600, 605, 610, 614, 619, 624, 629, 634, 639, 644, 649, 653, 658, 663, 668, 673, 678,
  683, 687, 692, 697, 702, 707, 712, 717, 721, 726, 731, 736, 741, 746, 751, 755, 760, 765, 770, 775,
  780, 785, 789, 794, 799, 804, 809, 814, 818, 823, 828, 833, 838, 843, 848, 852, 857, 862, 867, 872,
  877, 881, 886, 891, 896, 901, 906, 911, 915, 920, 925, 930, 935, 940, 944, 949, 954, 959, 964, 969,
  973, 978, 983, 988, 993, 998, 1002, 1007, 1012, 1017, 1022, 1027, 1031, 1036, 1041, 1046, 1051, 1056, 1060, 1065,
  1070, 1075, 1080, 1085, 1089, 1094, 1099, 1104, 1109, 1114, 1118, 1123, 1128, 1133, 1138, 1142, 1147, 1152, 1157, 1162,
  1167, 1171, 1176, 1181, 1186, 1191, 1195, 1200, 1205, 1210, 1215, 1220, 1224, 1229, 1234, 1239, 1244, 1248, 1253, 1258,
  1263, 1268, 1272, 1277, 1282, 1287, 1292, 1296, 1301, 1306, 1311, 1316, 1320, 1325, 1330, 1335, 1340, 1344, 1349, 1354,
  1359, 1364, 1368, 1373, 1378, 1383, 1388, 1392, 1397, 1402, 1407, 1411, 1416, 1421, 1426, 1431, 1435, 1440, 1445, 1450,
  1454, 1459, 1464, 1469, 1474, 1478, 1483, 1488, 1493, 1497, 1502, 1507, 1512, 1517, 1521, 1526, 1531, 1536, 1540, 1545,
  1550, 1555, 1559, 1564, 1569, 1574, 1579, 1583, 1588, 1593, 1598, 1602, 1607, 1612, 1617, 1621, 1626, 1631, 1636, 1640,
  1645, 1650, 1655, 1659, 1664, 1669, 1674, 1678, 1683, 1688, 1693, 1697, 1702, 1707, 1712, 1716, 1721, 1726, 1731, 1735,
  1740, 1745, 1750, 1754, 1759, 1764, 1768, 1773, 1778, 1783, 1787, 1792, 1797, 1802, 1806, 1811, 1816, 1820, 1825, 1830,
  1835, 1839, 1844, 1849, 1853, 1858, 1863, 1868, 1872, 1877, 1882, 1886, 1891, 1896, 1901, 1905, 1910, 1915, 1919, 1924,
  1929, 1934, 1938, 1943, 1948, 1952, 1957, 1962, 1966, 1971, 1976, 1981, 1985, 1990, 1995, 1999, 2004, 2009, 2013, 2018,
  2023, 2027, 2032, 2037, 2041, 2046, 2051, 2056, 2060, 2065, 2070, 2074, 2079, 2084, 2088, 2093, 2098, 2102, 2107, 2112,
  2116, 2121, 2126, 2130, 2135, 2140, 2144, 2149, 2154, 2158, 2163, 2168, 2172, 2177, 2182, 2186, 2191, 2195, 2200, 2205,
  2209, 2214, 2219, 2223, 2228, 2233, 2237, 2242, 2247, 2251, 2256, 2260, 2265, 2270, 2274, 2279, 2284, 2288, 2293, 2298,
  2302, 2307, 2311, 2316, 2321, 2325, 2330, 2335, 2339, 2344, 2348, 2353, 2358, 2362, 2367, 2372, 2376, 2381, 2385, 2390,
  2395, 2399, 2404, 2408, 2413, 2418, 2422, 2427, 2431, 2436, 2441, 2445, 2450, 2454, 2459, 2464, 2468, 2473, 2477, 2482,
  2487, 2491, 2496, 2500, 2505, 2509, 2514, 2519, 2523, 2528, 2532, 2537, 2541, 2546, 2551, 2555, 2560, 2564, 2569, 2573,
  2578, 2583, 2587, 2592, 2596, 2601, 2605, 2610, 2615, 2619, 2624, 2628, 2633, 2637, 2642, 2646, 2651, 2655, 2660, 2665,
  2669, 2674, 2678, 2683, 2687, 2692, 2696, 2701, 2705, 2710, 2715, 2719, 2724, 2728, 2733, 2737, 2742, 2746, 2751, 2755,
  2760, 2764, 2769, 2773, 2778, 2782, 2787, 2791, 2796, 2800, 2805, 2809, 2814, 2818, 2823, 2827, 2832, 2836, 2841, 2845,
  2850, 2854, 2859, 2863, 2868, 2872, 2877, 2881, 2886, 2890, 2895, 2899, 2904, 2908, 2913, 2917, 2922, 2926, 2931, 2935,
  2940, 2944, 2949, 2953, 2958, 2962, 2966, 2971, 2975, 2980, 2984, 2989, 2993, 2998, 3002, 3007, 3011, 3015, 3020, 3024,
  3029, 3033, 3038, 3042, 3047, 3051, 3056, 3060, 3064, 3069, 3073, 3078, 3082, 3087, 3091, 3095, 3100, 3104, 3109, 3113,
  3118, 3122, 3126, 3131, 3135, 3140, 3144, 3149, 3153, 3157, 3162, 3166, 3171, 3175, 3179, 3184, 3188, 3193, 3197, 3201,
  3206, 3210, 3215, 3219, 3223, 3228, 3232, 3237, 3241, 3245, 3250, 3254, 3258, 3263, 3267, 3272, 3276, 3280, 3285, 3289,
  3293, 3298, 3302, 3307, 3311, 3315, 3320, 3324, 3328, 3333, 3337, 3341, 3346, 3350, 3355, 3359, 3363, 3368, 3372, 3376,
  3381, 3385, 3389, 3394, 3398, 3402, 3407, 3411, 3415, 3420, 3424, 3428, 3433, 3437, 3441, 3446, 3450, 3454, 3459, 3463,
  3467, 3472, 3476, 3480, 3485, 3489, 3493, 3498, 3502, 3506, 3510, 3515, 3519, 3523, 3528, 3532, 3536, 3541, 3545, 3549,
  3553, 3558, 3562, 3566, 3571, 3575, 3579, 3583, 3588, 3592, 3596, 3601, 3605, 3609, 3613, 3618, 3622, 3626, 3630, 3635,
  3639, 3643, 3648, 3652, 3656, 3660, 3665, 3669, 3673, 3677, 3682, 3686, 3690, 3694, 3699, 3703, 3707, 3711, 3716, 3720,
  3724, 3728, 3732, 3737, 3741, 3745, 3749, 3754, 3758, 3762, 3766, 3770, 3775, 3779, 3783, 3787, 3792, 3796, 3800, 3804,
  3808, 3813, 3817, 3821, 3825, 3829, 3834, 3838, 3842, 3846, 3850, 3855, 3859, 3863, 3867, 3871, 3876, 3880, 3884, 3888,
  3892, 3896, 3901, 3905, 3909, 3913, 3917, 3922, 3926, 3930, 3934, 3938, 3942, 3947, 3951, 3955, 3959, 3963, 3967, 3971,
  3976, 3980, 3984, 3988, 3992, 3996, 4000, 4005, 4009, 4013, 4017, 4021, 4025, 4029, 4034, 4038, 4042, 4046, 4050, 4054,
  4058, 4062, 4067, 4071, 4075, 4079, 4083, 4087, 4091, 4095, 4099, 4104, 4108, 4112, 4116, 4120, 4124, 4128, 4132, 4136,
  4140, 4145, 4149, 4153, 4157, 4161, 4165, 4169, 4173, 4177, 4181, 4185, 4189, 4194, 4198, 4202, 4206, 4210, 4214, 4218,
  4222, 4226, 4230, 4234, 4238, 4242, 4246, 4250, 4254, 4259, 4263, 4267, 4271, 4275, 4279, 4283, 4287, 4291, 4295, 4299,
  4303, 4307, 4311, 4315, 4319, 4323, 4327, 4331, 4335, 4339, 4343, 4347, 4351, 4355, 4359, 4363, 4367, 4371, 4375, 4379,
  4383, 4387, 4391, 4395, 4399, 4403, 4407, 4411, 4415, 4419, 4423, 4427, 4431, 4435, 4439, 4443, 4447, 4451, 4455, 4459,
  4463, 4467, 4471, 4475, 4479, 4483, 4487, 4491, 4495, 4499, 4503, 4507, 4511, 4515, 4519, 4523, 4527, 4530, 4534, 4538,
  4542, 4546, 4550, 4554, 4558, 4562, 4566, 4570, 4574, 4578, 4582, 4586, 4589, 4593, 4597, 4601, 4605, 4609, 4613, 4617,
  4621, 4625, 4629, 4633, 4636, 4640, 4644, 4648, 4652, 4656, 4660, 4664, 4668, 4672, 4675, 4679, 4683, 4687, 4691, 4695,
  4699, 4703, 4707, 4710, 4714, 4718, 4722, 4726, 4730, 4734, 4738, 4741, 4745, 4749, 4753, 4757, 4761, 4765, 4768, 4772,
  4776, 4780, 4784, 4788, 4792, 4795, 4799, 4803, 4807, 4811, 4815, 4818, 4822, 4826, 4830, 4834, 4838, 4841, 4845, 4849,
  4853, 4857, 4860, 4864, 4868, 4872, 4876, 4880, 4883, 4887, 4891, 4895, 4899, 4902, 4906, 4910, 4914, 4918, 4921, 4925,
  4929, 4933, 4937, 4940, 4944, 4948, 4952, 4955, 4959, 4963, 4967, 4971, 4974, 4978, 4982, 4986, 4989, 4993, 4997, 5001,
  5004, 5008, 5012, 5016, 5019, 5023, 5027, 5031, 5034, 5038, 5042, 5046, 5049, 5053, 5057, 5061, 5064, 5068, 5072, 5076,
  5079, 5083, 5087, 5090, 5094, 5098, 5102, 5105, 5109, 5113, 5116, 5120, 5124, 5128, 5131, 5135, 5139, 5142, 5146, 5150,
  5154, 5157, 5161, 5165, 5168, 5172, 5176, 5179, 5183, 5187, 5190, 5194, 5198, 5201, 5205, 5209, 5212, 5216, 5220, 5223,
  5227, 5231, 5234, 5238, 5242, 5245, 5249, 5253, 5256, 5260, 5264, 5267, 5271, 5275, 5278, 5282, 5286, 5289, 5293, 5297,
  5300, 5304, 5307, 5311, 5315, 5318, 5322, 5326, 5329, 5333, 5336, 5340, 5344, 5347, 5351, 5355, 5358, 5362, 5365, 5369,
  5373, 5376, 5380, 5383, 5387, 5391, 5394, 5398, 5401, 5405, 5409, 5412, 5416, 5419, 5423, 5426, 5430, 5434, 5437, 5441,
  5444, 5448, 5451, 5455, 5459, 5462, 5466, 5469, 5473, 5476, 5480, 5484, 5487, 5491, 5494, 5498, 5501, 5505, 5508, 5512,
  5515, 5519, 5523, 5526, 5530, 5533, 5537, 5540, 5544, 5547, 5551, 5554, 5558, 5561, 5565, 5568, 5572, 5575, 5579, 5582,
  5586, 5590, 5593, 5597, 5600, 5604, 5607, 5611, 5614, 5618, 5621, 5625, 5628, 5632, 5635, 5638, 5642, 5645, 5649, 5652,
  5656, 5659, 5663, 5666, 5670, 5673, 5677, 5680, 5684, 5687, 5691, 5694, 5698, 5701, 5704, 5708, 5711, 5715, 5718, 5722,
  5725, 5729, 5732, 5736, 5739, 5742, 5746, 5749, 5753, 5756, 5760, 5763, 5766, 5770, 5773, 5777, 5780, 5784, 5787, 5790,
  5794, 5797, 5801, 5804, 5808, 5811, 5814, 5818, 5821, 5825, 5828, 5831, 5835, 5838, 5842, 5845, 5848, 5852, 5855, 5859,
  5862, 5865, 5869, 5872, 5876, 5879, 5882, 5886, 5889, 5892, 5896, 5899, 5903, 5906, 5909, 5913, 5916, 5919, 5923, 5926,
  5929, 5933, 5936, 5940, 5943, 5946, 5950, 5953, 5956, 5960, 5963, 5966, 5970, 5973, 5976, 5980, 5983, 5986, 5990, 5993,
  5996, 6000, 6003, 6006, 6010, 6013, 6016, 6020, 6023, 6026, 6030, 6033, 6036, 6039, 6043, 6046, 6049, 6053, 6056, 6059,
  6063, 6066, 6069, 6072, 6076, 6079, 6082, 6086, 6089, 6092, 6095, 6099, 6102, 6105, 6109, 6112, 6115, 6118, 6122, 6125,
  6128, 6131, 6135, 6138, 6141, 6145, 6148, 6151, 6154, 6158, 6161, 6164, 6167, 6171, 6174, 6177, 6180, 6184, 6187, 6190,
  6193, 6196, 6200, 6203, 6206, 6209, 6213, 6216, 6219, 6222, 6226, 6229, 6232, 6235, 6238, 6242, 6245, 6248, 6251, 6254,
  6258, 6261, 6264, 6267, 6271, 6274, 6277, 6280, 6283, 6287, 6290, 6293, 6296, 6299, 6302, 6306, 6309, 6312, 6315, 6318,
  6322, 6325, 6328, 6331, 6334, 6337, 6341, 6344, 6347, 6350, 6353, 6356, 6360, 6363, 6366, 6369, 6372, 6375, 6379, 6382,
  6385, 6388, 6391, 6394, 6397, 6401, 6404, 6407, 6410, 6413, 6416, 6419, 6422, 6426, 6429, 6432, 6435, 6438, 6441, 6444,
  6447, 6451, 6454, 6457, 6460, 6463, 6466, 6469, 6472, 6476, 6479, 6482, 6485, 6488, 6491, 6494, 6497, 6500, 6503, 6506,
  6510, 6513, 6516, 6519, 6522, 6525, 6528, 6531, 6534, 6537, 6540, 6543, 6547, 6550, 6553, 6556, 6559, 6562, 6565, 6568,
  6571, 6574, 6577, 6580, 6583, 6586, 6589, 6592, 6596, 6599, 6602, 6605, 6608, 6611, 6614, 6617, 6620, 6623, 6626, 6629,
  6632, 6635, 6638, 6641, 6644, 6647, 6650, 6653, 6656, 6659, 6662, 6665, 6668, 6671, 6674, 6677, 6680, 6683, 6686, 6689,
  6692, 6695, 6698, 6701, 6704, 6707, 6710, 6713, 6716, 6719, 6722, 6725, 6728, 6731, 6734, 6737, 6740, 6743, 6746, 6749,
  6752, 6755, 6758, 6761, 6764, 6767, 6770, 6773, 6776, 6779, 6782, 6785, 6788, 6791, 6794, 6797, 6800, 6803, 6805, 6808,
  6811, 6814, 6817, 6820, 6823, 6826, 6829, 6832, 6835, 6838, 6841, 6844, 6847, 6850, 6853, 6855, 6858, 6861, 6864, 6867,
  6870, 6873, 6876, 6879, 6882, 6885, 6888, 6890, 6893, 6896, 6899, 6902, 6905, 6908, 6911, 6914, 6917, 6919, 6922, 6925,
  6928, 6931, 6934, 6937, 6940, 6943, 6945, 6948, 6951, 6954, 6957, 6960, 6963, 6966, 6968, 6971, 6974, 6977, 6980, 6983,
  6986, 6989, 6991, 6994, 6997, 7000, 7003, 7006, 7009, 7011, 7014, 7017, 7020, 7023, 7026, 7028, 7031, 7034, 7037, 7040,
  7043, 7046, 7048, 7051, 7054, 7057, 7060, 7062, 7065, 7068, 7071, 7074, 7077, 7079, 7082, 7085, 7088, 7091, 7093, 7096,
  7099, 7102, 7105, 7108, 7110, 7113, 7116, 7119, 7122, 7124, 7127, 7130, 7133, 7136, 7138, 7141, 7144, 7147, 7149, 7152,
  7155, 7158, 7161, 7163, 7166, 7169, 7172, 7174, 7177, 7180, 7183, 7186, 7188, 7191, 7194, 7197, 7199, 7202, 7205, 7208,
  7210, 7213, 7216, 7219, 7221, 7224, 7227, 7230, 7232, 7235, 7238, 7241, 7243, 7246, 7249, 7252, 7254, 7257, 7260, 7262,
  7265, 7268, 7271, 7273, 7276, 7279, 7282, 7284, 7287, 7290, 7292, 7295, 7298, 7301, 7303, 7306, 7309, 7311, 7314, 7317,
  7320, 7322, 7325, 7328, 7330, 7333, 7336, 7338, 7341, 7344, 7346, 7349, 7352, 7355, 7357, 7360, 7363, 7365, 7368, 7371,
  7373, 7376, 7379, 7381, 7384, 7387, 7389, 7392, 7395, 7397, 7400, 7403, 7405, 7408, 7411, 7413, 7416, 7419, 7421, 7424,
  7427, 7429, 7432, 7434, 7437, 7440, 7442, 7445, 7448, 7450, 7453, 7456, 7458, 7461, 7464, 7466, 7469, 7471, 7474, 7477,
  7479, 7482, 7485, 7487, 7490, 7492, 7495, 7498, 7500, 7503, 7505, 7508, 7511, 7513, 7516, 7519, 7521, 7524, 7526, 7529,
  7532, 7534, 7537, 7539, 7542, 7544, 7547, 7550, 7552, 7555, 7557, 7560, 7563, 7565, 7568, 7570, 7573, 7576, 7578, 7581,
  7583, 7586, 7588, 7591, 7594, 7596, 7599, 7601, 7604, 7606, 7609, 7611, 7614, 7617, 7619, 7622, 7624, 7627, 7629, 7632,
  7634, 7637, 7640, 7642, 7645, 7647, 7650, 7652, 7655, 7657, 7660, 7662, 7665, 7667, 7670, 7673, 7675, 7678, 7680, 7683,
  7685, 7688, 7690, 7693, 7695, 7698, 7700, 7703, 7705, 7708, 7710, 7713, 7715, 7718, 7720, 7723, 7725, 7728, 7730, 7733,
  7735, 7738, 7740, 7743, 7745, 7748, 7750, 7753, 7755, 7758, 7760, 7763, 7765, 7768, 7770, 7773, 7775, 7778, 7780, 7783,
  7785, 7788, 7790, 7793, 7795, 7798, 7800, 7802, 7805, 7807, 7810, 7812, 7815, 7817, 7820, 7822, 7825, 7827, 7830, 7832,
  7834, 7837, 7839, 7842, 7844, 7847, 7849, 7852, 7854 >>

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y

\* arctan(a / b) for 0 <= a <= b, b > 0  (linear between the table's entries)
Atan(a, b) ==
  LET k == (a * 2048) \div b
      r == (a * 2048) % b
      lo == AtanTable[k + 1]
  IN IF k = 2048 THEN lo ELSE lo + ((AtanTable[k + 2] - lo) * r + b \div 2) \div b

\* Direction of the vector (x, y), in [0, Turn); 0 for the zero vector
AngleOf(x, y) ==
  LET a == Abs(x)  b == Abs(y)
      first == IF b <= a THEN Atan(b, a) ELSE HalfPi - Atan(a, b)     \* in the first quadrant
      ang == IF x >= 0 THEN (IF y >= 0 THEN first ELSE Turn - first)
             ELSE (IF y >= 0 THEN Pi - first ELSE Pi + first)
  IN IF a = 0 /\ b = 0 THEN 0 ELSE ang % Turn

Cross(p, q) == p[1] * q[2] - p[2] * q[1]
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
Norm2(p) == Dot(p, p)
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>

\* Integer square root (rounded down), of numbers below 2^31
RECURSIVE SqrtFrom(_, _)
SqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE SqrtFrom(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE SqrtFrom(n, IF n < 65536 THEN 256 ELSE 46341)

(* The point of the segment a-b closest to the origin (to within 1/1024 of    *)
(* the segment's length).                                                     *)
Closest(a, b) ==
  LET d == Minus(b, a)
      len2 == Norm2(d)
      num == -Dot(a, d)
  IN IF len2 = 0 \/ num <= 0 THEN a
     ELSE IF num >= len2 THEN b
     ELSE LET s == IF len2 >= 2000000 THEN num \div (len2 \div 1024) ELSE (num * 1024) \div len2
              t == MinI(s, 1024)
          IN << a[1] + (d[1] * t) \div 1024, a[2] + (d[2] * t) \div 1024 >>
=============================================================================
