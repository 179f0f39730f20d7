-------------------------------- MODULE ITU --------------------------------
(* The tables of ITU-R P.838-3 (2005) and P.838-2 (2003): frequencies in 0.5 GHz, k in 1e-8, alpha in 1e-4. *)
EXTENDS Integers
F2005  == <<2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94, 96, 98, 100, 102, 104, 106, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126, 128, 130, 132, 134, 136, 138, 140, 142, 144, 146, 148, 150, 152, 154, 156, 158, 160, 162, 164, 166, 168, 170, 172, 174, 176, 178, 180, 182, 184, 186, 188, 190, 192, 194, 196, 198, 200>>
KH2005 == <<2590, 4430, 8470, 13210, 13900, 11550, 10710, 13400, 21620, 39090, 70560, 191500, 411500, 753500, 1217000, 1772000, 2386000, 3041000, 3738000, 4481000, 5282000, 6146000, 7078000, 8084000, 9164000, 10320000, 11550000, 12860000, 14250000, 15710000, 17240000, 18840000, 20510000, 22240000, 24030000, 25880000, 27780000, 29720000, 31710000, 33740000, 35800000, 37890000, 40010000, 42150000, 44310000, 46470000, 48650000, 50840000, 53020000, 55210000, 57380000, 59560000, 61720000, 63860000, 66000000, 68110000, 70200000, 72280000, 74330000, 76350000, 78350000, 80320000, 82260000, 84180000, 86060000, 87910000, 89740000, 91530000, 93280000, 95010000, 96700000, 98360000, 99990000, 101590000, 103150000, 104680000, 106180000, 107640000, 109080000, 110480000, 111850000, 113200000, 114510000, 115790000, 117040000, 118270000, 119460000, 120630000, 121770000, 122890000, 123980000, 125040000, 126070000, 127080000, 128070000, 129030000, 129970000, 130890000, 131790000, 132660000, 133510000, 134340000, 135150000, 135940000, 136710000>>
KV2005 == <<3080, 5740, 9980, 14640, 19420, 23460, 24610, 23470, 24280, 31150, 48780, 142500, 345000, 669100, 1129000, 1731000, 2455000, 3266000, 4126000, 5008000, 5899000, 6797000, 7708000, 8642000, 9611000, 10630000, 11700000, 12840000, 14040000, 15330000, 16690000, 18130000, 19640000, 21240000, 22910000, 24650000, 26460000, 28330000, 30260000, 32240000, 34270000, 36330000, 38440000, 40580000, 42740000, 44920000, 47120000, 49320000, 51530000, 53750000, 55960000, 58170000, 60370000, 62550000, 64720000, 66870000, 69010000, 71120000, 73210000, 75270000, 77300000, 79310000, 81290000, 83240000, 85150000, 87040000, 88890000, 90710000, 92500000, 94250000, 95980000, 97670000, 99320000, 100940000, 102530000, 104090000, 105610000, 107110000, 108570000, 110000000, 111390000, 112760000, 114100000, 115410000, 116680000, 117930000, 119150000, 120340000, 121510000, 122650000, 123760000, 124840000, 125900000, 126940000, 127950000, 128930000, 129890000, 130830000, 131750000, 132650000, 133520000, 134370000, 135200000, 136010000, 136800000>>
AH2005 == <<9691, 10185, 10664, 11209, 12322, 14189, 16009, 16948, 16969, 16499, 15900, 14810, 13905, 13155, 12571, 12140, 11825, 11586, 11396, 11233, 11086, 10949, 10818, 10691, 10568, 10447, 10329, 10214, 10101, 9991, 9884, 9780, 9679, 9580, 9485, 9392, 9302, 9214, 9129, 9047, 8967, 8890, 8816, 8743, 8673, 8605, 8539, 8476, 8414, 8355, 8297, 8241, 8187, 8134, 8084, 8034, 7987, 7941, 7896, 7853, 7811, 7771, 7731, 7693, 7656, 7621, 7586, 7552, 7520, 7488, 7458, 7428, 7400, 7372, 7345, 7318, 7293, 7268, 7244, 7221, 7199, 7177, 7156, 7135, 7115, 7096, 7077, 7058, 7040, 7023, 7006, 6990, 6974, 6959, 6944, 6929, 6915, 6901, 6888, 6875, 6862, 6850, 6838, 6826, 6815>>
AV2005 == <<8592, 8957, 9490, 10085, 10688, 11387, 12476, 13987, 15317, 15882, 15728, 14745, 13797, 12895, 12156, 11617, 11216, 10901, 10646, 10440, 10273, 10137, 10025, 9930, 9847, 9771, 9700, 9630, 9561, 9491, 9421, 9349, 9277, 9203, 9129, 9055, 8981, 8907, 8834, 8761, 8690, 8621, 8552, 8486, 8421, 8357, 8296, 8236, 8179, 8123, 8069, 8017, 7967, 7918, 7871, 7826, 7783, 7741, 7700, 7661, 7623, 7587, 7552, 7518, 7486, 7454, 7424, 7395, 7366, 7339, 7313, 7287, 7262, 7238, 7215, 7193, 7171, 7150, 7130, 7110, 7091, 7073, 7055, 7038, 7021, 7004, 6988, 6973, 6958, 6943, 6929, 6915, 6902, 6889, 6876, 6864, 6852, 6840, 6828, 6817, 6806, 6796, 6785, 6775, 6765>>
F2003  == <<2, 4, 8, 12, 14, 16, 20, 24, 30, 40, 50, 60, 70, 80, 90, 100, 120, 140, 160, 180, 200>>
KH2003 == <<3870, 20000, 60000, 180000, 300000, 450000, 1010000, 1880000, 3670000, 7510000, 12400000, 18700000, 26300000, 35000000, 44200000, 53600000, 70700000, 85100000, 97500000, 106000000, 112000000>>
KV2003 == <<3520, 10000, 60000, 160000, 260000, 400000, 890000, 1680000, 3350000, 6910000, 11300000, 16700000, 23300000, 31000000, 39300000, 47900000, 64200000, 78400000, 90600000, 99900000, 106000000>>
AH2003 == <<9120, 9630, 11210, 13080, 13320, 13270, 12760, 12170, 11540, 10990, 10610, 10210, 9790, 9390, 9030, 8730, 8260, 7930, 7690, 7530, 7430>>
AV2003 == <<8800, 9230, 10750, 12650, 13120, 13100, 12640, 12000, 11280, 10650, 10300, 10000, 9630, 9290, 8970, 8680, 8240, 7930, 7690, 7540, 7440>>
=============================================================================
