------------------------------- MODULE WaaTab -------------------------------
(* Transmission loss (1e-6 dB) of a water film on an antenna cover relative to the dry cover, *)
(* for frequency f (GHz), temperature T (K), cover ant and film thickness Film[i] (micrometre);*)
(* computed by tools/gen_waatab.py with 2x2 layer matrices, independent of the code under test. *)
EXTENDS Integers
Film == <<5, 10, 20, 40, 80, 160>>
Rows == <<
  [f |-> 6, T |-> 274, ant |-> 1, waa |-> <<119391, 239599, 481835, 969755, 1936407, 3735600>>],
  [f |-> 6, T |-> 274, ant |-> 2, waa |-> <<120217, 239446, 474875, 933306, 1799608, 3337968>>],
  [f |-> 6, T |-> 293, ant |-> 1, waa |-> <<86583, 175803, 361355, 755625, 1600371, 3317903>>],
  [f |-> 6, T |-> 293, ant |-> 2, waa |-> <<102277, 204621, 409236, 816543, 1613517, 3093295>>],
  [f |-> 6, T |-> 305, ant |-> 1, waa |-> <<70577, 144146, 299565, 638728, 1395102, 3010054>>],
  [f |-> 6, T |-> 305, ant |-> 2, waa |-> <<90832, 182102, 365663, 735029, 1470933, 2872741>>],
  [f |-> 10, T |-> 274, ant |-> 1, waa |-> <<203012, 403335, 795637, 1545947, 2911252, 5170589>>],
  [f |-> 10, T |-> 274, ant |-> 2, waa |-> <<122686, 243646, 480514, 934885, 1772488, 3206196>>],
  [f |-> 10, T |-> 293, ant |-> 1, waa |-> <<186549, 374145, 750588, 1498077, 2920802, 5351041>>],
  [f |-> 10, T |-> 293, ant |-> 2, waa |-> <<122623, 244132, 483709, 948609, 1819630, 3332392>>],
  [f |-> 10, T |-> 305, ant |-> 1, waa |-> <<162999, 329063, 668066, 1360006, 2725653, 5138699>>],
  [f |-> 10, T |-> 305, ant |-> 2, waa |-> <<112464, 224385, 446383, 881748, 1711110, 3181968>>],
  [f |-> 18, T |-> 274, ant |-> 1, waa |-> <<250306, 493725, 961120, 1825687, 3322685, 5650727>>],
  [f |-> 18, T |-> 274, ant |-> 2, waa |-> <<87818, 176472, 355969, 721656, 1465684, 2926121>>],
  [f |-> 18, T |-> 293, ant |-> 1, waa |-> <<311706, 615061, 1197274, 2269291, 4094987, 6818430>>],
  [f |-> 18, T |-> 293, ant |-> 2, waa |-> <<76931, 157276, 327407, 699781, 1530390, 3277419>>],
  [f |-> 18, T |-> 305, ant |-> 1, waa |-> <<311329, 616585, 1207622, 2308636, 4201984, 7020250>>],
  [f |-> 18, T |-> 305, ant |-> 2, waa |-> <<54500, 113891, 246578, 561532, 1337671, 3111988>>],
  [f |-> 23, T |-> 274, ant |-> 1, waa |-> <<239566, 472340, 918789, 1743099, 3166429, 5369384>>],
  [f |-> 23, T |-> 274, ant |-> 2, waa |-> <<163598, 328903, 663051, 1336283, 2652072, 4990944>>],
  [f |-> 23, T |-> 293, ant |-> 1, waa |-> <<327212, 643323, 1244289, 2334377, 4153277, 6798034>>],
  [f |-> 23, T |-> 293, ant |-> 2, waa |-> <<178628, 365834, 760624, 1599456, 3297726, 6229151>>],
  [f |-> 23, T |-> 305, ant |-> 1, waa |-> <<346496, 682228, 1322373, 2486204, 4422333, 7187945>>],
  [f |-> 23, T |-> 305, ant |-> 2, waa |-> <<153382, 321301, 693509, 1536194, 3335674, 6471777>>],
  [f |-> 38, T |-> 274, ant |-> 1, waa |-> <<179385, 354713, 693745, 1328792, 2450656, 4245267>>],
  [f |-> 38, T |-> 274, ant |-> 2, waa |-> <<192611, 379910, 739476, 1404053, 2550721, 4311215>>],
  [f |-> 38, T |-> 293, ant |-> 1, waa |-> <<267204, 526361, 1021811, 1929491, 3467521, 5750819>>],
  [f |-> 38, T |-> 293, ant |-> 2, waa |-> <<292691, 574145, 1106026, 2061331, 3630511, 5851794>>],
  [f |-> 38, T |-> 305, ant |-> 1, waa |-> <<304764, 600007, 1163084, 2188076, 3896971, 6337084>>],
  [f |-> 38, T |-> 305, ant |-> 2, waa |-> <<341546, 668450, 1282087, 2370382, 4116860, 6478907>>],
  [f |-> 80, T |-> 274, ant |-> 1, waa |-> <<313801, 622814, 1224041, 2350194, 4288160, 7137307>>],
  [f |-> 80, T |-> 274, ant |-> 2, waa |-> <<201981, 405585, 815293, 1631395, 3183360, 5798987>>],
  [f |-> 80, T |-> 293, ant |-> 1, waa |-> <<490667, 965118, 1863417, 3463186, 6006103, 9414279>>],
  [f |-> 80, T |-> 293, ant |-> 2, waa |-> <<326360, 652281, 1296990, 2531852, 4705880, 7990520>>],
  [f |-> 80, T |-> 305, ant |-> 1, waa |-> <<596264, 1168467, 2238313, 4097171, 6936039, 10553337>>],
  [f |-> 80, T |-> 305, ant |-> 2, waa |-> <<397047, 793086, 1572230, 3039368, 5526628, 9078910>>] >>
=============================================================================
