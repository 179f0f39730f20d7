---- MODULE CosTab ----
(* generated by tools/gen_costab.py *)
EXTENDS Integers
\* cosine of 0, 0.1, ..., 90 degrees, in units of 1e-6
COS90 == <<1000000, 999998, 999994, 999986, 999976, 999962, 999945, 999925, 999903, 999877, 999848, 999816, 999781, 999743, 999701, 999657, 999610, 999560, 999507, 999450, 999391, 999328, 999263, 999194, 999123, 999048, 998971, 998890, 998806, 998719, 998630, 998537, 998441, 998342, 998240, 998135, 998027, 997916, 997801, 997684, 997564, 997441, 997314, 997185, 997053, 996917, 996779, 996637, 996493, 996345, 996195, 996041, 995884, 995725, 995562, 995396, 995227, 995056, 994881, 994703, 994522, 994338, 994151, 993961, 993768, 993572, 993373, 993171, 992966, 992757, 992546, 992332, 992115, 991894, 991671, 991445, 991216, 990983, 990748, 990509, 990268, 990024, 989776, 989526, 989272, 989016, 988756, 988494, 988228, 987960, 987688, 987414, 987136, 986856, 986572, 986286, 985996, 985703, 985408, 985109, 984808, 984503, 984196, 983885, 983571, 983255, 982935, 982613, 982287, 981959, 981627, 981293, 980955, 980615, 980271, 979925, 979575, 979223, 978867, 978509, 978148, 977783, 977416, 977046, 976672, 976296, 975917, 975535, 975149, 974761, 974370, 973976, 973579, 973179, 972776, 972370, 971961, 971549, 971134, 970716, 970296, 969872, 969445, 969016, 968583, 968148, 967709, 967268, 966823, 966376, 965926, 965473, 965016, 964557, 964095, 963630, 963163, 962692, 962218, 961741, 961262, 960779, 960294, 959805, 959314, 958820, 958323, 957822, 957319, 956814, 956305, 955793, 955278, 954761, 954240, 953717, 953191, 952661, 952129, 951594, 951057, 950516, 949972, 949425, 948876, 948324, 947768, 947210, 946649, 946085, 945519, 944949, 944376, 943801, 943223, 942641, 942057, 941471, 940881, 940288, 939693, 939094, 938493, 937889, 937282, 936672, 936060, 935444, 934826, 934204, 933580, 932954, 932324, 931691, 931056, 930418, 929776, 929133, 928486, 927836, 927184, 926529, 925871, 925210, 924546, 923880, 923210, 922538, 921863, 921185, 920505, 919821, 919135, 918446, 917755, 917060, 916363, 915663, 914960, 914254, 913545, 912834, 912120, 911403, 910684, 909961, 909236, 908508, 907777, 907044, 906308, 905569, 904827, 904083, 903335, 902585, 901833, 901077, 900319, 899558, 898794, 898028, 897258, 896486, 895712, 894934, 894154, 893371, 892586, 891798, 891007, 890213, 889416, 888617, 887815, 887011, 886204, 885394, 884581, 883766, 882948, 882127, 881303, 880477, 879649, 878817, 877983, 877146, 876307, 875465, 874620, 873772, 872922, 872069, 871214, 870356, 869495, 868632, 867765, 866897, 866025, 865151, 864275, 863396, 862514, 861629, 860742, 859852, 858960, 858065, 857167, 856267, 855364, 854459, 853551, 852640, 851727, 850811, 849893, 848972, 848048, 847122, 846193, 845262, 844328, 843391, 842452, 841511, 840567, 839620, 838671, 837719, 836764, 835807, 834848, 833886, 832921, 831954, 830984, 830012, 829038, 828060, 827081, 826098, 825113, 824126, 823136, 822144, 821149, 820152, 819152, 818150, 817145, 816138, 815128, 814116, 813101, 812084, 811064, 810042, 809017, 807990, 806960, 805928, 804894, 803857, 802817, 801776, 800731, 799685, 798636, 797584, 796530, 795473, 794415, 793353, 792290, 791224, 790155, 789084, 788011, 786935, 785857, 784776, 783693, 782608, 781520, 780430, 779338, 778243, 777146, 776046, 774944, 773840, 772734, 771625, 770513, 769400, 768284, 767165, 766044, 764921, 763796, 762668, 761538, 760406, 759271, 758134, 756995, 755853, 754710, 753563, 752415, 751264, 750111, 748956, 747798, 746638, 745476, 744312, 743145, 741976, 740805, 739631, 738455, 737277, 736097, 734915, 733730, 732543, 731354, 730162, 728969, 727773, 726575, 725374, 724172, 722967, 721760, 720551, 719340, 718126, 716911, 715693, 714473, 713250, 712026, 710799, 709571, 708340, 707107, 705872, 704634, 703395, 702153, 700909, 699663, 698415, 697165, 695913, 694658, 693402, 692143, 690882, 689620, 688355, 687088, 685818, 684547, 683274, 681998, 680721, 679441, 678160, 676876, 675590, 674302, 673013, 671721, 670427, 669131, 667833, 666532, 665230, 663926, 662620, 661312, 660002, 658689, 657375, 656059, 654741, 653421, 652098, 650774, 649448, 648120, 646790, 645458, 644124, 642788, 641450, 640110, 638768, 637424, 636078, 634731, 633381, 632029, 630676, 629320, 627963, 626604, 625243, 623880, 622515, 621148, 619779, 618408, 617036, 615661, 614285, 612907, 611527, 610145, 608761, 607376, 605988, 604599, 603208, 601815, 600420, 599024, 597625, 596225, 594823, 593419, 592013, 590606, 589196, 587785, 586372, 584958, 583541, 582123, 580703, 579281, 577858, 576432, 575005, 573576, 572146, 570714, 569280, 567844, 566406, 564967, 563526, 562083, 560639, 559193, 557745, 556296, 554844, 553392, 551937, 550481, 549023, 547563, 546102, 544639, 543174, 541708, 540240, 538771, 537300, 535827, 534352, 532876, 531399, 529919, 528438, 526956, 525472, 523986, 522499, 521010, 519519, 518027, 516533, 515038, 513541, 512043, 510543, 509041, 507538, 506034, 504528, 503020, 501511, 500000, 498488, 496974, 495459, 493942, 492424, 490904, 489382, 487860, 486335, 484810, 483282, 481754, 480223, 478692, 477159, 475624, 474088, 472551, 471012, 469472, 467930, 466387, 464842, 463296, 461749, 460200, 458650, 457098, 455545, 453990, 452435, 450878, 449319, 447759, 446198, 444635, 443071, 441506, 439939, 438371, 436802, 435231, 433659, 432086, 430511, 428935, 427358, 425779, 424199, 422618, 421036, 419452, 417867, 416281, 414693, 413104, 411514, 409923, 408330, 406737, 405142, 403545, 401948, 400349, 398749, 397148, 395546, 393942, 392337, 390731, 389124, 387516, 385906, 384295, 382683, 381070, 379456, 377841, 376224, 374607, 372988, 371368, 369747, 368125, 366501, 364877, 363251, 361625, 359997, 358368, 356738, 355107, 353475, 351842, 350207, 348572, 346936, 345298, 343660, 342020, 340380, 338738, 337095, 335452, 333807, 332161, 330514, 328867, 327218, 325568, 323917, 322266, 320613, 318959, 317305, 315649, 313992, 312335, 310676, 309017, 307357, 305695, 304033, 302370, 300706, 299041, 297375, 295708, 294040, 292372, 290702, 289032, 287361, 285688, 284015, 282341, 280667, 278991, 277315, 275637, 273959, 272280, 270600, 268920, 267238, 265556, 263873, 262189, 260505, 258819, 257133, 255446, 253758, 252069, 250380, 248690, 246999, 245307, 243615, 241922, 240228, 238533, 236838, 235142, 233445, 231748, 230050, 228351, 226651, 224951, 223250, 221548, 219846, 218143, 216440, 214735, 213030, 211325, 209619, 207912, 206204, 204496, 202787, 201078, 199368, 197657, 195946, 194234, 192522, 190809, 189095, 187381, 185667, 183951, 182236, 180519, 178802, 177085, 175367, 173648, 171929, 170209, 168489, 166769, 165048, 163326, 161604, 159881, 158158, 156434, 154710, 152986, 151261, 149535, 147809, 146083, 144356, 142629, 140901, 139173, 137445, 135716, 133986, 132256, 130526, 128796, 127065, 125333, 123601, 121869, 120137, 118404, 116671, 114937, 113203, 111469, 109734, 107999, 106264, 104528, 102793, 101056, 99320, 97583, 95846, 94108, 92371, 90633, 88894, 87156, 85417, 83678, 81939, 80199, 78459, 76719, 74979, 73238, 71497, 69756, 68015, 66274, 64532, 62791, 61049, 59306, 57564, 55822, 54079, 52336, 50593, 48850, 47106, 45363, 43619, 41876, 40132, 38388, 36644, 34899, 33155, 31411, 29666, 27922, 26177, 24432, 22687, 20942, 19197, 17452, 15707, 13962, 12217, 10472, 8727, 6981, 5236, 3491, 1745, 0>>
\* durations (in 1/100 h) with mean and amplitude (1e-6) and phase (1e-4 days) of the fourth roots of range (m) and sill
DURATIONS == {[h100 |-> 25, rm |-> 13690723, ra |-> 2432845, rp |-> 54327, sm |-> 1187939, sa |-> 334035, sp |-> 1688795],
  [h100 |-> 50, rm |-> 14571998, ra |-> 2238674, rp |-> 63276, sm |-> 998934, sa |-> 258471, sp |-> 1654040],
  [h100 |-> 100, rm |-> 15510000, ra |-> 2060000, rp |-> 73700, sm |-> 840000, sa |-> 200000, sp |-> 1620000],
  [h100 |-> 200, rm |-> 16508382, ra |-> 1895587, rp |-> 85841, sm |-> 706353, sa |-> 154756, sp |-> 1586661],
  [h100 |-> 300, rm |-> 17121930, ra |-> 1805563, rp |-> 93850, sm |-> 638262, sa |-> 133197, sp |-> 1567478],
  [h100 |-> 600, rm |-> 18224071, ra |-> 1661457, rp |-> 109310, sm |-> 536712, sa |-> 103066, sp |-> 1535219],
  [h100 |-> 1200, rm |-> 19397158, ra |-> 1528852, rp |-> 127317, sm |-> 451319, sa |-> 79750, sp |-> 1503625],
  [h100 |-> 2400, rm |-> 20645757, ra |-> 1406831, rp |-> 148291, sm |-> 379513, sa |-> 61709, sp |-> 1472681]}
====
