---------------------------- MODULE Exponential ----------------------------
(* exp(-u/100) scaled by 10^6, for u = 0..500, and linear interpolation between. *)
EXTENDS Integers
ExpTable == <<
    1000000, 990050, 980199, 970446, 960789, 951229, 941765, 932394, 923116, 913931, 904837, 895834,
    886920, 878095, 869358, 860708, 852144, 843665, 835270, 826959, 818731, 810584, 802519, 794534,
    786628, 778801, 771052, 763379, 755784, 748264, 740818, 733447, 726149, 718924, 711770, 704688,
    697676, 690734, 683861, 677057, 670320, 663650, 657047, 650509, 644036, 637628, 631284, 625002,
    618783, 612626, 606531, 600496, 594521, 588605, 582748, 576950, 571209, 565525, 559898, 554327,
    548812, 543351, 537944, 532592, 527292, 522046, 516851, 511709, 506617, 501576, 496585, 491644,
    486752, 481909, 477114, 472367, 467666, 463013, 458406, 453845, 449329, 444858, 440432, 436049,
    431711, 427415, 423162, 418952, 414783, 410656, 406570, 402524, 398519, 394554, 390628, 386741,
    382893, 379083, 375311, 371577, 367879, 364219, 360595, 357007, 353455, 349938, 346456, 343009,
    339596, 336216, 332871, 329559, 326280, 323033, 319819, 316637, 313486, 310367, 307279, 304221,
    301194, 298197, 295230, 292293, 289384, 286505, 283654, 280832, 278037, 275271, 272532, 269820,
    267135, 264477, 261846, 259240, 256661, 254107, 251579, 249075, 246597, 244143, 241714, 239309,
    236928, 234570, 232236, 229925, 227638, 225373, 223130, 220910, 218712, 216536, 214381, 212248,
    210136, 208045, 205975, 203926, 201897, 199888, 197899, 195930, 193980, 192050, 190139, 188247,
    186374, 184520, 182684, 180866, 179066, 177284, 175520, 173774, 172045, 170333, 168638, 166960,
    165299, 163654, 162026, 160414, 158817, 157237, 155673, 154124, 152590, 151072, 149569, 148080,
    146607, 145148, 143704, 142274, 140858, 139457, 138069, 136695, 135335, 133989, 132655, 131336,
    130029, 128735, 127454, 126186, 124930, 123687, 122456, 121238, 120032, 118837, 117655, 116484,
    115325, 114178, 113042, 111917, 110803, 109701, 108609, 107528, 106459, 105399, 104350, 103312,
    102284, 101266, 100259, 99261, 98274, 97296, 96328, 95369, 94420, 93481, 92551, 91630,
    90718, 89815, 88922, 88037, 87161, 86294, 85435, 84585, 83743, 82910, 82085, 81268,
    80460, 79659, 78866, 78082, 77305, 76536, 75774, 75020, 74274, 73535, 72803, 72078,
    71361, 70651, 69948, 69252, 68563, 67881, 67206, 66537, 65875, 65219, 64570, 63928,
    63292, 62662, 62039, 61421, 60810, 60205, 59606, 59013, 58426, 57844, 57269, 56699,
    56135, 55576, 55023, 54476, 53934, 53397, 52866, 52340, 51819, 51303, 50793, 50287,
    49787, 49292, 48801, 48316, 47835, 47359, 46888, 46421, 45959, 45502, 45049, 44601,
    44157, 43718, 43283, 42852, 42426, 42004, 41586, 41172, 40762, 40357, 39955, 39557,
    39164, 38774, 38388, 38006, 37628, 37254, 36883, 36516, 36153, 35793, 35437, 35084,
    34735, 34390, 34047, 33709, 33373, 33041, 32712, 32387, 32065, 31746, 31430, 31117,
    30807, 30501, 30197, 29897, 29599, 29305, 29013, 28725, 28439, 28156, 27876, 27598,
    27324, 27052, 26783, 26516, 26252, 25991, 25733, 25476, 25223, 24972, 24724, 24478,
    24234, 23993, 23754, 23518, 23284, 23052, 22823, 22596, 22371, 22148, 21928, 21710,
    21494, 21280, 21068, 20858, 20651, 20445, 20242, 20041, 19841, 19644, 19448, 19255,
    19063, 18873, 18686, 18500, 18316, 18133, 17953, 17774, 17597, 17422, 17249, 17077,
    16907, 16739, 16573, 16408, 16245, 16083, 15923, 15764, 15608, 15452, 15299, 15146,
    14996, 14846, 14699, 14552, 14408, 14264, 14122, 13982, 13843, 13705, 13569, 13434,
    13300, 13168, 13037, 12907, 12778, 12651, 12525, 12401, 12277, 12155, 12034, 11914,
    11796, 11679, 11562, 11447, 11333, 11221, 11109, 10998, 10889, 10781, 10673, 10567,
    10462, 10358, 10255, 10153, 10052, 9952, 9853, 9755, 9658, 9562, 9466, 9372,
    9279, 9187, 9095, 9005, 8915, 8826, 8739, 8652, 8566, 8480, 8396, 8312,
    8230, 8148, 8067, 7987, 7907, 7828, 7750, 7673, 7597, 7521, 7447, 7372,
    7299, 7227, 7155, 7083, 7013, 6943, 6874, 6806, 6738
    >>
\* exp(-u/10000) scaled by 10^6
Exp(u) == LET i == u \div 100
              r == u % 100
          IN  ExpTable[i + 1] + ((ExpTable[i + 2] - ExpTable[i + 1]) * r) \div 100
=============================================================================
