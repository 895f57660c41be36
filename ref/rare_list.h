/* generated by tools/mkrare.py from a search with tools/rare.c: inputs on which a wrong version of one
 * decision of Dilithium (S signing, V verification, K key generation; numbers as in ref_dilithium.c) shows */
typedef struct { uint16_t key; uint32_t ctr; const char *why; } rare_entry;
static const rare_entry rare_list[] = {
  {0, 0, "S47 V53"},
  {0, 1, "S3 V3 V52 V53"},
  {0, 2, "S26 S31 V51 V53"},
  {0, 161, "S25"},
  {0, 322, "S24"},
  {0, 481, "S44 S45 V8"},
  {0, 4001, "S40 V8"},
  {0, 159681, "V12"},
  {0, 184001, "V12"},
  {1, 5, "V51 V53"},
  {1, 6, "V51 V52 V53"},
  {1, 7, "S31"},
  {1, 167, "S25 S3 S31 V3"},
  {1, 2407, "S26"},
  {1, 7205, "S42"},
  {2, 10, "V51"},
  {2, 11, "S3 V3 V51 V53"},
  {2, 12, "V52 V53"},
  {2, 1771, "S21"},
  {3, 15, "V51 V52 V53"},
  {3, 16, "S21 S25 V52"},
  {3, 657, "V9"},
  {3, 1455, "V9"},
  {3, 1776, "S13"},
  {3, 1777, "V50"},
  {3, 3537, "S44 S45 V8"},
  {3, 3697, "S42"},
  {3, 4335, "S23"},
  {3, 4495, "S44 S45"},
  {3, 44015, "S43 V11"},
  {3, 101137, "S43 V11"},
  {3, 112977, "V10"},
  {4, 20, "S31"},
  {4, 21, "V51"},
  {4, 22, "V51"},
  {4, 341, "S20"},
  {4, 1301, "S28"},
  {4, 4501, "S24"},
  {4, 126582, "V10"},
  {4, 202741, "S43"},
  {5, 26, "V3"},
  {5, 27, "V3 V52"},
  {5, 187, "S47"},
  {5, 1627, "V50"},
  {5, 2907, "S21 S24"},
  {5, 16506, "S12"},
  {6, 30, "V52"},
  {6, 32, "S47"},
  {7, 36, "V52"},
  {7, 196, "S28"},
  {10, 50, "S31"},
  {10, 51, "S3 V3"},
  {10, 52, "S28"},
  {10, 530, "S28"},
  {10, 1011, "S27"},
  {10, 1331, "S30"},
  {10, 1810, "S24"},
  {10, 1972, "S30"},
  {10, 2611, "S24"},
  {10, 2771, "S20"},
  {10, 3251, "S21"},
  {10, 6611, "S42"},
  {10, 33011, "S10"},
  {10, 75251, "S13"},
  {10, 661011, "V4"},
  {11, 57, "S25 S3 V3"},
  {11, 535, "S22 V50"},
  {11, 1497, "S22 V50"},
  {11, 3097, "S26"},
  {11, 306775, "V10"},
  {11, 840535, "V4"},
  {12, 61, "S44 S45 V8"},
  {12, 381, "S42"},
  {12, 1341, "S21"},
  {12, 2941, "S20"},
  {13, 65, "S20 S25"},
  {13, 67, "S25"},
  {13, 2145, "S29"},
  {13, 3587, "S23"},
  {14, 71, "S25 S31 S46"},
  {14, 551, "S22 V50"},
  {14, 2791, "S41 V9"},
  {14, 38311, "S10"},
  {14, 63430, "V10"},
  {15, 75, "S46 V3"},
  {15, 6635, "S30"},
  {15, 7275, "S24"},
  {15, 32877, "S4 V4"},
  {15, 169515, "V10"},
  {15, 265995, "S43 V11"},
  {16, 401, "S46"},
  {16, 721, "V54"},
  {16, 2321, "S44 S45 V8"},
  {16, 5841, "S30"},
  {16, 75280, "S43 V11"},
  {17, 1687, "S20"},
  {17, 1845, "V54"},
  {17, 2005, "S41 V9"},
  {17, 420885, "V11"},
  {17, 492405, "S4 V4"},
  {17, 554485, "V4"},
  {18, 250, "S22 S23 V50"},
  {18, 2011, "S26"},
  {18, 3130, "S13"},
  {18, 22170, "S4 V4"},
  {18, 25050, "S13"},
  {18, 49530, "V12"},
  {19, 95, "S46 S47"},
  {19, 417, "S27"},
  {19, 576, "S26"},
  {19, 577, "S28"},
  {19, 1375, "V9"},
  {19, 1537, "S40 V8"},
  {19, 330177, "V11"},
  {20, 5221, "S40 V8"},
  {20, 92101, "V10"},
  {21, 266, "S23"},
  {21, 1067, "S23"},
  {21, 2666, "S40"},
  {21, 2667, "V54"},
  {21, 3147, "V50"},
  {21, 4267, "S29"},
  {21, 4905, "S29"},
  {21, 7145, "S42"},
  {21, 9866, "V12"},
  {21, 11626, "S13"},
  {21, 105547, "S10"},
  {21, 415787, "S4 V4"},
  {22, 111, "S47"},
  {22, 432, "V54"},
  {22, 912, "S29"},
  {22, 2511, "V54"},
  {22, 57391, "S13"},
  {23, 1717, "S27"},
  {23, 2355, "S21"},
  {23, 3477, "S44 S45 V8"},
  {23, 97717, "V12"},
  {23, 284756, "V4"},
  {24, 922, "V9"},
  {24, 1561, "S27"},
  {24, 3801, "S20"},
  {24, 43801, "S10"},
  {24, 64921, "S12"},
  {24, 293721, "V10"},
  {25, 927, "S24"},
  {25, 1245, "V54"},
  {25, 1247, "S22 V50"},
  {25, 1725, "S12"},
  {25, 1727, "S42"},
  {25, 2365, "V54"},
  {25, 4445, "S29"},
  {25, 75007, "S12"},
  {26, 131, "S23 S25"},
  {26, 931, "S20"},
  {26, 3491, "V54"},
  {26, 8131, "S24"},
  {26, 436771, "S4"},
  {27, 1097, "S26"},
  {27, 2377, "S42"},
  {27, 4937, "S41 V9"},
  {27, 25416, "S12"},
  {27, 121256, "S43 V11"},
  {27, 179017, "V12"},
  {28, 461, "S27"},
  {28, 1261, "S42"},
  {28, 1580, "S29"},
  {28, 29420, "V12"},
  {28, 215341, "V10"},
  {28, 352941, "V11"},
  {29, 147, "S46"},
  {29, 1267, "S27"},
  {29, 2385, "S26"},
  {29, 2547, "S10"},
  {29, 3985, "S26"},
  {29, 5907, "S44 S45"},
  {29, 167345, "V12"},
  {31, 315, "S40"},
  {31, 5435, "S41 V9"},
  {32, 83, "S3 S46"},
  {32, 163, "S48"},
  {32, 243, "S28"},
  {32, 323, "S47 S48"},
  {32, 2803, "S40"},
  {33, 8, "S14 S15 S16 S31 S46"},
  {33, 88, "S14 S15"},
  {33, 10008, "S12"},
  {34, 13, "S40 S48"},
  {34, 173, "S16 S48"},
  {34, 253, "S14 S49"},
  {34, 413, "S48"},
  {34, 493, "S49"},
  {34, 1453, "S23"},
  {34, 4573, "S29"},
  {34, 4733, "S41"},
  {34, 5293, "S30"},
  {34, 20013, "S12"},
  {34, 74493, "S4"},
  {34, 217133, "S4"},
  {34, 958253, "S36"},
  {34, 1898093, "S35"},
  {34, 3910173, "S35"},
  {36, 823, "S27"},
  {36, 1063, "S28"},
  {36, 2103, "S40"},
  {36, 2183, "S41"},
  {36, 6103, "S44 S45"},
  {36, 38583, "S10"},
  {36, 50983, "S13"},
  {36, 63303, "S10"},
  {37, 28, "S14 S15 S16"},
  {37, 108, "S14"},
  {37, 188, "S49"},
  {37, 348, "S20"},
  {37, 748, "S29"},
  {37, 5628, "S13"},
  {37, 12428, "S43"},
  {37, 120188, "S43"},
  {37, 360508, "S35"},
  {37, 1452508, "S36"},
  {37, 1691948, "S36"},
  {38, 193, "S15 S21 S46"},
  {38, 273, "S49"},
  {38, 353, "S14 S48"},
  {38, 593, "S49"},
  {38, 1713, "S41"},
  {38, 1793, "S23"},
  {38, 71553, "S12"},
  {38, 95073, "S37"},
  {38, 140513, "S4"},
  {38, 3563393, "S35"},
  {40, 43, "S16"},
  {40, 1243, "S28"},
  {40, 3643, "S21"},
  {40, 63723, "S10"},
  {41, 48, "S14 S15 S16 S48"},
  {41, 27728, "S37"},
  {41, 37248, "S37"},
  {41, 47088, "S37"},
  {41, 252048, "S36"},
  {41, 492928, "S36"},
  {41, 1800448, "S35"},
  {41, 2023088, "S35"},
  {41, 2263168, "S35"},
  {42, 53, "S15 S16"},
  {42, 133, "S16 S48"},
  {42, 213, "S14 S47 S49"},
  {42, 293, "S15"},
  {42, 373, "S27"},
  {42, 613, "S22"},
  {42, 1973, "S30"},
  {42, 61093, "S37"},
  {42, 1759493, "S35"},
  {42, 1942853, "S36"},
  {42, 3676773, "S36"},
  {43, 458, "S22"},
  {44, 63, "S15 S16 S3 S31 S49"},
  {44, 1583, "S22"},
  {45, 68, "S47 S49"},
  {45, 17588, "S37"},
  {45, 21908, "S37"},
  {45, 36548, "S37"},
  {46, 73, "S3"},
  {46, 233, "S41"},
  {46, 1593, "S30"},
  {46, 3913, "S30"},
};
static const struct { uint32_t ctr; const char *why; } rare_keys[] = {
  {4, "K5"},
  {29, "K5"},
  {249, "K5"},
  {269, "K5"},
  {329, "K5"},
  {349, "K5"},
  {389, "K5"},
  {439, "K5"},
  {1419, "K0"},
  {11044, "K1 K6"},
  {11189, "K2"},
  {17999, "K2"},
  {19279, "K1 K6"},
  {20714, "K0"},
  {24839, "K0"},
  {26709, "K0"},
  {27954, "K1 K6"},
  {28034, "K1 K6"},
  {28339, "K1 K6"},
  {33534, "K2"},
  {33564, "K2"},
  {38344, "K1 K6"},
  {41579, "K0"},
  {41834, "K2"},
  {42384, "K1 K6"},
  {43209, "K2"},
  {58774, "K2"},
  {61934, "K0"},
  {114639, "K2"},
  {114879, "K1 K6"},
  {128619, "K0"},
  {134249, "K0"},
};
