/* Mean number of evaluations, final error and part ended by rounding errors, of every
   configuration of suite "quad"; mean number of evaluations for suite "classic".
   Measured by bin/c26tab.py. */
static const float TQUAD[816][3] = {
{33.112,0.02863,0.0000},
{30.953,0.00378,0.0000},
{28.186,0.00000,0.0000},
{62.268,0.14214,0.0000},
{53.728,0.04551,0.0000},
{50.349,0.02092,0.0000},
{46.832,0.00917,0.0000},
{38.948,0.00246,0.0000},
{33.479,0.00024,0.0000},
{89.101,0.23300,0.0000},
{64.061,0.03744,0.0000},
{55.742,0.01181,0.0000},
{39.162,0.00084,0.0000},
{137.601,0.40916,0.0000},
{84.819,0.06487,0.0000},
{46.049,0.00160,0.0000},
{110.126,0.09817,0.0000},
{34.548,0.12603,0.0000},
{28.363,0.00763,0.0000},
{25.222,0.00000,0.0000},
{74.179,0.50561,0.0000},
{55.854,0.14034,0.0000},
{48.334,0.04101,0.0000},
{45.530,0.01330,0.0000},
{37.459,0.00304,0.0000},
{31.268,0.00003,0.0000},
{106.353,0.80323,0.0000},
{60.878,0.06022,0.0000},
{53.917,0.01453,0.0000},
{36.694,0.00062,0.0000},
{165.136,1.49411,0.0000},
{81.530,0.09519,0.0000},
{43.346,0.00126,0.0004},
{107.499,0.16216,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{23.604,0.02436,0.0000},
{23.519,0.00141,0.0000},
{24.596,0.00000,0.0000},
{42.174,0.18183,0.0000},
{37.339,0.05271,0.0000},
{35.654,0.01041,0.0000},
{35.071,0.00257,0.0000},
{32.371,0.00052,0.0000},
{30.736,0.00005,0.0000},
{62.535,0.35116,0.0000},
{47.942,0.02647,0.0000},
{45.212,0.00556,0.0000},
{36.204,0.00014,0.0004},
{90.537,0.63290,0.0000},
{62.296,0.04720,0.0000},
{42.648,0.00030,0.0027},
{79.454,0.07825,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{22.418,0.00732,0.0000},
{24.479,0.00061,0.0000},
{24.786,0.00000,0.0000},
{55.586,0.38429,0.0000},
{47.483,0.12182,0.0000},
{42.080,0.02221,0.0000},
{40.219,0.00559,0.0000},
{35.250,0.00145,0.0000},
{31.016,0.00001,0.0000},
{68.855,0.56346,0.0000},
{52.287,0.03962,0.0000},
{48.480,0.01148,0.0000},
{36.141,0.00012,0.0000},
{122.959,1.29496,0.0000},
{72.674,0.08718,0.0000},
{42.912,0.00055,0.0031},
{91.961,0.13720,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{22.295,0.02255,0.0000},
{22.433,0.00190,0.0000},
{24.108,0.00002,0.0000},
{34.244,0.09959,0.0000},
{32.431,0.02596,0.0000},
{32.434,0.00493,0.0000},
{32.495,0.00126,0.0000},
{30.914,0.00051,0.0000},
{30.079,0.00025,0.0000},
{50.041,0.22842,0.0000},
{43.538,0.01973,0.0000},
{42.852,0.00700,0.0000},
{35.263,0.00046,0.0000},
{68.763,0.42971,0.0000},
{55.376,0.03332,0.0000},
{41.666,0.00118,0.0008},
{69.899,0.04848,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{27.564,0.05641,0.0000},
{25.733,0.00433,0.0000},
{24.958,0.00001,0.0000},
{52.261,0.21976,0.0000},
{44.281,0.05547,0.0000},
{40.617,0.01780,0.0000},
{39.418,0.00638,0.0000},
{34.431,0.00146,0.0000},
{30.841,0.00005,0.0000},
{74.248,0.40050,0.0000},
{52.905,0.02983,0.0000},
{49.359,0.00947,0.0000},
{36.209,0.00021,0.0000},
{108.008,0.75464,0.0000},
{68.534,0.05113,0.0000},
{42.779,0.00040,0.0000},
{86.631,0.08290,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{24.454,0.04586,0.0000},
{24.498,0.00309,0.0000},
{24.918,0.00003,0.0000},
{38.357,0.12395,0.0000},
{35.615,0.03493,0.0000},
{34.559,0.00678,0.0000},
{34.515,0.00138,0.0000},
{32.235,0.00046,0.0000},
{30.636,0.00031,0.0000},
{64.827,0.36859,0.0000},
{48.721,0.03303,0.0000},
{47.042,0.00953,0.0000},
{36.078,0.00052,0.0000},
{87.018,0.56867,0.0000},
{61.166,0.04570,0.0000},
{42.381,0.00134,0.0027},
{81.909,0.08714,0.0000},
{26.963,0.05442,0.0000},
{24.301,0.00497,0.0000},
{21.978,0.00000,0.0000},
{52.000,0.21331,0.0000},
{42.454,0.06991,0.0000},
{39.370,0.03114,0.0000},
{37.584,0.01443,0.0000},
{31.158,0.00233,0.0000},
{27.187,0.00006,0.0000},
{73.852,0.31335,0.0000},
{49.237,0.05165,0.0000},
{45.198,0.01784,0.0000},
{32.568,0.00039,0.0000},
{113.035,0.54823,0.0000},
{65.774,0.08307,0.0000},
{39.284,0.00102,0.0000},
{85.432,0.12686,0.0000},
{28.935,0.18008,0.0000},
{24.032,0.01561,0.0000},
{20.440,0.00000,0.0000},
{61.546,0.76328,0.0000},
{46.006,0.19015,0.0000},
{39.678,0.06370,0.0000},
{37.115,0.02119,0.0000},
{30.826,0.00382,0.0000},
{26.205,0.00001,0.0000},
{85.395,1.23288,0.0000},
{49.250,0.07201,0.0000},
{44.260,0.02088,0.0000},
{31.840,0.00034,0.0000},
{128.165,2.06885,0.0000},
{65.488,0.11838,0.0000},
{39.184,0.00097,0.0000},
{85.120,0.19198,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{19.476,0.04213,0.0000},
{19.476,0.00103,0.0000},
{19.550,0.00000,0.0000},
{34.603,0.26362,0.0000},
{30.688,0.06085,0.0000},
{29.499,0.01140,0.0000},
{28.604,0.00278,0.0000},
{26.375,0.00044,0.0000},
{25.309,0.00000,0.0000},
{49.743,0.50004,0.0000},
{38.910,0.03020,0.0000},
{36.213,0.00677,0.0000},
{30.980,0.00006,0.0035},
{71.591,0.85141,0.0000},
{50.077,0.04708,0.0000},
{38.323,0.00005,0.0390},
{62.926,0.07741,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{18.994,0.01055,0.0000},
{19.983,0.00136,0.0000},
{18.916,0.00000,0.0000},
{44.595,0.56026,0.0000},
{37.768,0.14499,0.0000},
{33.686,0.03353,0.0000},
{32.583,0.01020,0.0000},
{28.411,0.00189,0.0000},
{25.459,0.00000,0.0000},
{51.559,0.62765,0.0000},
{40.531,0.04369,0.0000},
{38.945,0.01352,0.0000},
{30.614,0.00012,0.0031},
{94.526,1.74144,0.0000},
{57.298,0.09516,0.0000},
{38.855,0.00047,0.0177},
{71.127,0.14540,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{17.339,0.05331,0.0000},
{18.119,0.00299,0.0000},
{17.913,0.00000,0.0000},
{26.868,0.13203,0.0000},
{25.427,0.03295,0.0000},
{25.259,0.00603,0.0000},
{25.369,0.00122,0.0000},
{23.840,0.00019,0.0000},
{23.101,0.00000,0.0000},
{38.238,0.29045,0.0000},
{33.378,0.01485,0.0000},
{33.323,0.00466,0.0000},
{28.579,0.00185,0.0004},
{52.122,0.48080,0.0000},
{42.267,0.02782,0.0000},
{35.348,0.00192,0.0073},
{53.348,0.04314,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{20.847,0.05865,0.0000},
{20.182,0.00712,0.0000},
{18.660,0.00000,0.0000},
{35.199,0.18939,0.0000},
{31.520,0.03780,0.0000},
{29.758,0.01269,0.0000},
{29.176,0.00504,0.0000},
{25.990,0.00087,0.0000},
{23.658,0.00000,0.0000},
{49.058,0.39535,0.0000},
{38.246,0.02440,0.0000},
{36.500,0.00761,0.0000},
{29.486,0.00003,0.0000},
{66.043,0.57927,0.0000},
{48.116,0.02935,0.0000},
{36.605,0.00001,0.0000},
{59.403,0.05157,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{18.096,0.04342,0.0000},
{19.775,0.00317,0.0000},
{19.271,0.00000,0.0000},
{25.540,0.07199,0.0000},
{26.572,0.01266,0.0000},
{26.701,0.00218,0.0000},
{26.558,0.00041,0.0000},
{25.031,0.00006,0.0000},
{23.829,0.00000,0.0000},
{43.758,0.34103,0.0000},
{36.415,0.01557,0.0000},
{35.972,0.00584,0.0000},
{30.118,0.00000,0.0031},
{51.316,0.46554,0.0000},
{43.924,0.02459,0.0000},
{36.549,0.00000,0.0197},
{59.116,0.06153,0.0000},
{32.243,0.03790,0.0000},
{28.750,0.00350,0.0000},
{26.218,0.00000,0.0000},
{59.713,0.17060,0.0000},
{49.490,0.05627,0.0000},
{45.451,0.02345,0.0000},
{42.378,0.01053,0.0000},
{35.206,0.00168,0.0000},
{31.555,0.00013,0.0000},
{84.823,0.26959,0.0000},
{56.979,0.03940,0.0000},
{49.808,0.01309,0.0000},
{37.014,0.00055,0.0000},
{128.435,0.46003,0.0000},
{75.530,0.06943,0.0000},
{43.662,0.00111,0.0000},
{97.497,0.10989,0.0000},
{33.313,0.16093,0.0000},
{26.747,0.01184,0.0000},
{25.023,0.00000,0.0000},
{69.372,0.60939,0.0000},
{51.704,0.16567,0.0000},
{44.177,0.04946,0.0000},
{41.635,0.01550,0.0000},
{35.559,0.00206,0.0000},
{31.264,0.00001,0.0000},
{97.221,0.91002,0.0000},
{55.048,0.06604,0.0000},
{49.698,0.01536,0.0000},
{36.704,0.00042,0.0012},
{146.639,1.70152,0.0000},
{73.474,0.10913,0.0000},
{43.550,0.00095,0.0015},
{95.709,0.17055,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{21.596,0.03092,0.0000},
{21.766,0.00078,0.0000},
{23.254,0.00000,0.0000},
{39.698,0.21973,0.0000},
{34.682,0.05129,0.0000},
{33.242,0.01067,0.0000},
{32.956,0.00228,0.0000},
{31.190,0.00023,0.0000},
{30.480,0.00001,0.0000},
{57.767,0.41944,0.0000},
{43.647,0.02919,0.0000},
{41.152,0.00500,0.0000},
{35.971,0.00017,0.0170},
{83.007,0.73781,0.0000},
{56.447,0.04944,0.0000},
{43.050,0.00004,0.1223},
{70.867,0.07884,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{21.015,0.02509,0.0000},
{22.342,0.00066,0.0000},
{22.989,0.00000,0.0000},
{50.878,0.53365,0.0000},
{42.475,0.16996,0.0000},
{37.134,0.02674,0.0000},
{37.014,0.00724,0.0000},
{33.086,0.00068,0.0000},
{30.592,0.00000,0.0054},
{59.649,0.57286,0.0000},
{46.081,0.04015,0.0000},
{44.548,0.01138,0.0000},
{35.916,0.00016,0.0000},
{108.574,1.50062,0.0000},
{63.493,0.08601,0.0000},
{42.942,0.00053,0.0162},
{79.256,0.14504,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{19.486,0.03968,0.0000},
{20.657,0.00089,0.0000},
{22.411,0.00000,0.0000},
{30.220,0.12712,0.0000},
{28.899,0.02855,0.0000},
{29.021,0.00497,0.0000},
{29.666,0.00071,0.0000},
{28.878,0.00009,0.0000},
{28.569,0.00000,0.0006},
{44.235,0.21490,0.0000},
{38.546,0.01672,0.0000},
{38.901,0.00411,0.0000},
{34.132,0.00001,0.0066},
{60.788,0.38231,0.0000},
{48.716,0.03002,0.0000},
{41.062,0.00006,0.0370},
{61.259,0.04521,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{22.505,0.04431,0.0000},
{22.913,0.00519,0.0000},
{23.862,0.00000,0.0000},
{37.806,0.13750,0.0000},
{34.717,0.03183,0.0000},
{34.001,0.00997,0.0000},
{34.058,0.00325,0.0000},
{31.852,0.00039,0.0000},
{30.429,0.00000,0.0000},
{54.112,0.29172,0.0000},
{43.301,0.02225,0.0000},
{42.265,0.00594,0.0000},
{35.689,0.00004,0.0000},
{70.892,0.41984,0.0000},
{53.787,0.02674,0.0000},
{42.246,0.00001,0.0000},
{65.353,0.04593,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{19.938,0.03466,0.0000},
{21.778,0.00148,0.0000},
{23.404,0.00000,0.0000},
{26.146,0.03673,0.0000},
{28.133,0.01006,0.0000},
{29.183,0.00130,0.0000},
{30.000,0.00036,0.0000},
{29.637,0.00005,0.0000},
{28.898,0.00000,0.0002},
{49.416,0.24276,0.0000},
{40.655,0.01702,0.0000},
{40.597,0.00426,0.0000},
{35.332,0.00001,0.0100},
{56.815,0.33177,0.0000},
{48.800,0.02540,0.0000},
{41.688,0.00001,0.0394},
{64.946,0.06050,0.0000},
{23.498,0.07162,0.0000},
{22.214,0.01779,0.0000},
{20.259,0.00000,0.0000},
{43.837,0.29738,0.0000},
{38.723,0.11075,0.0000},
{35.822,0.05392,0.0000},
{34.212,0.02765,0.0000},
{29.194,0.00663,0.0000},
{24.662,0.00037,0.0000},
{62.311,0.44840,0.0000},
{45.458,0.07041,0.0000},
{42.283,0.02956,0.0000},
{30.452,0.00085,0.0000},
{92.432,0.75919,0.0000},
{59.698,0.10836,0.0000},
{36.963,0.00099,0.0000},
{77.274,0.16295,0.0000},
{23.887,0.37431,0.0000},
{18.954,0.04468,0.0000},
{18.328,0.00000,0.0000},
{49.219,1.31355,0.0000},
{38.915,0.38260,0.0000},
{33.245,0.14465,0.0000},
{32.008,0.05408,0.0000},
{28.699,0.00791,0.0000},
{24.136,0.00000,0.0000},
{66.045,1.80386,0.0000},
{41.638,0.14173,0.0000},
{41.056,0.03916,0.0000},
{29.299,0.00057,0.0000},
{100.611,3.23712,0.0000},
{55.594,0.21490,0.0000},
{35.599,0.00090,0.0000},
{72.266,0.34146,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{16.919,0.08564,0.0000},
{16.729,0.00580,0.0000},
{18.262,0.00000,0.0000},
{28.927,0.48819,0.0000},
{25.893,0.12440,0.0000},
{25.553,0.03132,0.0000},
{26.281,0.00913,0.0000},
{25.734,0.00127,0.0000},
{24.077,0.00002,0.0000},
{40.018,0.76814,0.0000},
{33.258,0.05734,0.0000},
{34.972,0.01228,0.0000},
{29.212,0.00006,0.0000},
{56.198,1.30807,0.0000},
{42.529,0.08583,0.0000},
{35.426,0.00009,0.0000},
{53.430,0.13208,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{14.057,0.02051,0.0000},
{16.351,0.01119,0.0000},
{17.959,0.00000,0.0000},
{36.024,0.92535,0.0000},
{32.041,0.30034,0.0000},
{28.977,0.07424,0.0000},
{28.867,0.03144,0.0000},
{27.177,0.00254,0.0000},
{24.116,0.00001,0.0000},
{43.383,1.20757,0.0000},
{36.276,0.09140,0.0000},
{37.115,0.02085,0.0000},
{29.250,0.00036,0.0000},
{80.021,2.27216,0.0000},
{49.699,0.16623,0.0000},
{35.356,0.00042,0.0000},
{62.112,0.24592,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{15.717,0.08328,0.0000},
{16.312,0.01014,0.0000},
{18.366,0.00000,0.0000},
{24.462,0.26719,0.0000},
{23.212,0.06238,0.0000},
{23.954,0.01276,0.0000},
{24.943,0.00207,0.0000},
{24.452,0.00024,0.0000},
{23.852,0.00000,0.0000},
{34.506,0.52651,0.0000},
{31.874,0.02658,0.0000},
{33.514,0.00747,0.0000},
{28.973,0.00000,0.0000},
{46.523,0.88776,0.0000},
{39.731,0.04949,0.0000},
{35.141,0.00003,0.0000},
{49.901,0.06689,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{21.317,0.20638,0.0000},
{18.225,0.01815,0.0000},
{18.270,0.00000,0.0000},
{42.092,0.91719,0.0000},
{35.128,0.23725,0.0000},
{30.975,0.06510,0.0000},
{30.153,0.01854,0.0000},
{27.237,0.00329,0.0000},
{24.109,0.00000,0.0000},
{58.095,1.22039,0.0000},
{39.497,0.08818,0.0000},
{39.492,0.02247,0.0000},
{29.292,0.00013,0.0000},
{82.876,2.02756,0.0000},
{52.223,0.14706,0.0000},
{35.716,0.00043,0.0000},
{67.590,0.22131,0.0000},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{0,0,0},
{16.900,0.11834,0.0000},
{16.620,0.02343,0.0000},
{18.166,0.00000,0.0000},
{28.359,0.41937,0.0000},
{24.860,0.11243,0.0000},
{24.959,0.02401,0.0000},
{25.923,0.00531,0.0000},
{24.893,0.00024,0.0000},
{24.083,0.00001,0.0000},
{45.660,0.92968,0.0000},
{34.333,0.07071,0.0000},
{35.932,0.01682,0.0000},
{29.157,0.00009,0.0000},
{63.834,1.59812,0.0000},
{43.992,0.09581,0.0000},
{35.355,0.00018,0.0000},
{57.487,0.17225,0.0000}, };
static const float TCLASSIC[288] = {
158.61,63.14,39.78,71.50,119.50,66.92,140.89,221.28,34.75,119.06,46.81,131.67,
270.67,35.39,68.72,34.06,45.58,62.53,31.94,49.89,246.67,68.83,118.44,426.31,
288.11,83.11,41.11,83.44,157.39,89.44,206.00,341.72,35.28,194.11,68.69,259.86,
653.92,35.17,95.33,30.53,45.50,61.31,28.50,56.42,506.89,81.72,184.11,2156.56,
115.86,54.17,37.92,67.86,111.78,57.28,128.86,216.39,34.64,90.08,39.44,67.94,
100.83,34.33,66.14,32.11,44.47,60.61,31.36,43.75,183.53,60.50,122.92,227.89,
158.61,63.14,39.78,69.00,119.39,66.92,132.31,204.22,34.75,97.42,46.81,97.39,
156.50,35.39,68.89,34.06,47.61,65.97,31.94,48.39,219.28,62.81,125.61,299.36,
184.00,72.64,37.83,80.61,133.56,79.14,152.83,233.11,37.00,120.08,69.42,149.53,
199.08,35.36,67.53,29.67,48.14,68.06,29.83,49.19,280.08,70.75,113.11,551.94,
449.14,101.36,52.31,102.11,152.61,117.42,266.42,404.56,41.61,246.31,110.31,437.08,
562.86,40.22,111.97,29.00,48.56,67.58,27.89,66.78,765.06,104.44,221.33,1163.69,
138.81,53.67,37.00,69.36,115.11,64.22,138.19,230.39,33.56,86.83,47.08,81.00,
130.44,31.83,60.53,30.89,43.92,59.97,28.83,40.44,218.92,57.81,107.86,278.00,
184.00,72.64,37.83,74.56,141.14,79.14,140.28,221.64,37.00,104.33,69.42,126.75,
171.81,35.36,67.44,29.67,48.47,70.86,29.83,49.50,243.61,67.67,119.75,362.08,
86.11,66.58,43.33,80.08,141.39,75.22,136.89,196.53,38.00,100.75,56.89,120.92,
197.14,27.83,55.58,25.00,43.39,57.00,29.19,52.11,142.83,63.56,97.47,441.17,
195.39,99.22,45.94,76.08,122.92,104.61,245.81,375.75,45.53,145.64,73.33,342.33,
479.83,40.47,101.83,23.33,43.08,52.33,29.25,66.08,381.61,90.19,175.00,841.67,
66.56,54.64,34.75,66.83,111.50,60.53,125.75,218.00,35.67,88.53,44.97,79.83,
124.44,30.22,56.89,28.31,40.39,54.97,29.42,43.75,103.64,59.61,98.83,268.22,
86.11,66.58,43.33,72.92,130.89,75.22,127.00,209.56,38.00,102.44,56.89,111.31,
158.11,27.83,59.14,25.00,44.94,61.50,29.19,50.31,116.94,65.36,102.39,320.36 };
