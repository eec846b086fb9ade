#if defined(FAM_LL)
static const int s2sizes[]={6,14,26,38,50,74,86,110,146,170,194,230,266,302,350,434,590,770,974,1202,1454,1730,2030,2354,2702,3074,3470,3890,4334,4802,5810,};
#endif
#if defined(FAM_DE)
static const int s2sizes[]={14,26,50,110,194,302,434,590,770,974,1202,1454,1730,2030,2354,2702,3074,3470,};
#endif
#if defined(FAM_AB)
static const int s2sizes[]={72,132,192,312,372,432,492,552,612,672,732,792,912,972,1032,1092,1272,1332,1392,1512,1572,1632,1692,1812,1932,1992,2112,2172,2232,2292,2412,2472,2712,2772,2832,3012,3312,3372,3432,3492,3612,3792,4212,4332,4572,4692,4992,5232,5472,5592,5772,6192,6312,6912,7512,15012,};
#endif
#if defined(FAM_WO)
static const int s2sizes[]={3,6,8,14,18,26,32,42,50,62,72,86,98,114,128,146,163,182,201,222,243,266,289,314,339,366,393,422,451,482,513,546,579,614,649,686,723,762,801,842,883,926,969,1014,1059,1106,1153,1202,1251,1302,1353,1406,1459,1514,1569,1626,1683,1742,1801,1862,1923,1986,2049,2114,2179,2246,2313,2382,2451,2522,2593,2666,2739,2814,2889,2966,3043,3122,3201,3282,3363,3446,3529,3614,3699,3786,3873,3962,4051,4142,4233,4326,4419,4514,4609,4706,4803,4902,5001,5102,5203,5306,5409,5514,5619,5726,5833,5942,6051,6162,6273,6386,6499,6614,6729,6846,6963,7082,7201,7322,7443,7566,7689,7814,7939,};
#endif
