// generated by tools/gen_iso6937.py: {diacritical or 0, code, Unicode}
{0x00,0x20,0x0020},
{0x00,0x21,0x0021},
{0x00,0x22,0x0022},
{0x00,0x23,0x0023},
{0x00,0x25,0x0025},
{0x00,0x26,0x0026},
{0x00,0x27,0x0027},
{0x00,0x28,0x0028},
{0x00,0x29,0x0029},
{0x00,0x2a,0x002a},
{0x00,0x2b,0x002b},
{0x00,0x2c,0x002c},
{0x00,0x2d,0x002d},
{0x00,0x2e,0x002e},
{0x00,0x2f,0x002f},
{0x00,0x30,0x0030},
{0x00,0x31,0x0031},
{0x00,0x32,0x0032},
{0x00,0x33,0x0033},
{0x00,0x34,0x0034},
{0x00,0x35,0x0035},
{0x00,0x36,0x0036},
{0x00,0x37,0x0037},
{0x00,0x38,0x0038},
{0x00,0x39,0x0039},
{0x00,0x3a,0x003a},
{0x00,0x3b,0x003b},
{0x00,0x3c,0x003c},
{0x00,0x3d,0x003d},
{0x00,0x3e,0x003e},
{0x00,0x3f,0x003f},
{0x00,0x40,0x0040},
{0x00,0x41,0x0041},
{0x00,0x42,0x0042},
{0x00,0x43,0x0043},
{0x00,0x44,0x0044},
{0x00,0x45,0x0045},
{0x00,0x46,0x0046},
{0x00,0x47,0x0047},
{0x00,0x48,0x0048},
{0x00,0x49,0x0049},
{0x00,0x4a,0x004a},
{0x00,0x4b,0x004b},
{0x00,0x4c,0x004c},
{0x00,0x4d,0x004d},
{0x00,0x4e,0x004e},
{0x00,0x4f,0x004f},
{0x00,0x50,0x0050},
{0x00,0x51,0x0051},
{0x00,0x52,0x0052},
{0x00,0x53,0x0053},
{0x00,0x54,0x0054},
{0x00,0x55,0x0055},
{0x00,0x56,0x0056},
{0x00,0x57,0x0057},
{0x00,0x58,0x0058},
{0x00,0x59,0x0059},
{0x00,0x5a,0x005a},
{0x00,0x5b,0x005b},
{0x00,0x5c,0x005c},
{0x00,0x5d,0x005d},
{0x00,0x5e,0x005e},
{0x00,0x5f,0x005f},
{0x00,0x60,0x0060},
{0x00,0x61,0x0061},
{0x00,0x62,0x0062},
{0x00,0x63,0x0063},
{0x00,0x64,0x0064},
{0x00,0x65,0x0065},
{0x00,0x66,0x0066},
{0x00,0x67,0x0067},
{0x00,0x68,0x0068},
{0x00,0x69,0x0069},
{0x00,0x6a,0x006a},
{0x00,0x6b,0x006b},
{0x00,0x6c,0x006c},
{0x00,0x6d,0x006d},
{0x00,0x6e,0x006e},
{0x00,0x6f,0x006f},
{0x00,0x70,0x0070},
{0x00,0x71,0x0071},
{0x00,0x72,0x0072},
{0x00,0x73,0x0073},
{0x00,0x74,0x0074},
{0x00,0x75,0x0075},
{0x00,0x76,0x0076},
{0x00,0x77,0x0077},
{0x00,0x78,0x0078},
{0x00,0x79,0x0079},
{0x00,0x7a,0x007a},
{0x00,0x7b,0x007b},
{0x00,0x7c,0x007c},
{0x00,0x7d,0x007d},
{0x00,0x7e,0x007e},
{0x00,0xa1,0x00a1},
{0x00,0xa2,0x00a2},
{0x00,0xa3,0x00a3},
{0x00,0xa4,0x0024},
{0x00,0xa5,0x00a5},
{0x00,0xa7,0x00a7},
{0x00,0xa8,0x00a4},
{0x00,0xa9,0x2018},
{0x00,0xaa,0x201c},
{0x00,0xab,0x00ab},
{0x00,0xac,0x2190},
{0x00,0xad,0x2191},
{0x00,0xae,0x2192},
{0x00,0xaf,0x2193},
{0x00,0xb0,0x00b0},
{0x00,0xb1,0x00b1},
{0x00,0xb2,0x00b2},
{0x00,0xb3,0x00b3},
{0x00,0xb4,0x00d7},
{0x00,0xb5,0x00b5},
{0x00,0xb6,0x00b6},
{0x00,0xb7,0x00b7},
{0x00,0xb8,0x00f7},
{0x00,0xb9,0x2019},
{0x00,0xba,0x201d},
{0x00,0xbb,0x00bb},
{0x00,0xbc,0x00bc},
{0x00,0xbd,0x00bd},
{0x00,0xbe,0x00be},
{0x00,0xbf,0x00bf},
{0x00,0xd0,0x2015},
{0x00,0xd1,0x00b9},
{0x00,0xd2,0x00ae},
{0x00,0xd3,0x00a9},
{0x00,0xd4,0x2122},
{0x00,0xd5,0x266a},
{0x00,0xd6,0x00ac},
{0x00,0xd7,0x00a6},
{0x00,0xdc,0x215b},
{0x00,0xdd,0x215c},
{0x00,0xde,0x215d},
{0x00,0xdf,0x215e},
{0x00,0xe0,0x2126},
{0x00,0xe1,0x00c6},
{0x00,0xe2,0x0110},
{0x00,0xe3,0x00aa},
{0x00,0xe4,0x0126},
{0x00,0xe6,0x0132},
{0x00,0xe7,0x013f},
{0x00,0xe8,0x0141},
{0x00,0xe9,0x00d8},
{0x00,0xea,0x0152},
{0x00,0xeb,0x00ba},
{0x00,0xec,0x00de},
{0x00,0xed,0x0166},
{0x00,0xee,0x014a},
{0x00,0xef,0x0149},
{0x00,0xf0,0x0138},
{0x00,0xf1,0x00e6},
{0x00,0xf2,0x0111},
{0x00,0xf3,0x00f0},
{0x00,0xf4,0x0127},
{0x00,0xf5,0x0131},
{0x00,0xf6,0x0133},
{0x00,0xf7,0x0140},
{0x00,0xf8,0x0142},
{0x00,0xf9,0x00f8},
{0x00,0xfa,0x0153},
{0x00,0xfb,0x00df},
{0x00,0xfc,0x00fe},
{0x00,0xfd,0x0167},
{0x00,0xfe,0x014b},
{0x00,0xff,0x00ad},
{0xc1,0x41,0x00c0},
{0xc1,0x45,0x00c8},
{0xc1,0x49,0x00cc},
{0xc1,0x4f,0x00d2},
{0xc1,0x55,0x00d9},
{0xc1,0x61,0x00e0},
{0xc1,0x65,0x00e8},
{0xc1,0x69,0x00ec},
{0xc1,0x6f,0x00f2},
{0xc1,0x75,0x00f9},
{0xc2,0x41,0x00c1},
{0xc2,0x43,0x0106},
{0xc2,0x45,0x00c9},
{0xc2,0x49,0x00cd},
{0xc2,0x4c,0x0139},
{0xc2,0x4e,0x0143},
{0xc2,0x4f,0x00d3},
{0xc2,0x52,0x0154},
{0xc2,0x53,0x015a},
{0xc2,0x55,0x00da},
{0xc2,0x59,0x00dd},
{0xc2,0x5a,0x0179},
{0xc2,0x61,0x00e1},
{0xc2,0x63,0x0107},
{0xc2,0x65,0x00e9},
{0xc2,0x67,0x01f5},
{0xc2,0x69,0x00ed},
{0xc2,0x6c,0x013a},
{0xc2,0x6e,0x0144},
{0xc2,0x6f,0x00f3},
{0xc2,0x72,0x0155},
{0xc2,0x73,0x015b},
{0xc2,0x75,0x00fa},
{0xc2,0x79,0x00fd},
{0xc2,0x7a,0x017a},
{0xc3,0x41,0x00c2},
{0xc3,0x43,0x0108},
{0xc3,0x45,0x00ca},
{0xc3,0x47,0x011c},
{0xc3,0x48,0x0124},
{0xc3,0x49,0x00ce},
{0xc3,0x4a,0x0134},
{0xc3,0x4f,0x00d4},
{0xc3,0x53,0x015c},
{0xc3,0x55,0x00db},
{0xc3,0x57,0x0174},
{0xc3,0x59,0x0176},
{0xc3,0x61,0x00e2},
{0xc3,0x63,0x0109},
{0xc3,0x65,0x00ea},
{0xc3,0x67,0x011d},
{0xc3,0x68,0x0125},
{0xc3,0x69,0x00ee},
{0xc3,0x6a,0x0135},
{0xc3,0x6f,0x00f4},
{0xc3,0x73,0x015d},
{0xc3,0x75,0x00fb},
{0xc3,0x77,0x0175},
{0xc3,0x79,0x0177},
{0xc4,0x41,0x00c3},
{0xc4,0x49,0x0128},
{0xc4,0x4e,0x00d1},
{0xc4,0x4f,0x00d5},
{0xc4,0x55,0x0168},
{0xc4,0x61,0x00e3},
{0xc4,0x69,0x0129},
{0xc4,0x6e,0x00f1},
{0xc4,0x6f,0x00f5},
{0xc4,0x75,0x0169},
{0xc5,0x41,0x0100},
{0xc5,0x45,0x0112},
{0xc5,0x49,0x012a},
{0xc5,0x4f,0x014c},
{0xc5,0x55,0x016a},
{0xc5,0x61,0x0101},
{0xc5,0x65,0x0113},
{0xc5,0x69,0x012b},
{0xc5,0x6f,0x014d},
{0xc5,0x75,0x016b},
{0xc6,0x41,0x0102},
{0xc6,0x47,0x011e},
{0xc6,0x55,0x016c},
{0xc6,0x61,0x0103},
{0xc6,0x67,0x011f},
{0xc6,0x75,0x016d},
{0xc7,0x43,0x010a},
{0xc7,0x45,0x0116},
{0xc7,0x47,0x0120},
{0xc7,0x49,0x0130},
{0xc7,0x5a,0x017b},
{0xc7,0x63,0x010b},
{0xc7,0x65,0x0117},
{0xc7,0x67,0x0121},
{0xc7,0x7a,0x017c},
{0xc8,0x41,0x00c4},
{0xc8,0x45,0x00cb},
{0xc8,0x49,0x00cf},
{0xc8,0x4f,0x00d6},
{0xc8,0x55,0x00dc},
{0xc8,0x59,0x0178},
{0xc8,0x61,0x00e4},
{0xc8,0x65,0x00eb},
{0xc8,0x69,0x00ef},
{0xc8,0x6f,0x00f6},
{0xc8,0x75,0x00fc},
{0xc8,0x79,0x00ff},
{0xca,0x41,0x00c5},
{0xca,0x55,0x016e},
{0xca,0x61,0x00e5},
{0xca,0x75,0x016f},
{0xcb,0x43,0x00c7},
{0xcb,0x47,0x0122},
{0xcb,0x4b,0x0136},
{0xcb,0x4c,0x013b},
{0xcb,0x4e,0x0145},
{0xcb,0x52,0x0156},
{0xcb,0x53,0x015e},
{0xcb,0x54,0x0162},
{0xcb,0x63,0x00e7},
{0xcb,0x6b,0x0137},
{0xcb,0x6c,0x013c},
{0xcb,0x6e,0x0146},
{0xcb,0x72,0x0157},
{0xcb,0x73,0x015f},
{0xcb,0x74,0x0163},
{0xcd,0x4f,0x0150},
{0xcd,0x55,0x0170},
{0xcd,0x6f,0x0151},
{0xcd,0x75,0x0171},
{0xce,0x41,0x0104},
{0xce,0x45,0x0118},
{0xce,0x49,0x012e},
{0xce,0x55,0x0172},
{0xce,0x61,0x0105},
{0xce,0x65,0x0119},
{0xce,0x69,0x012f},
{0xce,0x75,0x0173},
{0xcf,0x43,0x010c},
{0xcf,0x44,0x010e},
{0xcf,0x45,0x011a},
{0xcf,0x4c,0x013d},
{0xcf,0x4e,0x0147},
{0xcf,0x52,0x0158},
{0xcf,0x53,0x0160},
{0xcf,0x54,0x0164},
{0xcf,0x5a,0x017d},
{0xcf,0x63,0x010d},
{0xcf,0x64,0x010f},
{0xcf,0x65,0x011b},
{0xcf,0x6c,0x013e},
{0xcf,0x6e,0x0148},
{0xcf,0x72,0x0159},
{0xcf,0x73,0x0161},
{0xcf,0x74,0x0165},
{0xcf,0x7a,0x017e},
