struct ur { uint32_t lo, hi, v; };
struct um { uint32_t c, v; };
struct us { uint32_t c; uint8_t n; uint32_t v[3]; };
static const ur T_gcb[] = {
{0x0,0x9,3},
{0xA,0xA,2},
{0xB,0xC,3},
{0xD,0xD,1},
{0xE,0x1F,3},
{0x7F,0x9F,3},
{0xAD,0xAD,3},
{0x300,0x36F,4},
{0x483,0x489,4},
{0x591,0x5BD,4},
{0x5BF,0x5BF,4},
{0x5C1,0x5C2,4},
{0x5C4,0x5C5,4},
{0x5C7,0x5C7,4},
{0x600,0x605,7},
{0x610,0x61A,4},
{0x61C,0x61C,3},
{0x64B,0x65F,4},
{0x670,0x670,4},
{0x6D6,0x6DC,4},
{0x6DD,0x6DD,7},
{0x6DF,0x6E4,4},
{0x6E7,0x6E8,4},
{0x6EA,0x6ED,4},
{0x70F,0x70F,7},
{0x711,0x711,4},
{0x730,0x74A,4},
{0x7A6,0x7B0,4},
{0x7EB,0x7F3,4},
{0x7FD,0x7FD,4},
{0x816,0x819,4},
{0x81B,0x823,4},
{0x825,0x827,4},
{0x829,0x82D,4},
{0x859,0x85B,4},
{0x890,0x891,7},
{0x898,0x89F,4},
{0x8CA,0x8E1,4},
{0x8E2,0x8E2,7},
{0x8E3,0x902,4},
{0x903,0x903,8},
{0x93A,0x93A,4},
{0x93B,0x93B,8},
{0x93C,0x93C,4},
{0x93E,0x940,8},
{0x941,0x948,4},
{0x949,0x94C,8},
{0x94D,0x94D,4},
{0x94E,0x94F,8},
{0x951,0x957,4},
{0x962,0x963,4},
{0x981,0x981,4},
{0x982,0x983,8},
{0x9BC,0x9BC,4},
{0x9BE,0x9BE,4},
{0x9BF,0x9C0,8},
{0x9C1,0x9C4,4},
{0x9C7,0x9C8,8},
{0x9CB,0x9CC,8},
{0x9CD,0x9CD,4},
{0x9D7,0x9D7,4},
{0x9E2,0x9E3,4},
{0x9FE,0x9FE,4},
{0xA01,0xA02,4},
{0xA03,0xA03,8},
{0xA3C,0xA3C,4},
{0xA3E,0xA40,8},
{0xA41,0xA42,4},
{0xA47,0xA48,4},
{0xA4B,0xA4D,4},
{0xA51,0xA51,4},
{0xA70,0xA71,4},
{0xA75,0xA75,4},
{0xA81,0xA82,4},
{0xA83,0xA83,8},
{0xABC,0xABC,4},
{0xABE,0xAC0,8},
{0xAC1,0xAC5,4},
{0xAC7,0xAC8,4},
{0xAC9,0xAC9,8},
{0xACB,0xACC,8},
{0xACD,0xACD,4},
{0xAE2,0xAE3,4},
{0xAFA,0xAFF,4},
{0xB01,0xB01,4},
{0xB02,0xB03,8},
{0xB3C,0xB3C,4},
{0xB3E,0xB3F,4},
{0xB40,0xB40,8},
{0xB41,0xB44,4},
{0xB47,0xB48,8},
{0xB4B,0xB4C,8},
{0xB4D,0xB4D,4},
{0xB55,0xB57,4},
{0xB62,0xB63,4},
{0xB82,0xB82,4},
{0xBBE,0xBBE,4},
{0xBBF,0xBBF,8},
{0xBC0,0xBC0,4},
{0xBC1,0xBC2,8},
{0xBC6,0xBC8,8},
{0xBCA,0xBCC,8},
{0xBCD,0xBCD,4},
{0xBD7,0xBD7,4},
{0xC00,0xC00,4},
{0xC01,0xC03,8},
{0xC04,0xC04,4},
{0xC3C,0xC3C,4},
{0xC3E,0xC40,4},
{0xC41,0xC44,8},
{0xC46,0xC48,4},
{0xC4A,0xC4D,4},
{0xC55,0xC56,4},
{0xC62,0xC63,4},
{0xC81,0xC81,4},
{0xC82,0xC83,8},
{0xCBC,0xCBC,4},
{0xCBE,0xCBE,8},
{0xCBF,0xCBF,4},
{0xCC0,0xCC1,8},
{0xCC2,0xCC2,4},
{0xCC3,0xCC4,8},
{0xCC6,0xCC6,4},
{0xCC7,0xCC8,8},
{0xCCA,0xCCB,8},
{0xCCC,0xCCD,4},
{0xCD5,0xCD6,4},
{0xCE2,0xCE3,4},
{0xCF3,0xCF3,8},
{0xD00,0xD01,4},
{0xD02,0xD03,8},
{0xD3B,0xD3C,4},
{0xD3E,0xD3E,4},
{0xD3F,0xD40,8},
{0xD41,0xD44,4},
{0xD46,0xD48,8},
{0xD4A,0xD4C,8},
{0xD4D,0xD4D,4},
{0xD4E,0xD4E,7},
{0xD57,0xD57,4},
{0xD62,0xD63,4},
{0xD81,0xD81,4},
{0xD82,0xD83,8},
{0xDCA,0xDCA,4},
{0xDCF,0xDCF,4},
{0xDD0,0xDD1,8},
{0xDD2,0xDD4,4},
{0xDD6,0xDD6,4},
{0xDD8,0xDDE,8},
{0xDDF,0xDDF,4},
{0xDF2,0xDF3,8},
{0xE31,0xE31,4},
{0xE33,0xE33,8},
{0xE34,0xE3A,4},
{0xE47,0xE4E,4},
{0xEB1,0xEB1,4},
{0xEB3,0xEB3,8},
{0xEB4,0xEBC,4},
{0xEC8,0xECE,4},
{0xF18,0xF19,4},
{0xF35,0xF35,4},
{0xF37,0xF37,4},
{0xF39,0xF39,4},
{0xF3E,0xF3F,8},
{0xF71,0xF7E,4},
{0xF7F,0xF7F,8},
{0xF80,0xF84,4},
{0xF86,0xF87,4},
{0xF8D,0xF97,4},
{0xF99,0xFBC,4},
{0xFC6,0xFC6,4},
{0x102D,0x1030,4},
{0x1031,0x1031,8},
{0x1032,0x1037,4},
{0x1039,0x103A,4},
{0x103B,0x103C,8},
{0x103D,0x103E,4},
{0x1056,0x1057,8},
{0x1058,0x1059,4},
{0x105E,0x1060,4},
{0x1071,0x1074,4},
{0x1082,0x1082,4},
{0x1084,0x1084,8},
{0x1085,0x1086,4},
{0x108D,0x108D,4},
{0x109D,0x109D,4},
{0x1100,0x115F,9},
{0x1160,0x11A7,10},
{0x11A8,0x11FF,11},
{0x135D,0x135F,4},
{0x1712,0x1714,4},
{0x1715,0x1715,8},
{0x1732,0x1733,4},
{0x1734,0x1734,8},
{0x1752,0x1753,4},
{0x1772,0x1773,4},
{0x17B4,0x17B5,4},
{0x17B6,0x17B6,8},
{0x17B7,0x17BD,4},
{0x17BE,0x17C5,8},
{0x17C6,0x17C6,4},
{0x17C7,0x17C8,8},
{0x17C9,0x17D3,4},
{0x17DD,0x17DD,4},
{0x180B,0x180D,4},
{0x180E,0x180E,3},
{0x180F,0x180F,4},
{0x1885,0x1886,4},
{0x18A9,0x18A9,4},
{0x1920,0x1922,4},
{0x1923,0x1926,8},
{0x1927,0x1928,4},
{0x1929,0x192B,8},
{0x1930,0x1931,8},
{0x1932,0x1932,4},
{0x1933,0x1938,8},
{0x1939,0x193B,4},
{0x1A17,0x1A18,4},
{0x1A19,0x1A1A,8},
{0x1A1B,0x1A1B,4},
{0x1A55,0x1A55,8},
{0x1A56,0x1A56,4},
{0x1A57,0x1A57,8},
{0x1A58,0x1A5E,4},
{0x1A60,0x1A60,4},
{0x1A62,0x1A62,4},
{0x1A65,0x1A6C,4},
{0x1A6D,0x1A72,8},
{0x1A73,0x1A7C,4},
{0x1A7F,0x1A7F,4},
{0x1AB0,0x1ACE,4},
{0x1B00,0x1B03,4},
{0x1B04,0x1B04,8},
{0x1B34,0x1B3A,4},
{0x1B3B,0x1B3B,8},
{0x1B3C,0x1B3C,4},
{0x1B3D,0x1B41,8},
{0x1B42,0x1B42,4},
{0x1B43,0x1B44,8},
{0x1B6B,0x1B73,4},
{0x1B80,0x1B81,4},
{0x1B82,0x1B82,8},
{0x1BA1,0x1BA1,8},
{0x1BA2,0x1BA5,4},
{0x1BA6,0x1BA7,8},
{0x1BA8,0x1BA9,4},
{0x1BAA,0x1BAA,8},
{0x1BAB,0x1BAD,4},
{0x1BE6,0x1BE6,4},
{0x1BE7,0x1BE7,8},
{0x1BE8,0x1BE9,4},
{0x1BEA,0x1BEC,8},
{0x1BED,0x1BED,4},
{0x1BEE,0x1BEE,8},
{0x1BEF,0x1BF1,4},
{0x1BF2,0x1BF3,8},
{0x1C24,0x1C2B,8},
{0x1C2C,0x1C33,4},
{0x1C34,0x1C35,8},
{0x1C36,0x1C37,4},
{0x1CD0,0x1CD2,4},
{0x1CD4,0x1CE0,4},
{0x1CE1,0x1CE1,8},
{0x1CE2,0x1CE8,4},
{0x1CED,0x1CED,4},
{0x1CF4,0x1CF4,4},
{0x1CF7,0x1CF7,8},
{0x1CF8,0x1CF9,4},
{0x1DC0,0x1DFF,4},
{0x200B,0x200B,3},
{0x200C,0x200C,4},
{0x200D,0x200D,5},
{0x200E,0x200F,3},
{0x2028,0x202E,3},
{0x2060,0x206F,3},
{0x20D0,0x20F0,4},
{0x2CEF,0x2CF1,4},
{0x2D7F,0x2D7F,4},
{0x2DE0,0x2DFF,4},
{0x302A,0x302F,4},
{0x3099,0x309A,4},
{0xA66F,0xA672,4},
{0xA674,0xA67D,4},
{0xA69E,0xA69F,4},
{0xA6F0,0xA6F1,4},
{0xA802,0xA802,4},
{0xA806,0xA806,4},
{0xA80B,0xA80B,4},
{0xA823,0xA824,8},
{0xA825,0xA826,4},
{0xA827,0xA827,8},
{0xA82C,0xA82C,4},
{0xA880,0xA881,8},
{0xA8B4,0xA8C3,8},
{0xA8C4,0xA8C5,4},
{0xA8E0,0xA8F1,4},
{0xA8FF,0xA8FF,4},
{0xA926,0xA92D,4},
{0xA947,0xA951,4},
{0xA952,0xA953,8},
{0xA960,0xA97C,9},
{0xA980,0xA982,4},
{0xA983,0xA983,8},
{0xA9B3,0xA9B3,4},
{0xA9B4,0xA9B5,8},
{0xA9B6,0xA9B9,4},
{0xA9BA,0xA9BB,8},
{0xA9BC,0xA9BD,4},
{0xA9BE,0xA9C0,8},
{0xA9E5,0xA9E5,4},
{0xAA29,0xAA2E,4},
{0xAA2F,0xAA30,8},
{0xAA31,0xAA32,4},
{0xAA33,0xAA34,8},
{0xAA35,0xAA36,4},
{0xAA43,0xAA43,4},
{0xAA4C,0xAA4C,4},
{0xAA4D,0xAA4D,8},
{0xAA7C,0xAA7C,4},
{0xAAB0,0xAAB0,4},
{0xAAB2,0xAAB4,4},
{0xAAB7,0xAAB8,4},
{0xAABE,0xAABF,4},
{0xAAC1,0xAAC1,4},
{0xAAEB,0xAAEB,8},
{0xAAEC,0xAAED,4},
{0xAAEE,0xAAEF,8},
{0xAAF5,0xAAF5,8},
{0xAAF6,0xAAF6,4},
{0xABE3,0xABE4,8},
{0xABE5,0xABE5,4},
{0xABE6,0xABE7,8},
{0xABE8,0xABE8,4},
{0xABE9,0xABEA,8},
{0xABEC,0xABEC,8},
{0xABED,0xABED,4},
{0xAC00,0xAC00,12},
{0xAC01,0xAC1B,13},
{0xAC1C,0xAC1C,12},
{0xAC1D,0xAC37,13},
{0xAC38,0xAC38,12},
{0xAC39,0xAC53,13},
{0xAC54,0xAC54,12},
{0xAC55,0xAC6F,13},
{0xAC70,0xAC70,12},
{0xAC71,0xAC8B,13},
{0xAC8C,0xAC8C,12},
{0xAC8D,0xACA7,13},
{0xACA8,0xACA8,12},
{0xACA9,0xACC3,13},
{0xACC4,0xACC4,12},
{0xACC5,0xACDF,13},
{0xACE0,0xACE0,12},
{0xACE1,0xACFB,13},
{0xACFC,0xACFC,12},
{0xACFD,0xAD17,13},
{0xAD18,0xAD18,12},
{0xAD19,0xAD33,13},
{0xAD34,0xAD34,12},
{0xAD35,0xAD4F,13},
{0xAD50,0xAD50,12},
{0xAD51,0xAD6B,13},
{0xAD6C,0xAD6C,12},
{0xAD6D,0xAD87,13},
{0xAD88,0xAD88,12},
{0xAD89,0xADA3,13},
{0xADA4,0xADA4,12},
{0xADA5,0xADBF,13},
{0xADC0,0xADC0,12},
{0xADC1,0xADDB,13},
{0xADDC,0xADDC,12},
{0xADDD,0xADF7,13},
{0xADF8,0xADF8,12},
{0xADF9,0xAE13,13},
{0xAE14,0xAE14,12},
{0xAE15,0xAE2F,13},
{0xAE30,0xAE30,12},
{0xAE31,0xAE4B,13},
{0xAE4C,0xAE4C,12},
{0xAE4D,0xAE67,13},
{0xAE68,0xAE68,12},
{0xAE69,0xAE83,13},
{0xAE84,0xAE84,12},
{0xAE85,0xAE9F,13},
{0xAEA0,0xAEA0,12},
{0xAEA1,0xAEBB,13},
{0xAEBC,0xAEBC,12},
{0xAEBD,0xAED7,13},
{0xAED8,0xAED8,12},
{0xAED9,0xAEF3,13},
{0xAEF4,0xAEF4,12},
{0xAEF5,0xAF0F,13},
{0xAF10,0xAF10,12},
{0xAF11,0xAF2B,13},
{0xAF2C,0xAF2C,12},
{0xAF2D,0xAF47,13},
{0xAF48,0xAF48,12},
{0xAF49,0xAF63,13},
{0xAF64,0xAF64,12},
{0xAF65,0xAF7F,13},
{0xAF80,0xAF80,12},
{0xAF81,0xAF9B,13},
{0xAF9C,0xAF9C,12},
{0xAF9D,0xAFB7,13},
{0xAFB8,0xAFB8,12},
{0xAFB9,0xAFD3,13},
{0xAFD4,0xAFD4,12},
{0xAFD5,0xAFEF,13},
{0xAFF0,0xAFF0,12},
{0xAFF1,0xB00B,13},
{0xB00C,0xB00C,12},
{0xB00D,0xB027,13},
{0xB028,0xB028,12},
{0xB029,0xB043,13},
{0xB044,0xB044,12},
{0xB045,0xB05F,13},
{0xB060,0xB060,12},
{0xB061,0xB07B,13},
{0xB07C,0xB07C,12},
{0xB07D,0xB097,13},
{0xB098,0xB098,12},
{0xB099,0xB0B3,13},
{0xB0B4,0xB0B4,12},
{0xB0B5,0xB0CF,13},
{0xB0D0,0xB0D0,12},
{0xB0D1,0xB0EB,13},
{0xB0EC,0xB0EC,12},
{0xB0ED,0xB107,13},
{0xB108,0xB108,12},
{0xB109,0xB123,13},
{0xB124,0xB124,12},
{0xB125,0xB13F,13},
{0xB140,0xB140,12},
{0xB141,0xB15B,13},
{0xB15C,0xB15C,12},
{0xB15D,0xB177,13},
{0xB178,0xB178,12},
{0xB179,0xB193,13},
{0xB194,0xB194,12},
{0xB195,0xB1AF,13},
{0xB1B0,0xB1B0,12},
{0xB1B1,0xB1CB,13},
{0xB1CC,0xB1CC,12},
{0xB1CD,0xB1E7,13},
{0xB1E8,0xB1E8,12},
{0xB1E9,0xB203,13},
{0xB204,0xB204,12},
{0xB205,0xB21F,13},
{0xB220,0xB220,12},
{0xB221,0xB23B,13},
{0xB23C,0xB23C,12},
{0xB23D,0xB257,13},
{0xB258,0xB258,12},
{0xB259,0xB273,13},
{0xB274,0xB274,12},
{0xB275,0xB28F,13},
{0xB290,0xB290,12},
{0xB291,0xB2AB,13},
{0xB2AC,0xB2AC,12},
{0xB2AD,0xB2C7,13},
{0xB2C8,0xB2C8,12},
{0xB2C9,0xB2E3,13},
{0xB2E4,0xB2E4,12},
{0xB2E5,0xB2FF,13},
{0xB300,0xB300,12},
{0xB301,0xB31B,13},
{0xB31C,0xB31C,12},
{0xB31D,0xB337,13},
{0xB338,0xB338,12},
{0xB339,0xB353,13},
{0xB354,0xB354,12},
{0xB355,0xB36F,13},
{0xB370,0xB370,12},
{0xB371,0xB38B,13},
{0xB38C,0xB38C,12},
{0xB38D,0xB3A7,13},
{0xB3A8,0xB3A8,12},
{0xB3A9,0xB3C3,13},
{0xB3C4,0xB3C4,12},
{0xB3C5,0xB3DF,13},
{0xB3E0,0xB3E0,12},
{0xB3E1,0xB3FB,13},
{0xB3FC,0xB3FC,12},
{0xB3FD,0xB417,13},
{0xB418,0xB418,12},
{0xB419,0xB433,13},
{0xB434,0xB434,12},
{0xB435,0xB44F,13},
{0xB450,0xB450,12},
{0xB451,0xB46B,13},
{0xB46C,0xB46C,12},
{0xB46D,0xB487,13},
{0xB488,0xB488,12},
{0xB489,0xB4A3,13},
{0xB4A4,0xB4A4,12},
{0xB4A5,0xB4BF,13},
{0xB4C0,0xB4C0,12},
{0xB4C1,0xB4DB,13},
{0xB4DC,0xB4DC,12},
{0xB4DD,0xB4F7,13},
{0xB4F8,0xB4F8,12},
{0xB4F9,0xB513,13},
{0xB514,0xB514,12},
{0xB515,0xB52F,13},
{0xB530,0xB530,12},
{0xB531,0xB54B,13},
{0xB54C,0xB54C,12},
{0xB54D,0xB567,13},
{0xB568,0xB568,12},
{0xB569,0xB583,13},
{0xB584,0xB584,12},
{0xB585,0xB59F,13},
{0xB5A0,0xB5A0,12},
{0xB5A1,0xB5BB,13},
{0xB5BC,0xB5BC,12},
{0xB5BD,0xB5D7,13},
{0xB5D8,0xB5D8,12},
{0xB5D9,0xB5F3,13},
{0xB5F4,0xB5F4,12},
{0xB5F5,0xB60F,13},
{0xB610,0xB610,12},
{0xB611,0xB62B,13},
{0xB62C,0xB62C,12},
{0xB62D,0xB647,13},
{0xB648,0xB648,12},
{0xB649,0xB663,13},
{0xB664,0xB664,12},
{0xB665,0xB67F,13},
{0xB680,0xB680,12},
{0xB681,0xB69B,13},
{0xB69C,0xB69C,12},
{0xB69D,0xB6B7,13},
{0xB6B8,0xB6B8,12},
{0xB6B9,0xB6D3,13},
{0xB6D4,0xB6D4,12},
{0xB6D5,0xB6EF,13},
{0xB6F0,0xB6F0,12},
{0xB6F1,0xB70B,13},
{0xB70C,0xB70C,12},
{0xB70D,0xB727,13},
{0xB728,0xB728,12},
{0xB729,0xB743,13},
{0xB744,0xB744,12},
{0xB745,0xB75F,13},
{0xB760,0xB760,12},
{0xB761,0xB77B,13},
{0xB77C,0xB77C,12},
{0xB77D,0xB797,13},
{0xB798,0xB798,12},
{0xB799,0xB7B3,13},
{0xB7B4,0xB7B4,12},
{0xB7B5,0xB7CF,13},
{0xB7D0,0xB7D0,12},
{0xB7D1,0xB7EB,13},
{0xB7EC,0xB7EC,12},
{0xB7ED,0xB807,13},
{0xB808,0xB808,12},
{0xB809,0xB823,13},
{0xB824,0xB824,12},
{0xB825,0xB83F,13},
{0xB840,0xB840,12},
{0xB841,0xB85B,13},
{0xB85C,0xB85C,12},
{0xB85D,0xB877,13},
{0xB878,0xB878,12},
{0xB879,0xB893,13},
{0xB894,0xB894,12},
{0xB895,0xB8AF,13},
{0xB8B0,0xB8B0,12},
{0xB8B1,0xB8CB,13},
{0xB8CC,0xB8CC,12},
{0xB8CD,0xB8E7,13},
{0xB8E8,0xB8E8,12},
{0xB8E9,0xB903,13},
{0xB904,0xB904,12},
{0xB905,0xB91F,13},
{0xB920,0xB920,12},
{0xB921,0xB93B,13},
{0xB93C,0xB93C,12},
{0xB93D,0xB957,13},
{0xB958,0xB958,12},
{0xB959,0xB973,13},
{0xB974,0xB974,12},
{0xB975,0xB98F,13},
{0xB990,0xB990,12},
{0xB991,0xB9AB,13},
{0xB9AC,0xB9AC,12},
{0xB9AD,0xB9C7,13},
{0xB9C8,0xB9C8,12},
{0xB9C9,0xB9E3,13},
{0xB9E4,0xB9E4,12},
{0xB9E5,0xB9FF,13},
{0xBA00,0xBA00,12},
{0xBA01,0xBA1B,13},
{0xBA1C,0xBA1C,12},
{0xBA1D,0xBA37,13},
{0xBA38,0xBA38,12},
{0xBA39,0xBA53,13},
{0xBA54,0xBA54,12},
{0xBA55,0xBA6F,13},
{0xBA70,0xBA70,12},
{0xBA71,0xBA8B,13},
{0xBA8C,0xBA8C,12},
{0xBA8D,0xBAA7,13},
{0xBAA8,0xBAA8,12},
{0xBAA9,0xBAC3,13},
{0xBAC4,0xBAC4,12},
{0xBAC5,0xBADF,13},
{0xBAE0,0xBAE0,12},
{0xBAE1,0xBAFB,13},
{0xBAFC,0xBAFC,12},
{0xBAFD,0xBB17,13},
{0xBB18,0xBB18,12},
{0xBB19,0xBB33,13},
{0xBB34,0xBB34,12},
{0xBB35,0xBB4F,13},
{0xBB50,0xBB50,12},
{0xBB51,0xBB6B,13},
{0xBB6C,0xBB6C,12},
{0xBB6D,0xBB87,13},
{0xBB88,0xBB88,12},
{0xBB89,0xBBA3,13},
{0xBBA4,0xBBA4,12},
{0xBBA5,0xBBBF,13},
{0xBBC0,0xBBC0,12},
{0xBBC1,0xBBDB,13},
{0xBBDC,0xBBDC,12},
{0xBBDD,0xBBF7,13},
{0xBBF8,0xBBF8,12},
{0xBBF9,0xBC13,13},
{0xBC14,0xBC14,12},
{0xBC15,0xBC2F,13},
{0xBC30,0xBC30,12},
{0xBC31,0xBC4B,13},
{0xBC4C,0xBC4C,12},
{0xBC4D,0xBC67,13},
{0xBC68,0xBC68,12},
{0xBC69,0xBC83,13},
{0xBC84,0xBC84,12},
{0xBC85,0xBC9F,13},
{0xBCA0,0xBCA0,12},
{0xBCA1,0xBCBB,13},
{0xBCBC,0xBCBC,12},
{0xBCBD,0xBCD7,13},
{0xBCD8,0xBCD8,12},
{0xBCD9,0xBCF3,13},
{0xBCF4,0xBCF4,12},
{0xBCF5,0xBD0F,13},
{0xBD10,0xBD10,12},
{0xBD11,0xBD2B,13},
{0xBD2C,0xBD2C,12},
{0xBD2D,0xBD47,13},
{0xBD48,0xBD48,12},
{0xBD49,0xBD63,13},
{0xBD64,0xBD64,12},
{0xBD65,0xBD7F,13},
{0xBD80,0xBD80,12},
{0xBD81,0xBD9B,13},
{0xBD9C,0xBD9C,12},
{0xBD9D,0xBDB7,13},
{0xBDB8,0xBDB8,12},
{0xBDB9,0xBDD3,13},
{0xBDD4,0xBDD4,12},
{0xBDD5,0xBDEF,13},
{0xBDF0,0xBDF0,12},
{0xBDF1,0xBE0B,13},
{0xBE0C,0xBE0C,12},
{0xBE0D,0xBE27,13},
{0xBE28,0xBE28,12},
{0xBE29,0xBE43,13},
{0xBE44,0xBE44,12},
{0xBE45,0xBE5F,13},
{0xBE60,0xBE60,12},
{0xBE61,0xBE7B,13},
{0xBE7C,0xBE7C,12},
{0xBE7D,0xBE97,13},
{0xBE98,0xBE98,12},
{0xBE99,0xBEB3,13},
{0xBEB4,0xBEB4,12},
{0xBEB5,0xBECF,13},
{0xBED0,0xBED0,12},
{0xBED1,0xBEEB,13},
{0xBEEC,0xBEEC,12},
{0xBEED,0xBF07,13},
{0xBF08,0xBF08,12},
{0xBF09,0xBF23,13},
{0xBF24,0xBF24,12},
{0xBF25,0xBF3F,13},
{0xBF40,0xBF40,12},
{0xBF41,0xBF5B,13},
{0xBF5C,0xBF5C,12},
{0xBF5D,0xBF77,13},
{0xBF78,0xBF78,12},
{0xBF79,0xBF93,13},
{0xBF94,0xBF94,12},
{0xBF95,0xBFAF,13},
{0xBFB0,0xBFB0,12},
{0xBFB1,0xBFCB,13},
{0xBFCC,0xBFCC,12},
{0xBFCD,0xBFE7,13},
{0xBFE8,0xBFE8,12},
{0xBFE9,0xC003,13},
{0xC004,0xC004,12},
{0xC005,0xC01F,13},
{0xC020,0xC020,12},
{0xC021,0xC03B,13},
{0xC03C,0xC03C,12},
{0xC03D,0xC057,13},
{0xC058,0xC058,12},
{0xC059,0xC073,13},
{0xC074,0xC074,12},
{0xC075,0xC08F,13},
{0xC090,0xC090,12},
{0xC091,0xC0AB,13},
{0xC0AC,0xC0AC,12},
{0xC0AD,0xC0C7,13},
{0xC0C8,0xC0C8,12},
{0xC0C9,0xC0E3,13},
{0xC0E4,0xC0E4,12},
{0xC0E5,0xC0FF,13},
{0xC100,0xC100,12},
{0xC101,0xC11B,13},
{0xC11C,0xC11C,12},
{0xC11D,0xC137,13},
{0xC138,0xC138,12},
{0xC139,0xC153,13},
{0xC154,0xC154,12},
{0xC155,0xC16F,13},
{0xC170,0xC170,12},
{0xC171,0xC18B,13},
{0xC18C,0xC18C,12},
{0xC18D,0xC1A7,13},
{0xC1A8,0xC1A8,12},
{0xC1A9,0xC1C3,13},
{0xC1C4,0xC1C4,12},
{0xC1C5,0xC1DF,13},
{0xC1E0,0xC1E0,12},
{0xC1E1,0xC1FB,13},
{0xC1FC,0xC1FC,12},
{0xC1FD,0xC217,13},
{0xC218,0xC218,12},
{0xC219,0xC233,13},
{0xC234,0xC234,12},
{0xC235,0xC24F,13},
{0xC250,0xC250,12},
{0xC251,0xC26B,13},
{0xC26C,0xC26C,12},
{0xC26D,0xC287,13},
{0xC288,0xC288,12},
{0xC289,0xC2A3,13},
{0xC2A4,0xC2A4,12},
{0xC2A5,0xC2BF,13},
{0xC2C0,0xC2C0,12},
{0xC2C1,0xC2DB,13},
{0xC2DC,0xC2DC,12},
{0xC2DD,0xC2F7,13},
{0xC2F8,0xC2F8,12},
{0xC2F9,0xC313,13},
{0xC314,0xC314,12},
{0xC315,0xC32F,13},
{0xC330,0xC330,12},
{0xC331,0xC34B,13},
{0xC34C,0xC34C,12},
{0xC34D,0xC367,13},
{0xC368,0xC368,12},
{0xC369,0xC383,13},
{0xC384,0xC384,12},
{0xC385,0xC39F,13},
{0xC3A0,0xC3A0,12},
{0xC3A1,0xC3BB,13},
{0xC3BC,0xC3BC,12},
{0xC3BD,0xC3D7,13},
{0xC3D8,0xC3D8,12},
{0xC3D9,0xC3F3,13},
{0xC3F4,0xC3F4,12},
{0xC3F5,0xC40F,13},
{0xC410,0xC410,12},
{0xC411,0xC42B,13},
{0xC42C,0xC42C,12},
{0xC42D,0xC447,13},
{0xC448,0xC448,12},
{0xC449,0xC463,13},
{0xC464,0xC464,12},
{0xC465,0xC47F,13},
{0xC480,0xC480,12},
{0xC481,0xC49B,13},
{0xC49C,0xC49C,12},
{0xC49D,0xC4B7,13},
{0xC4B8,0xC4B8,12},
{0xC4B9,0xC4D3,13},
{0xC4D4,0xC4D4,12},
{0xC4D5,0xC4EF,13},
{0xC4F0,0xC4F0,12},
{0xC4F1,0xC50B,13},
{0xC50C,0xC50C,12},
{0xC50D,0xC527,13},
{0xC528,0xC528,12},
{0xC529,0xC543,13},
{0xC544,0xC544,12},
{0xC545,0xC55F,13},
{0xC560,0xC560,12},
{0xC561,0xC57B,13},
{0xC57C,0xC57C,12},
{0xC57D,0xC597,13},
{0xC598,0xC598,12},
{0xC599,0xC5B3,13},
{0xC5B4,0xC5B4,12},
{0xC5B5,0xC5CF,13},
{0xC5D0,0xC5D0,12},
{0xC5D1,0xC5EB,13},
{0xC5EC,0xC5EC,12},
{0xC5ED,0xC607,13},
{0xC608,0xC608,12},
{0xC609,0xC623,13},
{0xC624,0xC624,12},
{0xC625,0xC63F,13},
{0xC640,0xC640,12},
{0xC641,0xC65B,13},
{0xC65C,0xC65C,12},
{0xC65D,0xC677,13},
{0xC678,0xC678,12},
{0xC679,0xC693,13},
{0xC694,0xC694,12},
{0xC695,0xC6AF,13},
{0xC6B0,0xC6B0,12},
{0xC6B1,0xC6CB,13},
{0xC6CC,0xC6CC,12},
{0xC6CD,0xC6E7,13},
{0xC6E8,0xC6E8,12},
{0xC6E9,0xC703,13},
{0xC704,0xC704,12},
{0xC705,0xC71F,13},
{0xC720,0xC720,12},
{0xC721,0xC73B,13},
{0xC73C,0xC73C,12},
{0xC73D,0xC757,13},
{0xC758,0xC758,12},
{0xC759,0xC773,13},
{0xC774,0xC774,12},
{0xC775,0xC78F,13},
{0xC790,0xC790,12},
{0xC791,0xC7AB,13},
{0xC7AC,0xC7AC,12},
{0xC7AD,0xC7C7,13},
{0xC7C8,0xC7C8,12},
{0xC7C9,0xC7E3,13},
{0xC7E4,0xC7E4,12},
{0xC7E5,0xC7FF,13},
{0xC800,0xC800,12},
{0xC801,0xC81B,13},
{0xC81C,0xC81C,12},
{0xC81D,0xC837,13},
{0xC838,0xC838,12},
{0xC839,0xC853,13},
{0xC854,0xC854,12},
{0xC855,0xC86F,13},
{0xC870,0xC870,12},
{0xC871,0xC88B,13},
{0xC88C,0xC88C,12},
{0xC88D,0xC8A7,13},
{0xC8A8,0xC8A8,12},
{0xC8A9,0xC8C3,13},
{0xC8C4,0xC8C4,12},
{0xC8C5,0xC8DF,13},
{0xC8E0,0xC8E0,12},
{0xC8E1,0xC8FB,13},
{0xC8FC,0xC8FC,12},
{0xC8FD,0xC917,13},
{0xC918,0xC918,12},
{0xC919,0xC933,13},
{0xC934,0xC934,12},
{0xC935,0xC94F,13},
{0xC950,0xC950,12},
{0xC951,0xC96B,13},
{0xC96C,0xC96C,12},
{0xC96D,0xC987,13},
{0xC988,0xC988,12},
{0xC989,0xC9A3,13},
{0xC9A4,0xC9A4,12},
{0xC9A5,0xC9BF,13},
{0xC9C0,0xC9C0,12},
{0xC9C1,0xC9DB,13},
{0xC9DC,0xC9DC,12},
{0xC9DD,0xC9F7,13},
{0xC9F8,0xC9F8,12},
{0xC9F9,0xCA13,13},
{0xCA14,0xCA14,12},
{0xCA15,0xCA2F,13},
{0xCA30,0xCA30,12},
{0xCA31,0xCA4B,13},
{0xCA4C,0xCA4C,12},
{0xCA4D,0xCA67,13},
{0xCA68,0xCA68,12},
{0xCA69,0xCA83,13},
{0xCA84,0xCA84,12},
{0xCA85,0xCA9F,13},
{0xCAA0,0xCAA0,12},
{0xCAA1,0xCABB,13},
{0xCABC,0xCABC,12},
{0xCABD,0xCAD7,13},
{0xCAD8,0xCAD8,12},
{0xCAD9,0xCAF3,13},
{0xCAF4,0xCAF4,12},
{0xCAF5,0xCB0F,13},
{0xCB10,0xCB10,12},
{0xCB11,0xCB2B,13},
{0xCB2C,0xCB2C,12},
{0xCB2D,0xCB47,13},
{0xCB48,0xCB48,12},
{0xCB49,0xCB63,13},
{0xCB64,0xCB64,12},
{0xCB65,0xCB7F,13},
{0xCB80,0xCB80,12},
{0xCB81,0xCB9B,13},
{0xCB9C,0xCB9C,12},
{0xCB9D,0xCBB7,13},
{0xCBB8,0xCBB8,12},
{0xCBB9,0xCBD3,13},
{0xCBD4,0xCBD4,12},
{0xCBD5,0xCBEF,13},
{0xCBF0,0xCBF0,12},
{0xCBF1,0xCC0B,13},
{0xCC0C,0xCC0C,12},
{0xCC0D,0xCC27,13},
{0xCC28,0xCC28,12},
{0xCC29,0xCC43,13},
{0xCC44,0xCC44,12},
{0xCC45,0xCC5F,13},
{0xCC60,0xCC60,12},
{0xCC61,0xCC7B,13},
{0xCC7C,0xCC7C,12},
{0xCC7D,0xCC97,13},
{0xCC98,0xCC98,12},
{0xCC99,0xCCB3,13},
{0xCCB4,0xCCB4,12},
{0xCCB5,0xCCCF,13},
{0xCCD0,0xCCD0,12},
{0xCCD1,0xCCEB,13},
{0xCCEC,0xCCEC,12},
{0xCCED,0xCD07,13},
{0xCD08,0xCD08,12},
{0xCD09,0xCD23,13},
{0xCD24,0xCD24,12},
{0xCD25,0xCD3F,13},
{0xCD40,0xCD40,12},
{0xCD41,0xCD5B,13},
{0xCD5C,0xCD5C,12},
{0xCD5D,0xCD77,13},
{0xCD78,0xCD78,12},
{0xCD79,0xCD93,13},
{0xCD94,0xCD94,12},
{0xCD95,0xCDAF,13},
{0xCDB0,0xCDB0,12},
{0xCDB1,0xCDCB,13},
{0xCDCC,0xCDCC,12},
{0xCDCD,0xCDE7,13},
{0xCDE8,0xCDE8,12},
{0xCDE9,0xCE03,13},
{0xCE04,0xCE04,12},
{0xCE05,0xCE1F,13},
{0xCE20,0xCE20,12},
{0xCE21,0xCE3B,13},
{0xCE3C,0xCE3C,12},
{0xCE3D,0xCE57,13},
{0xCE58,0xCE58,12},
{0xCE59,0xCE73,13},
{0xCE74,0xCE74,12},
{0xCE75,0xCE8F,13},
{0xCE90,0xCE90,12},
{0xCE91,0xCEAB,13},
{0xCEAC,0xCEAC,12},
{0xCEAD,0xCEC7,13},
{0xCEC8,0xCEC8,12},
{0xCEC9,0xCEE3,13},
{0xCEE4,0xCEE4,12},
{0xCEE5,0xCEFF,13},
{0xCF00,0xCF00,12},
{0xCF01,0xCF1B,13},
{0xCF1C,0xCF1C,12},
{0xCF1D,0xCF37,13},
{0xCF38,0xCF38,12},
{0xCF39,0xCF53,13},
{0xCF54,0xCF54,12},
{0xCF55,0xCF6F,13},
{0xCF70,0xCF70,12},
{0xCF71,0xCF8B,13},
{0xCF8C,0xCF8C,12},
{0xCF8D,0xCFA7,13},
{0xCFA8,0xCFA8,12},
{0xCFA9,0xCFC3,13},
{0xCFC4,0xCFC4,12},
{0xCFC5,0xCFDF,13},
{0xCFE0,0xCFE0,12},
{0xCFE1,0xCFFB,13},
{0xCFFC,0xCFFC,12},
{0xCFFD,0xD017,13},
{0xD018,0xD018,12},
{0xD019,0xD033,13},
{0xD034,0xD034,12},
{0xD035,0xD04F,13},
{0xD050,0xD050,12},
{0xD051,0xD06B,13},
{0xD06C,0xD06C,12},
{0xD06D,0xD087,13},
{0xD088,0xD088,12},
{0xD089,0xD0A3,13},
{0xD0A4,0xD0A4,12},
{0xD0A5,0xD0BF,13},
{0xD0C0,0xD0C0,12},
{0xD0C1,0xD0DB,13},
{0xD0DC,0xD0DC,12},
{0xD0DD,0xD0F7,13},
{0xD0F8,0xD0F8,12},
{0xD0F9,0xD113,13},
{0xD114,0xD114,12},
{0xD115,0xD12F,13},
{0xD130,0xD130,12},
{0xD131,0xD14B,13},
{0xD14C,0xD14C,12},
{0xD14D,0xD167,13},
{0xD168,0xD168,12},
{0xD169,0xD183,13},
{0xD184,0xD184,12},
{0xD185,0xD19F,13},
{0xD1A0,0xD1A0,12},
{0xD1A1,0xD1BB,13},
{0xD1BC,0xD1BC,12},
{0xD1BD,0xD1D7,13},
{0xD1D8,0xD1D8,12},
{0xD1D9,0xD1F3,13},
{0xD1F4,0xD1F4,12},
{0xD1F5,0xD20F,13},
{0xD210,0xD210,12},
{0xD211,0xD22B,13},
{0xD22C,0xD22C,12},
{0xD22D,0xD247,13},
{0xD248,0xD248,12},
{0xD249,0xD263,13},
{0xD264,0xD264,12},
{0xD265,0xD27F,13},
{0xD280,0xD280,12},
{0xD281,0xD29B,13},
{0xD29C,0xD29C,12},
{0xD29D,0xD2B7,13},
{0xD2B8,0xD2B8,12},
{0xD2B9,0xD2D3,13},
{0xD2D4,0xD2D4,12},
{0xD2D5,0xD2EF,13},
{0xD2F0,0xD2F0,12},
{0xD2F1,0xD30B,13},
{0xD30C,0xD30C,12},
{0xD30D,0xD327,13},
{0xD328,0xD328,12},
{0xD329,0xD343,13},
{0xD344,0xD344,12},
{0xD345,0xD35F,13},
{0xD360,0xD360,12},
{0xD361,0xD37B,13},
{0xD37C,0xD37C,12},
{0xD37D,0xD397,13},
{0xD398,0xD398,12},
{0xD399,0xD3B3,13},
{0xD3B4,0xD3B4,12},
{0xD3B5,0xD3CF,13},
{0xD3D0,0xD3D0,12},
{0xD3D1,0xD3EB,13},
{0xD3EC,0xD3EC,12},
{0xD3ED,0xD407,13},
{0xD408,0xD408,12},
{0xD409,0xD423,13},
{0xD424,0xD424,12},
{0xD425,0xD43F,13},
{0xD440,0xD440,12},
{0xD441,0xD45B,13},
{0xD45C,0xD45C,12},
{0xD45D,0xD477,13},
{0xD478,0xD478,12},
{0xD479,0xD493,13},
{0xD494,0xD494,12},
{0xD495,0xD4AF,13},
{0xD4B0,0xD4B0,12},
{0xD4B1,0xD4CB,13},
{0xD4CC,0xD4CC,12},
{0xD4CD,0xD4E7,13},
{0xD4E8,0xD4E8,12},
{0xD4E9,0xD503,13},
{0xD504,0xD504,12},
{0xD505,0xD51F,13},
{0xD520,0xD520,12},
{0xD521,0xD53B,13},
{0xD53C,0xD53C,12},
{0xD53D,0xD557,13},
{0xD558,0xD558,12},
{0xD559,0xD573,13},
{0xD574,0xD574,12},
{0xD575,0xD58F,13},
{0xD590,0xD590,12},
{0xD591,0xD5AB,13},
{0xD5AC,0xD5AC,12},
{0xD5AD,0xD5C7,13},
{0xD5C8,0xD5C8,12},
{0xD5C9,0xD5E3,13},
{0xD5E4,0xD5E4,12},
{0xD5E5,0xD5FF,13},
{0xD600,0xD600,12},
{0xD601,0xD61B,13},
{0xD61C,0xD61C,12},
{0xD61D,0xD637,13},
{0xD638,0xD638,12},
{0xD639,0xD653,13},
{0xD654,0xD654,12},
{0xD655,0xD66F,13},
{0xD670,0xD670,12},
{0xD671,0xD68B,13},
{0xD68C,0xD68C,12},
{0xD68D,0xD6A7,13},
{0xD6A8,0xD6A8,12},
{0xD6A9,0xD6C3,13},
{0xD6C4,0xD6C4,12},
{0xD6C5,0xD6DF,13},
{0xD6E0,0xD6E0,12},
{0xD6E1,0xD6FB,13},
{0xD6FC,0xD6FC,12},
{0xD6FD,0xD717,13},
{0xD718,0xD718,12},
{0xD719,0xD733,13},
{0xD734,0xD734,12},
{0xD735,0xD74F,13},
{0xD750,0xD750,12},
{0xD751,0xD76B,13},
{0xD76C,0xD76C,12},
{0xD76D,0xD787,13},
{0xD788,0xD788,12},
{0xD789,0xD7A3,13},
{0xD7B0,0xD7C6,10},
{0xD7CB,0xD7FB,11},
{0xFB1E,0xFB1E,4},
{0xFE00,0xFE0F,4},
{0xFE20,0xFE2F,4},
{0xFEFF,0xFEFF,3},
{0xFF9E,0xFF9F,4},
{0xFFF0,0xFFFB,3},
{0x101FD,0x101FD,4},
{0x102E0,0x102E0,4},
{0x10376,0x1037A,4},
{0x10A01,0x10A03,4},
{0x10A05,0x10A06,4},
{0x10A0C,0x10A0F,4},
{0x10A38,0x10A3A,4},
{0x10A3F,0x10A3F,4},
{0x10AE5,0x10AE6,4},
{0x10D24,0x10D27,4},
{0x10EAB,0x10EAC,4},
{0x10EFD,0x10EFF,4},
{0x10F46,0x10F50,4},
{0x10F82,0x10F85,4},
{0x11000,0x11000,8},
{0x11001,0x11001,4},
{0x11002,0x11002,8},
{0x11038,0x11046,4},
{0x11070,0x11070,4},
{0x11073,0x11074,4},
{0x1107F,0x11081,4},
{0x11082,0x11082,8},
{0x110B0,0x110B2,8},
{0x110B3,0x110B6,4},
{0x110B7,0x110B8,8},
{0x110B9,0x110BA,4},
{0x110BD,0x110BD,7},
{0x110C2,0x110C2,4},
{0x110CD,0x110CD,7},
{0x11100,0x11102,4},
{0x11127,0x1112B,4},
{0x1112C,0x1112C,8},
{0x1112D,0x11134,4},
{0x11145,0x11146,8},
{0x11173,0x11173,4},
{0x11180,0x11181,4},
{0x11182,0x11182,8},
{0x111B3,0x111B5,8},
{0x111B6,0x111BE,4},
{0x111BF,0x111C0,8},
{0x111C2,0x111C3,7},
{0x111C9,0x111CC,4},
{0x111CE,0x111CE,8},
{0x111CF,0x111CF,4},
{0x1122C,0x1122E,8},
{0x1122F,0x11231,4},
{0x11232,0x11233,8},
{0x11234,0x11234,4},
{0x11235,0x11235,8},
{0x11236,0x11237,4},
{0x1123E,0x1123E,4},
{0x11241,0x11241,4},
{0x112DF,0x112DF,4},
{0x112E0,0x112E2,8},
{0x112E3,0x112EA,4},
{0x11300,0x11301,4},
{0x11302,0x11303,8},
{0x1133B,0x1133C,4},
{0x1133E,0x1133E,4},
{0x1133F,0x1133F,8},
{0x11340,0x11340,4},
{0x11341,0x11344,8},
{0x11347,0x11348,8},
{0x1134B,0x1134D,8},
{0x11357,0x11357,4},
{0x11362,0x11363,8},
{0x11366,0x1136C,4},
{0x11370,0x11374,4},
{0x11435,0x11437,8},
{0x11438,0x1143F,4},
{0x11440,0x11441,8},
{0x11442,0x11444,4},
{0x11445,0x11445,8},
{0x11446,0x11446,4},
{0x1145E,0x1145E,4},
{0x114B0,0x114B0,4},
{0x114B1,0x114B2,8},
{0x114B3,0x114B8,4},
{0x114B9,0x114B9,8},
{0x114BA,0x114BA,4},
{0x114BB,0x114BC,8},
{0x114BD,0x114BD,4},
{0x114BE,0x114BE,8},
{0x114BF,0x114C0,4},
{0x114C1,0x114C1,8},
{0x114C2,0x114C3,4},
{0x115AF,0x115AF,4},
{0x115B0,0x115B1,8},
{0x115B2,0x115B5,4},
{0x115B8,0x115BB,8},
{0x115BC,0x115BD,4},
{0x115BE,0x115BE,8},
{0x115BF,0x115C0,4},
{0x115DC,0x115DD,4},
{0x11630,0x11632,8},
{0x11633,0x1163A,4},
{0x1163B,0x1163C,8},
{0x1163D,0x1163D,4},
{0x1163E,0x1163E,8},
{0x1163F,0x11640,4},
{0x116AB,0x116AB,4},
{0x116AC,0x116AC,8},
{0x116AD,0x116AD,4},
{0x116AE,0x116AF,8},
{0x116B0,0x116B5,4},
{0x116B6,0x116B6,8},
{0x116B7,0x116B7,4},
{0x1171D,0x1171F,4},
{0x11722,0x11725,4},
{0x11726,0x11726,8},
{0x11727,0x1172B,4},
{0x1182C,0x1182E,8},
{0x1182F,0x11837,4},
{0x11838,0x11838,8},
{0x11839,0x1183A,4},
{0x11930,0x11930,4},
{0x11931,0x11935,8},
{0x11937,0x11938,8},
{0x1193B,0x1193C,4},
{0x1193D,0x1193D,8},
{0x1193E,0x1193E,4},
{0x1193F,0x1193F,7},
{0x11940,0x11940,8},
{0x11941,0x11941,7},
{0x11942,0x11942,8},
{0x11943,0x11943,4},
{0x119D1,0x119D3,8},
{0x119D4,0x119D7,4},
{0x119DA,0x119DB,4},
{0x119DC,0x119DF,8},
{0x119E0,0x119E0,4},
{0x119E4,0x119E4,8},
{0x11A01,0x11A0A,4},
{0x11A33,0x11A38,4},
{0x11A39,0x11A39,8},
{0x11A3A,0x11A3A,7},
{0x11A3B,0x11A3E,4},
{0x11A47,0x11A47,4},
{0x11A51,0x11A56,4},
{0x11A57,0x11A58,8},
{0x11A59,0x11A5B,4},
{0x11A84,0x11A89,7},
{0x11A8A,0x11A96,4},
{0x11A97,0x11A97,8},
{0x11A98,0x11A99,4},
{0x11C2F,0x11C2F,8},
{0x11C30,0x11C36,4},
{0x11C38,0x11C3D,4},
{0x11C3E,0x11C3E,8},
{0x11C3F,0x11C3F,4},
{0x11C92,0x11CA7,4},
{0x11CA9,0x11CA9,8},
{0x11CAA,0x11CB0,4},
{0x11CB1,0x11CB1,8},
{0x11CB2,0x11CB3,4},
{0x11CB4,0x11CB4,8},
{0x11CB5,0x11CB6,4},
{0x11D31,0x11D36,4},
{0x11D3A,0x11D3A,4},
{0x11D3C,0x11D3D,4},
{0x11D3F,0x11D45,4},
{0x11D46,0x11D46,7},
{0x11D47,0x11D47,4},
{0x11D8A,0x11D8E,8},
{0x11D90,0x11D91,4},
{0x11D93,0x11D94,8},
{0x11D95,0x11D95,4},
{0x11D96,0x11D96,8},
{0x11D97,0x11D97,4},
{0x11EF3,0x11EF4,4},
{0x11EF5,0x11EF6,8},
{0x11F00,0x11F01,4},
{0x11F02,0x11F02,7},
{0x11F03,0x11F03,8},
{0x11F34,0x11F35,8},
{0x11F36,0x11F3A,4},
{0x11F3E,0x11F3F,8},
{0x11F40,0x11F40,4},
{0x11F41,0x11F41,8},
{0x11F42,0x11F42,4},
{0x13430,0x1343F,3},
{0x13440,0x13440,4},
{0x13447,0x13455,4},
{0x16AF0,0x16AF4,4},
{0x16B30,0x16B36,4},
{0x16F4F,0x16F4F,4},
{0x16F51,0x16F87,8},
{0x16F8F,0x16F92,4},
{0x16FE4,0x16FE4,4},
{0x16FF0,0x16FF1,8},
{0x1BC9D,0x1BC9E,4},
{0x1BCA0,0x1BCA3,3},
{0x1CF00,0x1CF2D,4},
{0x1CF30,0x1CF46,4},
{0x1D165,0x1D165,4},
{0x1D166,0x1D166,8},
{0x1D167,0x1D169,4},
{0x1D16D,0x1D16D,8},
{0x1D16E,0x1D172,4},
{0x1D173,0x1D17A,3},
{0x1D17B,0x1D182,4},
{0x1D185,0x1D18B,4},
{0x1D1AA,0x1D1AD,4},
{0x1D242,0x1D244,4},
{0x1DA00,0x1DA36,4},
{0x1DA3B,0x1DA6C,4},
{0x1DA75,0x1DA75,4},
{0x1DA84,0x1DA84,4},
{0x1DA9B,0x1DA9F,4},
{0x1DAA1,0x1DAAF,4},
{0x1E000,0x1E006,4},
{0x1E008,0x1E018,4},
{0x1E01B,0x1E021,4},
{0x1E023,0x1E024,4},
{0x1E026,0x1E02A,4},
{0x1E08F,0x1E08F,4},
{0x1E130,0x1E136,4},
{0x1E2AE,0x1E2AE,4},
{0x1E2EC,0x1E2EF,4},
{0x1E4EC,0x1E4EF,4},
{0x1E8D0,0x1E8D6,4},
{0x1E944,0x1E94A,4},
{0x1F1E6,0x1F1FF,6},
{0x1F3FB,0x1F3FF,4},
{0xE0000,0xE001F,3},
{0xE0020,0xE007F,4},
{0xE0080,0xE00FF,3},
{0xE0100,0xE01EF,4},
{0xE01F0,0xE0FFF,3},
};
static const ur T_wb[] = {
{0xA,0xA,2},
{0xB,0xC,3},
{0xD,0xD,1},
{0x20,0x20,18},
{0x22,0x22,12},
{0x27,0x27,11},
{0x2C,0x2C,15},
{0x2E,0x2E,13},
{0x30,0x39,16},
{0x3A,0x3A,14},
{0x3B,0x3B,15},
{0x41,0x5A,10},
{0x5F,0x5F,17},
{0x61,0x7A,10},
{0x85,0x85,3},
{0xAA,0xAA,10},
{0xAD,0xAD,7},
{0xB5,0xB5,10},
{0xB7,0xB7,14},
{0xBA,0xBA,10},
{0xC0,0xD6,10},
{0xD8,0xF6,10},
{0xF8,0x2D7,10},
{0x2DE,0x2FF,10},
{0x300,0x36F,4},
{0x370,0x374,10},
{0x376,0x377,10},
{0x37A,0x37D,10},
{0x37E,0x37E,15},
{0x37F,0x37F,10},
{0x386,0x386,10},
{0x387,0x387,14},
{0x388,0x38A,10},
{0x38C,0x38C,10},
{0x38E,0x3A1,10},
{0x3A3,0x3F5,10},
{0x3F7,0x481,10},
{0x483,0x489,4},
{0x48A,0x52F,10},
{0x531,0x556,10},
{0x559,0x55C,10},
{0x55E,0x55E,10},
{0x55F,0x55F,14},
{0x560,0x588,10},
{0x589,0x589,15},
{0x58A,0x58A,10},
{0x591,0x5BD,4},
{0x5BF,0x5BF,4},
{0x5C1,0x5C2,4},
{0x5C4,0x5C5,4},
{0x5C7,0x5C7,4},
{0x5D0,0x5EA,9},
{0x5EF,0x5F2,9},
{0x5F3,0x5F3,10},
{0x5F4,0x5F4,14},
{0x600,0x605,7},
{0x60C,0x60D,15},
{0x610,0x61A,4},
{0x61C,0x61C,7},
{0x620,0x64A,10},
{0x64B,0x65F,4},
{0x660,0x669,16},
{0x66B,0x66B,16},
{0x66C,0x66C,15},
{0x66E,0x66F,10},
{0x670,0x670,4},
{0x671,0x6D3,10},
{0x6D5,0x6D5,10},
{0x6D6,0x6DC,4},
{0x6DD,0x6DD,7},
{0x6DF,0x6E4,4},
{0x6E5,0x6E6,10},
{0x6E7,0x6E8,4},
{0x6EA,0x6ED,4},
{0x6EE,0x6EF,10},
{0x6F0,0x6F9,16},
{0x6FA,0x6FC,10},
{0x6FF,0x6FF,10},
{0x70F,0x70F,7},
{0x710,0x710,10},
{0x711,0x711,4},
{0x712,0x72F,10},
{0x730,0x74A,4},
{0x74D,0x7A5,10},
{0x7A6,0x7B0,4},
{0x7B1,0x7B1,10},
{0x7C0,0x7C9,16},
{0x7CA,0x7EA,10},
{0x7EB,0x7F3,4},
{0x7F4,0x7F5,10},
{0x7F8,0x7F8,15},
{0x7FA,0x7FA,10},
{0x7FD,0x7FD,4},
{0x800,0x815,10},
{0x816,0x819,4},
{0x81A,0x81A,10},
{0x81B,0x823,4},
{0x824,0x824,10},
{0x825,0x827,4},
{0x828,0x828,10},
{0x829,0x82D,4},
{0x840,0x858,10},
{0x859,0x85B,4},
{0x860,0x86A,10},
{0x870,0x887,10},
{0x889,0x88E,10},
{0x890,0x891,7},
{0x898,0x89F,4},
{0x8A0,0x8C9,10},
{0x8CA,0x8E1,4},
{0x8E2,0x8E2,7},
{0x8E3,0x903,4},
{0x904,0x939,10},
{0x93A,0x93C,4},
{0x93D,0x93D,10},
{0x93E,0x94F,4},
{0x950,0x950,10},
{0x951,0x957,4},
{0x958,0x961,10},
{0x962,0x963,4},
{0x966,0x96F,16},
{0x971,0x980,10},
{0x981,0x983,4},
{0x985,0x98C,10},
{0x98F,0x990,10},
{0x993,0x9A8,10},
{0x9AA,0x9B0,10},
{0x9B2,0x9B2,10},
{0x9B6,0x9B9,10},
{0x9BC,0x9BC,4},
{0x9BD,0x9BD,10},
{0x9BE,0x9C4,4},
{0x9C7,0x9C8,4},
{0x9CB,0x9CD,4},
{0x9CE,0x9CE,10},
{0x9D7,0x9D7,4},
{0x9DC,0x9DD,10},
{0x9DF,0x9E1,10},
{0x9E2,0x9E3,4},
{0x9E6,0x9EF,16},
{0x9F0,0x9F1,10},
{0x9FC,0x9FC,10},
{0x9FE,0x9FE,4},
{0xA01,0xA03,4},
{0xA05,0xA0A,10},
{0xA0F,0xA10,10},
{0xA13,0xA28,10},
{0xA2A,0xA30,10},
{0xA32,0xA33,10},
{0xA35,0xA36,10},
{0xA38,0xA39,10},
{0xA3C,0xA3C,4},
{0xA3E,0xA42,4},
{0xA47,0xA48,4},
{0xA4B,0xA4D,4},
{0xA51,0xA51,4},
{0xA59,0xA5C,10},
{0xA5E,0xA5E,10},
{0xA66,0xA6F,16},
{0xA70,0xA71,4},
{0xA72,0xA74,10},
{0xA75,0xA75,4},
{0xA81,0xA83,4},
{0xA85,0xA8D,10},
{0xA8F,0xA91,10},
{0xA93,0xAA8,10},
{0xAAA,0xAB0,10},
{0xAB2,0xAB3,10},
{0xAB5,0xAB9,10},
{0xABC,0xABC,4},
{0xABD,0xABD,10},
{0xABE,0xAC5,4},
{0xAC7,0xAC9,4},
{0xACB,0xACD,4},
{0xAD0,0xAD0,10},
{0xAE0,0xAE1,10},
{0xAE2,0xAE3,4},
{0xAE6,0xAEF,16},
{0xAF9,0xAF9,10},
{0xAFA,0xAFF,4},
{0xB01,0xB03,4},
{0xB05,0xB0C,10},
{0xB0F,0xB10,10},
{0xB13,0xB28,10},
{0xB2A,0xB30,10},
{0xB32,0xB33,10},
{0xB35,0xB39,10},
{0xB3C,0xB3C,4},
{0xB3D,0xB3D,10},
{0xB3E,0xB44,4},
{0xB47,0xB48,4},
{0xB4B,0xB4D,4},
{0xB55,0xB57,4},
{0xB5C,0xB5D,10},
{0xB5F,0xB61,10},
{0xB62,0xB63,4},
{0xB66,0xB6F,16},
{0xB71,0xB71,10},
{0xB82,0xB82,4},
{0xB83,0xB83,10},
{0xB85,0xB8A,10},
{0xB8E,0xB90,10},
{0xB92,0xB95,10},
{0xB99,0xB9A,10},
{0xB9C,0xB9C,10},
{0xB9E,0xB9F,10},
{0xBA3,0xBA4,10},
{0xBA8,0xBAA,10},
{0xBAE,0xBB9,10},
{0xBBE,0xBC2,4},
{0xBC6,0xBC8,4},
{0xBCA,0xBCD,4},
{0xBD0,0xBD0,10},
{0xBD7,0xBD7,4},
{0xBE6,0xBEF,16},
{0xC00,0xC04,4},
{0xC05,0xC0C,10},
{0xC0E,0xC10,10},
{0xC12,0xC28,10},
{0xC2A,0xC39,10},
{0xC3C,0xC3C,4},
{0xC3D,0xC3D,10},
{0xC3E,0xC44,4},
{0xC46,0xC48,4},
{0xC4A,0xC4D,4},
{0xC55,0xC56,4},
{0xC58,0xC5A,10},
{0xC5D,0xC5D,10},
{0xC60,0xC61,10},
{0xC62,0xC63,4},
{0xC66,0xC6F,16},
{0xC80,0xC80,10},
{0xC81,0xC83,4},
{0xC85,0xC8C,10},
{0xC8E,0xC90,10},
{0xC92,0xCA8,10},
{0xCAA,0xCB3,10},
{0xCB5,0xCB9,10},
{0xCBC,0xCBC,4},
{0xCBD,0xCBD,10},
{0xCBE,0xCC4,4},
{0xCC6,0xCC8,4},
{0xCCA,0xCCD,4},
{0xCD5,0xCD6,4},
{0xCDD,0xCDE,10},
{0xCE0,0xCE1,10},
{0xCE2,0xCE3,4},
{0xCE6,0xCEF,16},
{0xCF1,0xCF2,10},
{0xCF3,0xCF3,4},
{0xD00,0xD03,4},
{0xD04,0xD0C,10},
{0xD0E,0xD10,10},
{0xD12,0xD3A,10},
{0xD3B,0xD3C,4},
{0xD3D,0xD3D,10},
{0xD3E,0xD44,4},
{0xD46,0xD48,4},
{0xD4A,0xD4D,4},
{0xD4E,0xD4E,10},
{0xD54,0xD56,10},
{0xD57,0xD57,4},
{0xD5F,0xD61,10},
{0xD62,0xD63,4},
{0xD66,0xD6F,16},
{0xD7A,0xD7F,10},
{0xD81,0xD83,4},
{0xD85,0xD96,10},
{0xD9A,0xDB1,10},
{0xDB3,0xDBB,10},
{0xDBD,0xDBD,10},
{0xDC0,0xDC6,10},
{0xDCA,0xDCA,4},
{0xDCF,0xDD4,4},
{0xDD6,0xDD6,4},
{0xDD8,0xDDF,4},
{0xDE6,0xDEF,16},
{0xDF2,0xDF3,4},
{0xE31,0xE31,4},
{0xE34,0xE3A,4},
{0xE47,0xE4E,4},
{0xE50,0xE59,16},
{0xEB1,0xEB1,4},
{0xEB4,0xEBC,4},
{0xEC8,0xECE,4},
{0xED0,0xED9,16},
{0xF00,0xF00,10},
{0xF18,0xF19,4},
{0xF20,0xF29,16},
{0xF35,0xF35,4},
{0xF37,0xF37,4},
{0xF39,0xF39,4},
{0xF3E,0xF3F,4},
{0xF40,0xF47,10},
{0xF49,0xF6C,10},
{0xF71,0xF84,4},
{0xF86,0xF87,4},
{0xF88,0xF8C,10},
{0xF8D,0xF97,4},
{0xF99,0xFBC,4},
{0xFC6,0xFC6,4},
{0x102B,0x103E,4},
{0x1040,0x1049,16},
{0x1056,0x1059,4},
{0x105E,0x1060,4},
{0x1062,0x1064,4},
{0x1067,0x106D,4},
{0x1071,0x1074,4},
{0x1082,0x108D,4},
{0x108F,0x108F,4},
{0x1090,0x1099,16},
{0x109A,0x109D,4},
{0x10A0,0x10C5,10},
{0x10C7,0x10C7,10},
{0x10CD,0x10CD,10},
{0x10D0,0x10FA,10},
{0x10FC,0x1248,10},
{0x124A,0x124D,10},
{0x1250,0x1256,10},
{0x1258,0x1258,10},
{0x125A,0x125D,10},
{0x1260,0x1288,10},
{0x128A,0x128D,10},
{0x1290,0x12B0,10},
{0x12B2,0x12B5,10},
{0x12B8,0x12BE,10},
{0x12C0,0x12C0,10},
{0x12C2,0x12C5,10},
{0x12C8,0x12D6,10},
{0x12D8,0x1310,10},
{0x1312,0x1315,10},
{0x1318,0x135A,10},
{0x135D,0x135F,4},
{0x1380,0x138F,10},
{0x13A0,0x13F5,10},
{0x13F8,0x13FD,10},
{0x1401,0x166C,10},
{0x166F,0x167F,10},
{0x1680,0x1680,18},
{0x1681,0x169A,10},
{0x16A0,0x16EA,10},
{0x16EE,0x16F8,10},
{0x1700,0x1711,10},
{0x1712,0x1715,4},
{0x171F,0x1731,10},
{0x1732,0x1734,4},
{0x1740,0x1751,10},
{0x1752,0x1753,4},
{0x1760,0x176C,10},
{0x176E,0x1770,10},
{0x1772,0x1773,4},
{0x17B4,0x17D3,4},
{0x17DD,0x17DD,4},
{0x17E0,0x17E9,16},
{0x180B,0x180D,4},
{0x180E,0x180E,7},
{0x180F,0x180F,4},
{0x1810,0x1819,16},
{0x1820,0x1878,10},
{0x1880,0x1884,10},
{0x1885,0x1886,4},
{0x1887,0x18A8,10},
{0x18A9,0x18A9,4},
{0x18AA,0x18AA,10},
{0x18B0,0x18F5,10},
{0x1900,0x191E,10},
{0x1920,0x192B,4},
{0x1930,0x193B,4},
{0x1946,0x194F,16},
{0x19D0,0x19D9,16},
{0x1A00,0x1A16,10},
{0x1A17,0x1A1B,4},
{0x1A55,0x1A5E,4},
{0x1A60,0x1A7C,4},
{0x1A7F,0x1A7F,4},
{0x1A80,0x1A89,16},
{0x1A90,0x1A99,16},
{0x1AB0,0x1ACE,4},
{0x1B00,0x1B04,4},
{0x1B05,0x1B33,10},
{0x1B34,0x1B44,4},
{0x1B45,0x1B4C,10},
{0x1B50,0x1B59,16},
{0x1B6B,0x1B73,4},
{0x1B80,0x1B82,4},
{0x1B83,0x1BA0,10},
{0x1BA1,0x1BAD,4},
{0x1BAE,0x1BAF,10},
{0x1BB0,0x1BB9,16},
{0x1BBA,0x1BE5,10},
{0x1BE6,0x1BF3,4},
{0x1C00,0x1C23,10},
{0x1C24,0x1C37,4},
{0x1C40,0x1C49,16},
{0x1C4D,0x1C4F,10},
{0x1C50,0x1C59,16},
{0x1C5A,0x1C7D,10},
{0x1C80,0x1C88,10},
{0x1C90,0x1CBA,10},
{0x1CBD,0x1CBF,10},
{0x1CD0,0x1CD2,4},
{0x1CD4,0x1CE8,4},
{0x1CE9,0x1CEC,10},
{0x1CED,0x1CED,4},
{0x1CEE,0x1CF3,10},
{0x1CF4,0x1CF4,4},
{0x1CF5,0x1CF6,10},
{0x1CF7,0x1CF9,4},
{0x1CFA,0x1CFA,10},
{0x1D00,0x1DBF,10},
{0x1DC0,0x1DFF,4},
{0x1E00,0x1F15,10},
{0x1F18,0x1F1D,10},
{0x1F20,0x1F45,10},
{0x1F48,0x1F4D,10},
{0x1F50,0x1F57,10},
{0x1F59,0x1F59,10},
{0x1F5B,0x1F5B,10},
{0x1F5D,0x1F5D,10},
{0x1F5F,0x1F7D,10},
{0x1F80,0x1FB4,10},
{0x1FB6,0x1FBC,10},
{0x1FBE,0x1FBE,10},
{0x1FC2,0x1FC4,10},
{0x1FC6,0x1FCC,10},
{0x1FD0,0x1FD3,10},
{0x1FD6,0x1FDB,10},
{0x1FE0,0x1FEC,10},
{0x1FF2,0x1FF4,10},
{0x1FF6,0x1FFC,10},
{0x2000,0x2006,18},
{0x2008,0x200A,18},
{0x200C,0x200C,4},
{0x200D,0x200D,5},
{0x200E,0x200F,7},
{0x2018,0x2019,13},
{0x2024,0x2024,13},
{0x2027,0x2027,14},
{0x2028,0x2029,3},
{0x202A,0x202E,7},
{0x202F,0x202F,17},
{0x203F,0x2040,17},
{0x2044,0x2044,15},
{0x2054,0x2054,17},
{0x205F,0x205F,18},
{0x2060,0x2064,7},
{0x2066,0x206F,7},
{0x2071,0x2071,10},
{0x207F,0x207F,10},
{0x2090,0x209C,10},
{0x20D0,0x20F0,4},
{0x2102,0x2102,10},
{0x2107,0x2107,10},
{0x210A,0x2113,10},
{0x2115,0x2115,10},
{0x2119,0x211D,10},
{0x2124,0x2124,10},
{0x2126,0x2126,10},
{0x2128,0x2128,10},
{0x212A,0x212D,10},
{0x212F,0x2139,10},
{0x213C,0x213F,10},
{0x2145,0x2149,10},
{0x214E,0x214E,10},
{0x2160,0x2188,10},
{0x24B6,0x24E9,10},
{0x2C00,0x2CE4,10},
{0x2CEB,0x2CEE,10},
{0x2CEF,0x2CF1,4},
{0x2CF2,0x2CF3,10},
{0x2D00,0x2D25,10},
{0x2D27,0x2D27,10},
{0x2D2D,0x2D2D,10},
{0x2D30,0x2D67,10},
{0x2D6F,0x2D6F,10},
{0x2D7F,0x2D7F,4},
{0x2D80,0x2D96,10},
{0x2DA0,0x2DA6,10},
{0x2DA8,0x2DAE,10},
{0x2DB0,0x2DB6,10},
{0x2DB8,0x2DBE,10},
{0x2DC0,0x2DC6,10},
{0x2DC8,0x2DCE,10},
{0x2DD0,0x2DD6,10},
{0x2DD8,0x2DDE,10},
{0x2DE0,0x2DFF,4},
{0x2E2F,0x2E2F,10},
{0x3000,0x3000,18},
{0x3005,0x3005,10},
{0x302A,0x302F,4},
{0x3031,0x3035,8},
{0x303B,0x303C,10},
{0x3099,0x309A,4},
{0x309B,0x309C,8},
{0x30A0,0x30FA,8},
{0x30FC,0x30FF,8},
{0x3105,0x312F,10},
{0x3131,0x318E,10},
{0x31A0,0x31BF,10},
{0x31F0,0x31FF,8},
{0x32D0,0x32FE,8},
{0x3300,0x3357,8},
{0xA000,0xA48C,10},
{0xA4D0,0xA4FD,10},
{0xA500,0xA60C,10},
{0xA610,0xA61F,10},
{0xA620,0xA629,16},
{0xA62A,0xA62B,10},
{0xA640,0xA66E,10},
{0xA66F,0xA672,4},
{0xA674,0xA67D,4},
{0xA67F,0xA69D,10},
{0xA69E,0xA69F,4},
{0xA6A0,0xA6EF,10},
{0xA6F0,0xA6F1,4},
{0xA708,0xA7CA,10},
{0xA7D0,0xA7D1,10},
{0xA7D3,0xA7D3,10},
{0xA7D5,0xA7D9,10},
{0xA7F2,0xA801,10},
{0xA802,0xA802,4},
{0xA803,0xA805,10},
{0xA806,0xA806,4},
{0xA807,0xA80A,10},
{0xA80B,0xA80B,4},
{0xA80C,0xA822,10},
{0xA823,0xA827,4},
{0xA82C,0xA82C,4},
{0xA840,0xA873,10},
{0xA880,0xA881,4},
{0xA882,0xA8B3,10},
{0xA8B4,0xA8C5,4},
{0xA8D0,0xA8D9,16},
{0xA8E0,0xA8F1,4},
{0xA8F2,0xA8F7,10},
{0xA8FB,0xA8FB,10},
{0xA8FD,0xA8FE,10},
{0xA8FF,0xA8FF,4},
{0xA900,0xA909,16},
{0xA90A,0xA925,10},
{0xA926,0xA92D,4},
{0xA930,0xA946,10},
{0xA947,0xA953,4},
{0xA960,0xA97C,10},
{0xA980,0xA983,4},
{0xA984,0xA9B2,10},
{0xA9B3,0xA9C0,4},
{0xA9CF,0xA9CF,10},
{0xA9D0,0xA9D9,16},
{0xA9E5,0xA9E5,4},
{0xA9F0,0xA9F9,16},
{0xAA00,0xAA28,10},
{0xAA29,0xAA36,4},
{0xAA40,0xAA42,10},
{0xAA43,0xAA43,4},
{0xAA44,0xAA4B,10},
{0xAA4C,0xAA4D,4},
{0xAA50,0xAA59,16},
{0xAA7B,0xAA7D,4},
{0xAAB0,0xAAB0,4},
{0xAAB2,0xAAB4,4},
{0xAAB7,0xAAB8,4},
{0xAABE,0xAABF,4},
{0xAAC1,0xAAC1,4},
{0xAAE0,0xAAEA,10},
{0xAAEB,0xAAEF,4},
{0xAAF2,0xAAF4,10},
{0xAAF5,0xAAF6,4},
{0xAB01,0xAB06,10},
{0xAB09,0xAB0E,10},
{0xAB11,0xAB16,10},
{0xAB20,0xAB26,10},
{0xAB28,0xAB2E,10},
{0xAB30,0xAB69,10},
{0xAB70,0xABE2,10},
{0xABE3,0xABEA,4},
{0xABEC,0xABED,4},
{0xABF0,0xABF9,16},
{0xAC00,0xD7A3,10},
{0xD7B0,0xD7C6,10},
{0xD7CB,0xD7FB,10},
{0xFB00,0xFB06,10},
{0xFB13,0xFB17,10},
{0xFB1D,0xFB1D,9},
{0xFB1E,0xFB1E,4},
{0xFB1F,0xFB28,9},
{0xFB2A,0xFB36,9},
{0xFB38,0xFB3C,9},
{0xFB3E,0xFB3E,9},
{0xFB40,0xFB41,9},
{0xFB43,0xFB44,9},
{0xFB46,0xFB4F,9},
{0xFB50,0xFBB1,10},
{0xFBD3,0xFD3D,10},
{0xFD50,0xFD8F,10},
{0xFD92,0xFDC7,10},
{0xFDF0,0xFDFB,10},
{0xFE00,0xFE0F,4},
{0xFE10,0xFE10,15},
{0xFE13,0xFE13,14},
{0xFE14,0xFE14,15},
{0xFE20,0xFE2F,4},
{0xFE33,0xFE34,17},
{0xFE4D,0xFE4F,17},
{0xFE50,0xFE50,15},
{0xFE52,0xFE52,13},
{0xFE54,0xFE54,15},
{0xFE55,0xFE55,14},
{0xFE70,0xFE74,10},
{0xFE76,0xFEFC,10},
{0xFEFF,0xFEFF,7},
{0xFF07,0xFF07,13},
{0xFF0C,0xFF0C,15},
{0xFF0E,0xFF0E,13},
{0xFF10,0xFF19,16},
{0xFF1A,0xFF1A,14},
{0xFF1B,0xFF1B,15},
{0xFF21,0xFF3A,10},
{0xFF3F,0xFF3F,17},
{0xFF41,0xFF5A,10},
{0xFF66,0xFF9D,8},
{0xFF9E,0xFF9F,4},
{0xFFA0,0xFFBE,10},
{0xFFC2,0xFFC7,10},
{0xFFCA,0xFFCF,10},
{0xFFD2,0xFFD7,10},
{0xFFDA,0xFFDC,10},
{0xFFF9,0xFFFB,7},
{0x10000,0x1000B,10},
{0x1000D,0x10026,10},
{0x10028,0x1003A,10},
{0x1003C,0x1003D,10},
{0x1003F,0x1004D,10},
{0x10050,0x1005D,10},
{0x10080,0x100FA,10},
{0x10140,0x10174,10},
{0x101FD,0x101FD,4},
{0x10280,0x1029C,10},
{0x102A0,0x102D0,10},
{0x102E0,0x102E0,4},
{0x10300,0x1031F,10},
{0x1032D,0x1034A,10},
{0x10350,0x10375,10},
{0x10376,0x1037A,4},
{0x10380,0x1039D,10},
{0x103A0,0x103C3,10},
{0x103C8,0x103CF,10},
{0x103D1,0x103D5,10},
{0x10400,0x1049D,10},
{0x104A0,0x104A9,16},
{0x104B0,0x104D3,10},
{0x104D8,0x104FB,10},
{0x10500,0x10527,10},
{0x10530,0x10563,10},
{0x10570,0x1057A,10},
{0x1057C,0x1058A,10},
{0x1058C,0x10592,10},
{0x10594,0x10595,10},
{0x10597,0x105A1,10},
{0x105A3,0x105B1,10},
{0x105B3,0x105B9,10},
{0x105BB,0x105BC,10},
{0x10600,0x10736,10},
{0x10740,0x10755,10},
{0x10760,0x10767,10},
{0x10780,0x10785,10},
{0x10787,0x107B0,10},
{0x107B2,0x107BA,10},
{0x10800,0x10805,10},
{0x10808,0x10808,10},
{0x1080A,0x10835,10},
{0x10837,0x10838,10},
{0x1083C,0x1083C,10},
{0x1083F,0x10855,10},
{0x10860,0x10876,10},
{0x10880,0x1089E,10},
{0x108E0,0x108F2,10},
{0x108F4,0x108F5,10},
{0x10900,0x10915,10},
{0x10920,0x10939,10},
{0x10980,0x109B7,10},
{0x109BE,0x109BF,10},
{0x10A00,0x10A00,10},
{0x10A01,0x10A03,4},
{0x10A05,0x10A06,4},
{0x10A0C,0x10A0F,4},
{0x10A10,0x10A13,10},
{0x10A15,0x10A17,10},
{0x10A19,0x10A35,10},
{0x10A38,0x10A3A,4},
{0x10A3F,0x10A3F,4},
{0x10A60,0x10A7C,10},
{0x10A80,0x10A9C,10},
{0x10AC0,0x10AC7,10},
{0x10AC9,0x10AE4,10},
{0x10AE5,0x10AE6,4},
{0x10B00,0x10B35,10},
{0x10B40,0x10B55,10},
{0x10B60,0x10B72,10},
{0x10B80,0x10B91,10},
{0x10C00,0x10C48,10},
{0x10C80,0x10CB2,10},
{0x10CC0,0x10CF2,10},
{0x10D00,0x10D23,10},
{0x10D24,0x10D27,4},
{0x10D30,0x10D39,16},
{0x10E80,0x10EA9,10},
{0x10EAB,0x10EAC,4},
{0x10EB0,0x10EB1,10},
{0x10EFD,0x10EFF,4},
{0x10F00,0x10F1C,10},
{0x10F27,0x10F27,10},
{0x10F30,0x10F45,10},
{0x10F46,0x10F50,4},
{0x10F70,0x10F81,10},
{0x10F82,0x10F85,4},
{0x10FB0,0x10FC4,10},
{0x10FE0,0x10FF6,10},
{0x11000,0x11002,4},
{0x11003,0x11037,10},
{0x11038,0x11046,4},
{0x11066,0x1106F,16},
{0x11070,0x11070,4},
{0x11071,0x11072,10},
{0x11073,0x11074,4},
{0x11075,0x11075,10},
{0x1107F,0x11082,4},
{0x11083,0x110AF,10},
{0x110B0,0x110BA,4},
{0x110BD,0x110BD,7},
{0x110C2,0x110C2,4},
{0x110CD,0x110CD,7},
{0x110D0,0x110E8,10},
{0x110F0,0x110F9,16},
{0x11100,0x11102,4},
{0x11103,0x11126,10},
{0x11127,0x11134,4},
{0x11136,0x1113F,16},
{0x11144,0x11144,10},
{0x11145,0x11146,4},
{0x11147,0x11147,10},
{0x11150,0x11172,10},
{0x11173,0x11173,4},
{0x11176,0x11176,10},
{0x11180,0x11182,4},
{0x11183,0x111B2,10},
{0x111B3,0x111C0,4},
{0x111C1,0x111C4,10},
{0x111C9,0x111CC,4},
{0x111CE,0x111CF,4},
{0x111D0,0x111D9,16},
{0x111DA,0x111DA,10},
{0x111DC,0x111DC,10},
{0x11200,0x11211,10},
{0x11213,0x1122B,10},
{0x1122C,0x11237,4},
{0x1123E,0x1123E,4},
{0x1123F,0x11240,10},
{0x11241,0x11241,4},
{0x11280,0x11286,10},
{0x11288,0x11288,10},
{0x1128A,0x1128D,10},
{0x1128F,0x1129D,10},
{0x1129F,0x112A8,10},
{0x112B0,0x112DE,10},
{0x112DF,0x112EA,4},
{0x112F0,0x112F9,16},
{0x11300,0x11303,4},
{0x11305,0x1130C,10},
{0x1130F,0x11310,10},
{0x11313,0x11328,10},
{0x1132A,0x11330,10},
{0x11332,0x11333,10},
{0x11335,0x11339,10},
{0x1133B,0x1133C,4},
{0x1133D,0x1133D,10},
{0x1133E,0x11344,4},
{0x11347,0x11348,4},
{0x1134B,0x1134D,4},
{0x11350,0x11350,10},
{0x11357,0x11357,4},
{0x1135D,0x11361,10},
{0x11362,0x11363,4},
{0x11366,0x1136C,4},
{0x11370,0x11374,4},
{0x11400,0x11434,10},
{0x11435,0x11446,4},
{0x11447,0x1144A,10},
{0x11450,0x11459,16},
{0x1145E,0x1145E,4},
{0x1145F,0x11461,10},
{0x11480,0x114AF,10},
{0x114B0,0x114C3,4},
{0x114C4,0x114C5,10},
{0x114C7,0x114C7,10},
{0x114D0,0x114D9,16},
{0x11580,0x115AE,10},
{0x115AF,0x115B5,4},
{0x115B8,0x115C0,4},
{0x115D8,0x115DB,10},
{0x115DC,0x115DD,4},
{0x11600,0x1162F,10},
{0x11630,0x11640,4},
{0x11644,0x11644,10},
{0x11650,0x11659,16},
{0x11680,0x116AA,10},
{0x116AB,0x116B7,4},
{0x116B8,0x116B8,10},
{0x116C0,0x116C9,16},
{0x1171D,0x1172B,4},
{0x11730,0x11739,16},
{0x11800,0x1182B,10},
{0x1182C,0x1183A,4},
{0x118A0,0x118DF,10},
{0x118E0,0x118E9,16},
{0x118FF,0x11906,10},
{0x11909,0x11909,10},
{0x1190C,0x11913,10},
{0x11915,0x11916,10},
{0x11918,0x1192F,10},
{0x11930,0x11935,4},
{0x11937,0x11938,4},
{0x1193B,0x1193E,4},
{0x1193F,0x1193F,10},
{0x11940,0x11940,4},
{0x11941,0x11941,10},
{0x11942,0x11943,4},
{0x11950,0x11959,16},
{0x119A0,0x119A7,10},
{0x119AA,0x119D0,10},
{0x119D1,0x119D7,4},
{0x119DA,0x119E0,4},
{0x119E1,0x119E1,10},
{0x119E3,0x119E3,10},
{0x119E4,0x119E4,4},
{0x11A00,0x11A00,10},
{0x11A01,0x11A0A,4},
{0x11A0B,0x11A32,10},
{0x11A33,0x11A39,4},
{0x11A3A,0x11A3A,10},
{0x11A3B,0x11A3E,4},
{0x11A47,0x11A47,4},
{0x11A50,0x11A50,10},
{0x11A51,0x11A5B,4},
{0x11A5C,0x11A89,10},
{0x11A8A,0x11A99,4},
{0x11A9D,0x11A9D,10},
{0x11AB0,0x11AF8,10},
{0x11C00,0x11C08,10},
{0x11C0A,0x11C2E,10},
{0x11C2F,0x11C36,4},
{0x11C38,0x11C3F,4},
{0x11C40,0x11C40,10},
{0x11C50,0x11C59,16},
{0x11C72,0x11C8F,10},
{0x11C92,0x11CA7,4},
{0x11CA9,0x11CB6,4},
{0x11D00,0x11D06,10},
{0x11D08,0x11D09,10},
{0x11D0B,0x11D30,10},
{0x11D31,0x11D36,4},
{0x11D3A,0x11D3A,4},
{0x11D3C,0x11D3D,4},
{0x11D3F,0x11D45,4},
{0x11D46,0x11D46,10},
{0x11D47,0x11D47,4},
{0x11D50,0x11D59,16},
{0x11D60,0x11D65,10},
{0x11D67,0x11D68,10},
{0x11D6A,0x11D89,10},
{0x11D8A,0x11D8E,4},
{0x11D90,0x11D91,4},
{0x11D93,0x11D97,4},
{0x11D98,0x11D98,10},
{0x11DA0,0x11DA9,16},
{0x11EE0,0x11EF2,10},
{0x11EF3,0x11EF6,4},
{0x11F00,0x11F01,4},
{0x11F02,0x11F02,10},
{0x11F03,0x11F03,4},
{0x11F04,0x11F10,10},
{0x11F12,0x11F33,10},
{0x11F34,0x11F3A,4},
{0x11F3E,0x11F42,4},
{0x11F50,0x11F59,16},
{0x11FB0,0x11FB0,10},
{0x12000,0x12399,10},
{0x12400,0x1246E,10},
{0x12480,0x12543,10},
{0x12F90,0x12FF0,10},
{0x13000,0x1342F,10},
{0x13430,0x1343F,7},
{0x13440,0x13440,4},
{0x13441,0x13446,10},
{0x13447,0x13455,4},
{0x14400,0x14646,10},
{0x16800,0x16A38,10},
{0x16A40,0x16A5E,10},
{0x16A60,0x16A69,16},
{0x16A70,0x16ABE,10},
{0x16AC0,0x16AC9,16},
{0x16AD0,0x16AED,10},
{0x16AF0,0x16AF4,4},
{0x16B00,0x16B2F,10},
{0x16B30,0x16B36,4},
{0x16B40,0x16B43,10},
{0x16B50,0x16B59,16},
{0x16B63,0x16B77,10},
{0x16B7D,0x16B8F,10},
{0x16E40,0x16E7F,10},
{0x16F00,0x16F4A,10},
{0x16F4F,0x16F4F,4},
{0x16F50,0x16F50,10},
{0x16F51,0x16F87,4},
{0x16F8F,0x16F92,4},
{0x16F93,0x16F9F,10},
{0x16FE0,0x16FE1,10},
{0x16FE3,0x16FE3,10},
{0x16FE4,0x16FE4,4},
{0x16FF0,0x16FF1,4},
{0x1AFF0,0x1AFF3,8},
{0x1AFF5,0x1AFFB,8},
{0x1AFFD,0x1AFFE,8},
{0x1B000,0x1B000,8},
{0x1B120,0x1B122,8},
{0x1B155,0x1B155,8},
{0x1B164,0x1B167,8},
{0x1BC00,0x1BC6A,10},
{0x1BC70,0x1BC7C,10},
{0x1BC80,0x1BC88,10},
{0x1BC90,0x1BC99,10},
{0x1BC9D,0x1BC9E,4},
{0x1BCA0,0x1BCA3,7},
{0x1CF00,0x1CF2D,4},
{0x1CF30,0x1CF46,4},
{0x1D165,0x1D169,4},
{0x1D16D,0x1D172,4},
{0x1D173,0x1D17A,7},
{0x1D17B,0x1D182,4},
{0x1D185,0x1D18B,4},
{0x1D1AA,0x1D1AD,4},
{0x1D242,0x1D244,4},
{0x1D400,0x1D454,10},
{0x1D456,0x1D49C,10},
{0x1D49E,0x1D49F,10},
{0x1D4A2,0x1D4A2,10},
{0x1D4A5,0x1D4A6,10},
{0x1D4A9,0x1D4AC,10},
{0x1D4AE,0x1D4B9,10},
{0x1D4BB,0x1D4BB,10},
{0x1D4BD,0x1D4C3,10},
{0x1D4C5,0x1D505,10},
{0x1D507,0x1D50A,10},
{0x1D50D,0x1D514,10},
{0x1D516,0x1D51C,10},
{0x1D51E,0x1D539,10},
{0x1D53B,0x1D53E,10},
{0x1D540,0x1D544,10},
{0x1D546,0x1D546,10},
{0x1D54A,0x1D550,10},
{0x1D552,0x1D6A5,10},
{0x1D6A8,0x1D6C0,10},
{0x1D6C2,0x1D6DA,10},
{0x1D6DC,0x1D6FA,10},
{0x1D6FC,0x1D714,10},
{0x1D716,0x1D734,10},
{0x1D736,0x1D74E,10},
{0x1D750,0x1D76E,10},
{0x1D770,0x1D788,10},
{0x1D78A,0x1D7A8,10},
{0x1D7AA,0x1D7C2,10},
{0x1D7C4,0x1D7CB,10},
{0x1D7CE,0x1D7FF,16},
{0x1DA00,0x1DA36,4},
{0x1DA3B,0x1DA6C,4},
{0x1DA75,0x1DA75,4},
{0x1DA84,0x1DA84,4},
{0x1DA9B,0x1DA9F,4},
{0x1DAA1,0x1DAAF,4},
{0x1DF00,0x1DF1E,10},
{0x1DF25,0x1DF2A,10},
{0x1E000,0x1E006,4},
{0x1E008,0x1E018,4},
{0x1E01B,0x1E021,4},
{0x1E023,0x1E024,4},
{0x1E026,0x1E02A,4},
{0x1E030,0x1E06D,10},
{0x1E08F,0x1E08F,4},
{0x1E100,0x1E12C,10},
{0x1E130,0x1E136,4},
{0x1E137,0x1E13D,10},
{0x1E140,0x1E149,16},
{0x1E14E,0x1E14E,10},
{0x1E290,0x1E2AD,10},
{0x1E2AE,0x1E2AE,4},
{0x1E2C0,0x1E2EB,10},
{0x1E2EC,0x1E2EF,4},
{0x1E2F0,0x1E2F9,16},
{0x1E4D0,0x1E4EB,10},
{0x1E4EC,0x1E4EF,4},
{0x1E4F0,0x1E4F9,16},
{0x1E7E0,0x1E7E6,10},
{0x1E7E8,0x1E7EB,10},
{0x1E7ED,0x1E7EE,10},
{0x1E7F0,0x1E7FE,10},
{0x1E800,0x1E8C4,10},
{0x1E8D0,0x1E8D6,4},
{0x1E900,0x1E943,10},
{0x1E944,0x1E94A,4},
{0x1E94B,0x1E94B,10},
{0x1E950,0x1E959,16},
{0x1EE00,0x1EE03,10},
{0x1EE05,0x1EE1F,10},
{0x1EE21,0x1EE22,10},
{0x1EE24,0x1EE24,10},
{0x1EE27,0x1EE27,10},
{0x1EE29,0x1EE32,10},
{0x1EE34,0x1EE37,10},
{0x1EE39,0x1EE39,10},
{0x1EE3B,0x1EE3B,10},
{0x1EE42,0x1EE42,10},
{0x1EE47,0x1EE47,10},
{0x1EE49,0x1EE49,10},
{0x1EE4B,0x1EE4B,10},
{0x1EE4D,0x1EE4F,10},
{0x1EE51,0x1EE52,10},
{0x1EE54,0x1EE54,10},
{0x1EE57,0x1EE57,10},
{0x1EE59,0x1EE59,10},
{0x1EE5B,0x1EE5B,10},
{0x1EE5D,0x1EE5D,10},
{0x1EE5F,0x1EE5F,10},
{0x1EE61,0x1EE62,10},
{0x1EE64,0x1EE64,10},
{0x1EE67,0x1EE6A,10},
{0x1EE6C,0x1EE72,10},
{0x1EE74,0x1EE77,10},
{0x1EE79,0x1EE7C,10},
{0x1EE7E,0x1EE7E,10},
{0x1EE80,0x1EE89,10},
{0x1EE8B,0x1EE9B,10},
{0x1EEA1,0x1EEA3,10},
{0x1EEA5,0x1EEA9,10},
{0x1EEAB,0x1EEBB,10},
{0x1F130,0x1F149,10},
{0x1F150,0x1F169,10},
{0x1F170,0x1F189,10},
{0x1F1E6,0x1F1FF,6},
{0x1F3FB,0x1F3FF,4},
{0x1FBF0,0x1FBF9,16},
{0xE0001,0xE0001,7},
{0xE0020,0xE007F,4},
{0xE0100,0xE01EF,4},
};
static const ur T_sb[] = {
{0x9,0x9,6},
{0xA,0xA,2},
{0xB,0xC,6},
{0xD,0xD,1},
{0x20,0x20,6},
{0x21,0x21,13},
{0x22,0x22,14},
{0x27,0x29,14},
{0x2C,0x2D,12},
{0x2E,0x2E,11},
{0x30,0x39,10},
{0x3A,0x3A,12},
{0x3F,0x3F,13},
{0x41,0x5A,8},
{0x5B,0x5B,14},
{0x5D,0x5D,14},
{0x61,0x7A,7},
{0x7B,0x7B,14},
{0x7D,0x7D,14},
{0x85,0x85,4},
{0xA0,0xA0,6},
{0xAA,0xAA,7},
{0xAB,0xAB,14},
{0xAD,0xAD,5},
{0xB5,0xB5,7},
{0xBA,0xBA,7},
{0xBB,0xBB,14},
{0xC0,0xD6,8},
{0xD8,0xDE,8},
{0xDF,0xF6,7},
{0xF8,0xFF,7},
{0x100,0x100,8},
{0x101,0x101,7},
{0x102,0x102,8},
{0x103,0x103,7},
{0x104,0x104,8},
{0x105,0x105,7},
{0x106,0x106,8},
{0x107,0x107,7},
{0x108,0x108,8},
{0x109,0x109,7},
{0x10A,0x10A,8},
{0x10B,0x10B,7},
{0x10C,0x10C,8},
{0x10D,0x10D,7},
{0x10E,0x10E,8},
{0x10F,0x10F,7},
{0x110,0x110,8},
{0x111,0x111,7},
{0x112,0x112,8},
{0x113,0x113,7},
{0x114,0x114,8},
{0x115,0x115,7},
{0x116,0x116,8},
{0x117,0x117,7},
{0x118,0x118,8},
{0x119,0x119,7},
{0x11A,0x11A,8},
{0x11B,0x11B,7},
{0x11C,0x11C,8},
{0x11D,0x11D,7},
{0x11E,0x11E,8},
{0x11F,0x11F,7},
{0x120,0x120,8},
{0x121,0x121,7},
{0x122,0x122,8},
{0x123,0x123,7},
{0x124,0x124,8},
{0x125,0x125,7},
{0x126,0x126,8},
{0x127,0x127,7},
{0x128,0x128,8},
{0x129,0x129,7},
{0x12A,0x12A,8},
{0x12B,0x12B,7},
{0x12C,0x12C,8},
{0x12D,0x12D,7},
{0x12E,0x12E,8},
{0x12F,0x12F,7},
{0x130,0x130,8},
{0x131,0x131,7},
{0x132,0x132,8},
{0x133,0x133,7},
{0x134,0x134,8},
{0x135,0x135,7},
{0x136,0x136,8},
{0x137,0x138,7},
{0x139,0x139,8},
{0x13A,0x13A,7},
{0x13B,0x13B,8},
{0x13C,0x13C,7},
{0x13D,0x13D,8},
{0x13E,0x13E,7},
{0x13F,0x13F,8},
{0x140,0x140,7},
{0x141,0x141,8},
{0x142,0x142,7},
{0x143,0x143,8},
{0x144,0x144,7},
{0x145,0x145,8},
{0x146,0x146,7},
{0x147,0x147,8},
{0x148,0x149,7},
{0x14A,0x14A,8},
{0x14B,0x14B,7},
{0x14C,0x14C,8},
{0x14D,0x14D,7},
{0x14E,0x14E,8},
{0x14F,0x14F,7},
{0x150,0x150,8},
{0x151,0x151,7},
{0x152,0x152,8},
{0x153,0x153,7},
{0x154,0x154,8},
{0x155,0x155,7},
{0x156,0x156,8},
{0x157,0x157,7},
{0x158,0x158,8},
{0x159,0x159,7},
{0x15A,0x15A,8},
{0x15B,0x15B,7},
{0x15C,0x15C,8},
{0x15D,0x15D,7},
{0x15E,0x15E,8},
{0x15F,0x15F,7},
{0x160,0x160,8},
{0x161,0x161,7},
{0x162,0x162,8},
{0x163,0x163,7},
{0x164,0x164,8},
{0x165,0x165,7},
{0x166,0x166,8},
{0x167,0x167,7},
{0x168,0x168,8},
{0x169,0x169,7},
{0x16A,0x16A,8},
{0x16B,0x16B,7},
{0x16C,0x16C,8},
{0x16D,0x16D,7},
{0x16E,0x16E,8},
{0x16F,0x16F,7},
{0x170,0x170,8},
{0x171,0x171,7},
{0x172,0x172,8},
{0x173,0x173,7},
{0x174,0x174,8},
{0x175,0x175,7},
{0x176,0x176,8},
{0x177,0x177,7},
{0x178,0x179,8},
{0x17A,0x17A,7},
{0x17B,0x17B,8},
{0x17C,0x17C,7},
{0x17D,0x17D,8},
{0x17E,0x180,7},
{0x181,0x182,8},
{0x183,0x183,7},
{0x184,0x184,8},
{0x185,0x185,7},
{0x186,0x187,8},
{0x188,0x188,7},
{0x189,0x18B,8},
{0x18C,0x18D,7},
{0x18E,0x191,8},
{0x192,0x192,7},
{0x193,0x194,8},
{0x195,0x195,7},
{0x196,0x198,8},
{0x199,0x19B,7},
{0x19C,0x19D,8},
{0x19E,0x19E,7},
{0x19F,0x1A0,8},
{0x1A1,0x1A1,7},
{0x1A2,0x1A2,8},
{0x1A3,0x1A3,7},
{0x1A4,0x1A4,8},
{0x1A5,0x1A5,7},
{0x1A6,0x1A7,8},
{0x1A8,0x1A8,7},
{0x1A9,0x1A9,8},
{0x1AA,0x1AB,7},
{0x1AC,0x1AC,8},
{0x1AD,0x1AD,7},
{0x1AE,0x1AF,8},
{0x1B0,0x1B0,7},
{0x1B1,0x1B3,8},
{0x1B4,0x1B4,7},
{0x1B5,0x1B5,8},
{0x1B6,0x1B6,7},
{0x1B7,0x1B8,8},
{0x1B9,0x1BA,7},
{0x1BB,0x1BB,9},
{0x1BC,0x1BC,8},
{0x1BD,0x1BF,7},
{0x1C0,0x1C3,9},
{0x1C4,0x1C5,8},
{0x1C6,0x1C6,7},
{0x1C7,0x1C8,8},
{0x1C9,0x1C9,7},
{0x1CA,0x1CB,8},
{0x1CC,0x1CC,7},
{0x1CD,0x1CD,8},
{0x1CE,0x1CE,7},
{0x1CF,0x1CF,8},
{0x1D0,0x1D0,7},
{0x1D1,0x1D1,8},
{0x1D2,0x1D2,7},
{0x1D3,0x1D3,8},
{0x1D4,0x1D4,7},
{0x1D5,0x1D5,8},
{0x1D6,0x1D6,7},
{0x1D7,0x1D7,8},
{0x1D8,0x1D8,7},
{0x1D9,0x1D9,8},
{0x1DA,0x1DA,7},
{0x1DB,0x1DB,8},
{0x1DC,0x1DD,7},
{0x1DE,0x1DE,8},
{0x1DF,0x1DF,7},
{0x1E0,0x1E0,8},
{0x1E1,0x1E1,7},
{0x1E2,0x1E2,8},
{0x1E3,0x1E3,7},
{0x1E4,0x1E4,8},
{0x1E5,0x1E5,7},
{0x1E6,0x1E6,8},
{0x1E7,0x1E7,7},
{0x1E8,0x1E8,8},
{0x1E9,0x1E9,7},
{0x1EA,0x1EA,8},
{0x1EB,0x1EB,7},
{0x1EC,0x1EC,8},
{0x1ED,0x1ED,7},
{0x1EE,0x1EE,8},
{0x1EF,0x1F0,7},
{0x1F1,0x1F2,8},
{0x1F3,0x1F3,7},
{0x1F4,0x1F4,8},
{0x1F5,0x1F5,7},
{0x1F6,0x1F8,8},
{0x1F9,0x1F9,7},
{0x1FA,0x1FA,8},
{0x1FB,0x1FB,7},
{0x1FC,0x1FC,8},
{0x1FD,0x1FD,7},
{0x1FE,0x1FE,8},
{0x1FF,0x1FF,7},
{0x200,0x200,8},
{0x201,0x201,7},
{0x202,0x202,8},
{0x203,0x203,7},
{0x204,0x204,8},
{0x205,0x205,7},
{0x206,0x206,8},
{0x207,0x207,7},
{0x208,0x208,8},
{0x209,0x209,7},
{0x20A,0x20A,8},
{0x20B,0x20B,7},
{0x20C,0x20C,8},
{0x20D,0x20D,7},
{0x20E,0x20E,8},
{0x20F,0x20F,7},
{0x210,0x210,8},
{0x211,0x211,7},
{0x212,0x212,8},
{0x213,0x213,7},
{0x214,0x214,8},
{0x215,0x215,7},
{0x216,0x216,8},
{0x217,0x217,7},
{0x218,0x218,8},
{0x219,0x219,7},
{0x21A,0x21A,8},
{0x21B,0x21B,7},
{0x21C,0x21C,8},
{0x21D,0x21D,7},
{0x21E,0x21E,8},
{0x21F,0x21F,7},
{0x220,0x220,8},
{0x221,0x221,7},
{0x222,0x222,8},
{0x223,0x223,7},
{0x224,0x224,8},
{0x225,0x225,7},
{0x226,0x226,8},
{0x227,0x227,7},
{0x228,0x228,8},
{0x229,0x229,7},
{0x22A,0x22A,8},
{0x22B,0x22B,7},
{0x22C,0x22C,8},
{0x22D,0x22D,7},
{0x22E,0x22E,8},
{0x22F,0x22F,7},
{0x230,0x230,8},
{0x231,0x231,7},
{0x232,0x232,8},
{0x233,0x239,7},
{0x23A,0x23B,8},
{0x23C,0x23C,7},
{0x23D,0x23E,8},
{0x23F,0x240,7},
{0x241,0x241,8},
{0x242,0x242,7},
{0x243,0x246,8},
{0x247,0x247,7},
{0x248,0x248,8},
{0x249,0x249,7},
{0x24A,0x24A,8},
{0x24B,0x24B,7},
{0x24C,0x24C,8},
{0x24D,0x24D,7},
{0x24E,0x24E,8},
{0x24F,0x293,7},
{0x294,0x294,9},
{0x295,0x2B8,7},
{0x2B9,0x2BF,9},
{0x2C0,0x2C1,7},
{0x2C6,0x2D1,9},
{0x2E0,0x2E4,7},
{0x2EC,0x2EC,9},
{0x2EE,0x2EE,9},
{0x300,0x36F,3},
{0x370,0x370,8},
{0x371,0x371,7},
{0x372,0x372,8},
{0x373,0x373,7},
{0x374,0x374,9},
{0x376,0x376,8},
{0x377,0x377,7},
{0x37A,0x37D,7},
{0x37F,0x37F,8},
{0x386,0x386,8},
{0x388,0x38A,8},
{0x38C,0x38C,8},
{0x38E,0x38F,8},
{0x390,0x390,7},
{0x391,0x3A1,8},
{0x3A3,0x3AB,8},
{0x3AC,0x3CE,7},
{0x3CF,0x3CF,8},
{0x3D0,0x3D1,7},
{0x3D2,0x3D4,8},
{0x3D5,0x3D7,7},
{0x3D8,0x3D8,8},
{0x3D9,0x3D9,7},
{0x3DA,0x3DA,8},
{0x3DB,0x3DB,7},
{0x3DC,0x3DC,8},
{0x3DD,0x3DD,7},
{0x3DE,0x3DE,8},
{0x3DF,0x3DF,7},
{0x3E0,0x3E0,8},
{0x3E1,0x3E1,7},
{0x3E2,0x3E2,8},
{0x3E3,0x3E3,7},
{0x3E4,0x3E4,8},
{0x3E5,0x3E5,7},
{0x3E6,0x3E6,8},
{0x3E7,0x3E7,7},
{0x3E8,0x3E8,8},
{0x3E9,0x3E9,7},
{0x3EA,0x3EA,8},
{0x3EB,0x3EB,7},
{0x3EC,0x3EC,8},
{0x3ED,0x3ED,7},
{0x3EE,0x3EE,8},
{0x3EF,0x3F3,7},
{0x3F4,0x3F4,8},
{0x3F5,0x3F5,7},
{0x3F7,0x3F7,8},
{0x3F8,0x3F8,7},
{0x3F9,0x3FA,8},
{0x3FB,0x3FC,7},
{0x3FD,0x42F,8},
{0x430,0x45F,7},
{0x460,0x460,8},
{0x461,0x461,7},
{0x462,0x462,8},
{0x463,0x463,7},
{0x464,0x464,8},
{0x465,0x465,7},
{0x466,0x466,8},
{0x467,0x467,7},
{0x468,0x468,8},
{0x469,0x469,7},
{0x46A,0x46A,8},
{0x46B,0x46B,7},
{0x46C,0x46C,8},
{0x46D,0x46D,7},
{0x46E,0x46E,8},
{0x46F,0x46F,7},
{0x470,0x470,8},
{0x471,0x471,7},
{0x472,0x472,8},
{0x473,0x473,7},
{0x474,0x474,8},
{0x475,0x475,7},
{0x476,0x476,8},
{0x477,0x477,7},
{0x478,0x478,8},
{0x479,0x479,7},
{0x47A,0x47A,8},
{0x47B,0x47B,7},
{0x47C,0x47C,8},
{0x47D,0x47D,7},
{0x47E,0x47E,8},
{0x47F,0x47F,7},
{0x480,0x480,8},
{0x481,0x481,7},
{0x483,0x489,3},
{0x48A,0x48A,8},
{0x48B,0x48B,7},
{0x48C,0x48C,8},
{0x48D,0x48D,7},
{0x48E,0x48E,8},
{0x48F,0x48F,7},
{0x490,0x490,8},
{0x491,0x491,7},
{0x492,0x492,8},
{0x493,0x493,7},
{0x494,0x494,8},
{0x495,0x495,7},
{0x496,0x496,8},
{0x497,0x497,7},
{0x498,0x498,8},
{0x499,0x499,7},
{0x49A,0x49A,8},
{0x49B,0x49B,7},
{0x49C,0x49C,8},
{0x49D,0x49D,7},
{0x49E,0x49E,8},
{0x49F,0x49F,7},
{0x4A0,0x4A0,8},
{0x4A1,0x4A1,7},
{0x4A2,0x4A2,8},
{0x4A3,0x4A3,7},
{0x4A4,0x4A4,8},
{0x4A5,0x4A5,7},
{0x4A6,0x4A6,8},
{0x4A7,0x4A7,7},
{0x4A8,0x4A8,8},
{0x4A9,0x4A9,7},
{0x4AA,0x4AA,8},
{0x4AB,0x4AB,7},
{0x4AC,0x4AC,8},
{0x4AD,0x4AD,7},
{0x4AE,0x4AE,8},
{0x4AF,0x4AF,7},
{0x4B0,0x4B0,8},
{0x4B1,0x4B1,7},
{0x4B2,0x4B2,8},
{0x4B3,0x4B3,7},
{0x4B4,0x4B4,8},
{0x4B5,0x4B5,7},
{0x4B6,0x4B6,8},
{0x4B7,0x4B7,7},
{0x4B8,0x4B8,8},
{0x4B9,0x4B9,7},
{0x4BA,0x4BA,8},
{0x4BB,0x4BB,7},
{0x4BC,0x4BC,8},
{0x4BD,0x4BD,7},
{0x4BE,0x4BE,8},
{0x4BF,0x4BF,7},
{0x4C0,0x4C1,8},
{0x4C2,0x4C2,7},
{0x4C3,0x4C3,8},
{0x4C4,0x4C4,7},
{0x4C5,0x4C5,8},
{0x4C6,0x4C6,7},
{0x4C7,0x4C7,8},
{0x4C8,0x4C8,7},
{0x4C9,0x4C9,8},
{0x4CA,0x4CA,7},
{0x4CB,0x4CB,8},
{0x4CC,0x4CC,7},
{0x4CD,0x4CD,8},
{0x4CE,0x4CF,7},
{0x4D0,0x4D0,8},
{0x4D1,0x4D1,7},
{0x4D2,0x4D2,8},
{0x4D3,0x4D3,7},
{0x4D4,0x4D4,8},
{0x4D5,0x4D5,7},
{0x4D6,0x4D6,8},
{0x4D7,0x4D7,7},
{0x4D8,0x4D8,8},
{0x4D9,0x4D9,7},
{0x4DA,0x4DA,8},
{0x4DB,0x4DB,7},
{0x4DC,0x4DC,8},
{0x4DD,0x4DD,7},
{0x4DE,0x4DE,8},
{0x4DF,0x4DF,7},
{0x4E0,0x4E0,8},
{0x4E1,0x4E1,7},
{0x4E2,0x4E2,8},
{0x4E3,0x4E3,7},
{0x4E4,0x4E4,8},
{0x4E5,0x4E5,7},
{0x4E6,0x4E6,8},
{0x4E7,0x4E7,7},
{0x4E8,0x4E8,8},
{0x4E9,0x4E9,7},
{0x4EA,0x4EA,8},
{0x4EB,0x4EB,7},
{0x4EC,0x4EC,8},
{0x4ED,0x4ED,7},
{0x4EE,0x4EE,8},
{0x4EF,0x4EF,7},
{0x4F0,0x4F0,8},
{0x4F1,0x4F1,7},
{0x4F2,0x4F2,8},
{0x4F3,0x4F3,7},
{0x4F4,0x4F4,8},
{0x4F5,0x4F5,7},
{0x4F6,0x4F6,8},
{0x4F7,0x4F7,7},
{0x4F8,0x4F8,8},
{0x4F9,0x4F9,7},
{0x4FA,0x4FA,8},
{0x4FB,0x4FB,7},
{0x4FC,0x4FC,8},
{0x4FD,0x4FD,7},
{0x4FE,0x4FE,8},
{0x4FF,0x4FF,7},
{0x500,0x500,8},
{0x501,0x501,7},
{0x502,0x502,8},
{0x503,0x503,7},
{0x504,0x504,8},
{0x505,0x505,7},
{0x506,0x506,8},
{0x507,0x507,7},
{0x508,0x508,8},
{0x509,0x509,7},
{0x50A,0x50A,8},
{0x50B,0x50B,7},
{0x50C,0x50C,8},
{0x50D,0x50D,7},
{0x50E,0x50E,8},
{0x50F,0x50F,7},
{0x510,0x510,8},
{0x511,0x511,7},
{0x512,0x512,8},
{0x513,0x513,7},
{0x514,0x514,8},
{0x515,0x515,7},
{0x516,0x516,8},
{0x517,0x517,7},
{0x518,0x518,8},
{0x519,0x519,7},
{0x51A,0x51A,8},
{0x51B,0x51B,7},
{0x51C,0x51C,8},
{0x51D,0x51D,7},
{0x51E,0x51E,8},
{0x51F,0x51F,7},
{0x520,0x520,8},
{0x521,0x521,7},
{0x522,0x522,8},
{0x523,0x523,7},
{0x524,0x524,8},
{0x525,0x525,7},
{0x526,0x526,8},
{0x527,0x527,7},
{0x528,0x528,8},
{0x529,0x529,7},
{0x52A,0x52A,8},
{0x52B,0x52B,7},
{0x52C,0x52C,8},
{0x52D,0x52D,7},
{0x52E,0x52E,8},
{0x52F,0x52F,7},
{0x531,0x556,8},
{0x559,0x559,9},
{0x55D,0x55D,12},
{0x560,0x588,7},
{0x589,0x589,13},
{0x591,0x5BD,3},
{0x5BF,0x5BF,3},
{0x5C1,0x5C2,3},
{0x5C4,0x5C5,3},
{0x5C7,0x5C7,3},
{0x5D0,0x5EA,9},
{0x5EF,0x5F3,9},
{0x600,0x605,5},
{0x60C,0x60D,12},
{0x610,0x61A,3},
{0x61C,0x61C,5},
{0x61D,0x61F,13},
{0x620,0x64A,9},
{0x64B,0x65F,3},
{0x660,0x669,10},
{0x66B,0x66C,10},
{0x66E,0x66F,9},
{0x670,0x670,3},
{0x671,0x6D3,9},
{0x6D4,0x6D4,13},
{0x6D5,0x6D5,9},
{0x6D6,0x6DC,3},
{0x6DD,0x6DD,5},
{0x6DF,0x6E4,3},
{0x6E5,0x6E6,9},
{0x6E7,0x6E8,3},
{0x6EA,0x6ED,3},
{0x6EE,0x6EF,9},
{0x6F0,0x6F9,10},
{0x6FA,0x6FC,9},
{0x6FF,0x6FF,9},
{0x700,0x702,13},
{0x70F,0x70F,5},
{0x710,0x710,9},
{0x711,0x711,3},
{0x712,0x72F,9},
{0x730,0x74A,3},
{0x74D,0x7A5,9},
{0x7A6,0x7B0,3},
{0x7B1,0x7B1,9},
{0x7C0,0x7C9,10},
{0x7CA,0x7EA,9},
{0x7EB,0x7F3,3},
{0x7F4,0x7F5,9},
{0x7F8,0x7F8,12},
{0x7F9,0x7F9,13},
{0x7FA,0x7FA,9},
{0x7FD,0x7FD,3},
{0x800,0x815,9},
{0x816,0x819,3},
{0x81A,0x81A,9},
{0x81B,0x823,3},
{0x824,0x824,9},
{0x825,0x827,3},
{0x828,0x828,9},
{0x829,0x82D,3},
{0x837,0x837,13},
{0x839,0x839,13},
{0x83D,0x83E,13},
{0x840,0x858,9},
{0x859,0x85B,3},
{0x860,0x86A,9},
{0x870,0x887,9},
{0x889,0x88E,9},
{0x890,0x891,5},
{0x898,0x89F,3},
{0x8A0,0x8C9,9},
{0x8CA,0x8E1,3},
{0x8E2,0x8E2,5},
{0x8E3,0x903,3},
{0x904,0x939,9},
{0x93A,0x93C,3},
{0x93D,0x93D,9},
{0x93E,0x94F,3},
{0x950,0x950,9},
{0x951,0x957,3},
{0x958,0x961,9},
{0x962,0x963,3},
{0x964,0x965,13},
{0x966,0x96F,10},
{0x971,0x980,9},
{0x981,0x983,3},
{0x985,0x98C,9},
{0x98F,0x990,9},
{0x993,0x9A8,9},
{0x9AA,0x9B0,9},
{0x9B2,0x9B2,9},
{0x9B6,0x9B9,9},
{0x9BC,0x9BC,3},
{0x9BD,0x9BD,9},
{0x9BE,0x9C4,3},
{0x9C7,0x9C8,3},
{0x9CB,0x9CD,3},
{0x9CE,0x9CE,9},
{0x9D7,0x9D7,3},
{0x9DC,0x9DD,9},
{0x9DF,0x9E1,9},
{0x9E2,0x9E3,3},
{0x9E6,0x9EF,10},
{0x9F0,0x9F1,9},
{0x9FC,0x9FC,9},
{0x9FE,0x9FE,3},
{0xA01,0xA03,3},
{0xA05,0xA0A,9},
{0xA0F,0xA10,9},
{0xA13,0xA28,9},
{0xA2A,0xA30,9},
{0xA32,0xA33,9},
{0xA35,0xA36,9},
{0xA38,0xA39,9},
{0xA3C,0xA3C,3},
{0xA3E,0xA42,3},
{0xA47,0xA48,3},
{0xA4B,0xA4D,3},
{0xA51,0xA51,3},
{0xA59,0xA5C,9},
{0xA5E,0xA5E,9},
{0xA66,0xA6F,10},
{0xA70,0xA71,3},
{0xA72,0xA74,9},
{0xA75,0xA75,3},
{0xA81,0xA83,3},
{0xA85,0xA8D,9},
{0xA8F,0xA91,9},
{0xA93,0xAA8,9},
{0xAAA,0xAB0,9},
{0xAB2,0xAB3,9},
{0xAB5,0xAB9,9},
{0xABC,0xABC,3},
{0xABD,0xABD,9},
{0xABE,0xAC5,3},
{0xAC7,0xAC9,3},
{0xACB,0xACD,3},
{0xAD0,0xAD0,9},
{0xAE0,0xAE1,9},
{0xAE2,0xAE3,3},
{0xAE6,0xAEF,10},
{0xAF9,0xAF9,9},
{0xAFA,0xAFF,3},
{0xB01,0xB03,3},
{0xB05,0xB0C,9},
{0xB0F,0xB10,9},
{0xB13,0xB28,9},
{0xB2A,0xB30,9},
{0xB32,0xB33,9},
{0xB35,0xB39,9},
{0xB3C,0xB3C,3},
{0xB3D,0xB3D,9},
{0xB3E,0xB44,3},
{0xB47,0xB48,3},
{0xB4B,0xB4D,3},
{0xB55,0xB57,3},
{0xB5C,0xB5D,9},
{0xB5F,0xB61,9},
{0xB62,0xB63,3},
{0xB66,0xB6F,10},
{0xB71,0xB71,9},
{0xB82,0xB82,3},
{0xB83,0xB83,9},
{0xB85,0xB8A,9},
{0xB8E,0xB90,9},
{0xB92,0xB95,9},
{0xB99,0xB9A,9},
{0xB9C,0xB9C,9},
{0xB9E,0xB9F,9},
{0xBA3,0xBA4,9},
{0xBA8,0xBAA,9},
{0xBAE,0xBB9,9},
{0xBBE,0xBC2,3},
{0xBC6,0xBC8,3},
{0xBCA,0xBCD,3},
{0xBD0,0xBD0,9},
{0xBD7,0xBD7,3},
{0xBE6,0xBEF,10},
{0xC00,0xC04,3},
{0xC05,0xC0C,9},
{0xC0E,0xC10,9},
{0xC12,0xC28,9},
{0xC2A,0xC39,9},
{0xC3C,0xC3C,3},
{0xC3D,0xC3D,9},
{0xC3E,0xC44,3},
{0xC46,0xC48,3},
{0xC4A,0xC4D,3},
{0xC55,0xC56,3},
{0xC58,0xC5A,9},
{0xC5D,0xC5D,9},
{0xC60,0xC61,9},
{0xC62,0xC63,3},
{0xC66,0xC6F,10},
{0xC80,0xC80,9},
{0xC81,0xC83,3},
{0xC85,0xC8C,9},
{0xC8E,0xC90,9},
{0xC92,0xCA8,9},
{0xCAA,0xCB3,9},
{0xCB5,0xCB9,9},
{0xCBC,0xCBC,3},
{0xCBD,0xCBD,9},
{0xCBE,0xCC4,3},
{0xCC6,0xCC8,3},
{0xCCA,0xCCD,3},
{0xCD5,0xCD6,3},
{0xCDD,0xCDE,9},
{0xCE0,0xCE1,9},
{0xCE2,0xCE3,3},
{0xCE6,0xCEF,10},
{0xCF1,0xCF2,9},
{0xCF3,0xCF3,3},
{0xD00,0xD03,3},
{0xD04,0xD0C,9},
{0xD0E,0xD10,9},
{0xD12,0xD3A,9},
{0xD3B,0xD3C,3},
{0xD3D,0xD3D,9},
{0xD3E,0xD44,3},
{0xD46,0xD48,3},
{0xD4A,0xD4D,3},
{0xD4E,0xD4E,9},
{0xD54,0xD56,9},
{0xD57,0xD57,3},
{0xD5F,0xD61,9},
{0xD62,0xD63,3},
{0xD66,0xD6F,10},
{0xD7A,0xD7F,9},
{0xD81,0xD83,3},
{0xD85,0xD96,9},
{0xD9A,0xDB1,9},
{0xDB3,0xDBB,9},
{0xDBD,0xDBD,9},
{0xDC0,0xDC6,9},
{0xDCA,0xDCA,3},
{0xDCF,0xDD4,3},
{0xDD6,0xDD6,3},
{0xDD8,0xDDF,3},
{0xDE6,0xDEF,10},
{0xDF2,0xDF3,3},
{0xE01,0xE30,9},
{0xE31,0xE31,3},
{0xE32,0xE33,9},
{0xE34,0xE3A,3},
{0xE40,0xE46,9},
{0xE47,0xE4E,3},
{0xE50,0xE59,10},
{0xE81,0xE82,9},
{0xE84,0xE84,9},
{0xE86,0xE8A,9},
{0xE8C,0xEA3,9},
{0xEA5,0xEA5,9},
{0xEA7,0xEB0,9},
{0xEB1,0xEB1,3},
{0xEB2,0xEB3,9},
{0xEB4,0xEBC,3},
{0xEBD,0xEBD,9},
{0xEC0,0xEC4,9},
{0xEC6,0xEC6,9},
{0xEC8,0xECE,3},
{0xED0,0xED9,10},
{0xEDC,0xEDF,9},
{0xF00,0xF00,9},
{0xF18,0xF19,3},
{0xF20,0xF29,10},
{0xF35,0xF35,3},
{0xF37,0xF37,3},
{0xF39,0xF39,3},
{0xF3A,0xF3D,14},
{0xF3E,0xF3F,3},
{0xF40,0xF47,9},
{0xF49,0xF6C,9},
{0xF71,0xF84,3},
{0xF86,0xF87,3},
{0xF88,0xF8C,9},
{0xF8D,0xF97,3},
{0xF99,0xFBC,3},
{0xFC6,0xFC6,3},
{0x1000,0x102A,9},
{0x102B,0x103E,3},
{0x103F,0x103F,9},
{0x1040,0x1049,10},
{0x104A,0x104B,13},
{0x1050,0x1055,9},
{0x1056,0x1059,3},
{0x105A,0x105D,9},
{0x105E,0x1060,3},
{0x1061,0x1061,9},
{0x1062,0x1064,3},
{0x1065,0x1066,9},
{0x1067,0x106D,3},
{0x106E,0x1070,9},
{0x1071,0x1074,3},
{0x1075,0x1081,9},
{0x1082,0x108D,3},
{0x108E,0x108E,9},
{0x108F,0x108F,3},
{0x1090,0x1099,10},
{0x109A,0x109D,3},
{0x10A0,0x10C5,8},
{0x10C7,0x10C7,8},
{0x10CD,0x10CD,8},
{0x10D0,0x10FA,9},
{0x10FC,0x10FC,7},
{0x10FD,0x1248,9},
{0x124A,0x124D,9},
{0x1250,0x1256,9},
{0x1258,0x1258,9},
{0x125A,0x125D,9},
{0x1260,0x1288,9},
{0x128A,0x128D,9},
{0x1290,0x12B0,9},
{0x12B2,0x12B5,9},
{0x12B8,0x12BE,9},
{0x12C0,0x12C0,9},
{0x12C2,0x12C5,9},
{0x12C8,0x12D6,9},
{0x12D8,0x1310,9},
{0x1312,0x1315,9},
{0x1318,0x135A,9},
{0x135D,0x135F,3},
{0x1362,0x1362,13},
{0x1367,0x1368,13},
{0x1380,0x138F,9},
{0x13A0,0x13F5,8},
{0x13F8,0x13FD,7},
{0x1401,0x166C,9},
{0x166E,0x166E,13},
{0x166F,0x167F,9},
{0x1680,0x1680,6},
{0x1681,0x169A,9},
{0x169B,0x169C,14},
{0x16A0,0x16EA,9},
{0x16EE,0x16F8,9},
{0x1700,0x1711,9},
{0x1712,0x1715,3},
{0x171F,0x1731,9},
{0x1732,0x1734,3},
{0x1735,0x1736,13},
{0x1740,0x1751,9},
{0x1752,0x1753,3},
{0x1760,0x176C,9},
{0x176E,0x1770,9},
{0x1772,0x1773,3},
{0x1780,0x17B3,9},
{0x17B4,0x17D3,3},
{0x17D7,0x17D7,9},
{0x17DC,0x17DC,9},
{0x17DD,0x17DD,3},
{0x17E0,0x17E9,10},
{0x1802,0x1802,12},
{0x1803,0x1803,13},
{0x1808,0x1808,12},
{0x1809,0x1809,13},
{0x180B,0x180D,3},
{0x180E,0x180E,5},
{0x180F,0x180F,3},
{0x1810,0x1819,10},
{0x1820,0x1878,9},
{0x1880,0x1884,9},
{0x1885,0x1886,3},
{0x1887,0x18A8,9},
{0x18A9,0x18A9,3},
{0x18AA,0x18AA,9},
{0x18B0,0x18F5,9},
{0x1900,0x191E,9},
{0x1920,0x192B,3},
{0x1930,0x193B,3},
{0x1944,0x1945,13},
{0x1946,0x194F,10},
{0x1950,0x196D,9},
{0x1970,0x1974,9},
{0x1980,0x19AB,9},
{0x19B0,0x19C9,9},
{0x19D0,0x19D9,10},
{0x1A00,0x1A16,9},
{0x1A17,0x1A1B,3},
{0x1A20,0x1A54,9},
{0x1A55,0x1A5E,3},
{0x1A60,0x1A7C,3},
{0x1A7F,0x1A7F,3},
{0x1A80,0x1A89,10},
{0x1A90,0x1A99,10},
{0x1AA7,0x1AA7,9},
{0x1AA8,0x1AAB,13},
{0x1AB0,0x1ACE,3},
{0x1B00,0x1B04,3},
{0x1B05,0x1B33,9},
{0x1B34,0x1B44,3},
{0x1B45,0x1B4C,9},
{0x1B50,0x1B59,10},
{0x1B5A,0x1B5B,13},
{0x1B5E,0x1B5F,13},
{0x1B6B,0x1B73,3},
{0x1B7D,0x1B7E,13},
{0x1B80,0x1B82,3},
{0x1B83,0x1BA0,9},
{0x1BA1,0x1BAD,3},
{0x1BAE,0x1BAF,9},
{0x1BB0,0x1BB9,10},
{0x1BBA,0x1BE5,9},
{0x1BE6,0x1BF3,3},
{0x1C00,0x1C23,9},
{0x1C24,0x1C37,3},
{0x1C3B,0x1C3C,13},
{0x1C40,0x1C49,10},
{0x1C4D,0x1C4F,9},
{0x1C50,0x1C59,10},
{0x1C5A,0x1C7D,9},
{0x1C7E,0x1C7F,13},
{0x1C80,0x1C88,7},
{0x1C90,0x1CBA,9},
{0x1CBD,0x1CBF,9},
{0x1CD0,0x1CD2,3},
{0x1CD4,0x1CE8,3},
{0x1CE9,0x1CEC,9},
{0x1CED,0x1CED,3},
{0x1CEE,0x1CF3,9},
{0x1CF4,0x1CF4,3},
{0x1CF5,0x1CF6,9},
{0x1CF7,0x1CF9,3},
{0x1CFA,0x1CFA,9},
{0x1D00,0x1DBF,7},
{0x1DC0,0x1DFF,3},
{0x1E00,0x1E00,8},
{0x1E01,0x1E01,7},
{0x1E02,0x1E02,8},
{0x1E03,0x1E03,7},
{0x1E04,0x1E04,8},
{0x1E05,0x1E05,7},
{0x1E06,0x1E06,8},
{0x1E07,0x1E07,7},
{0x1E08,0x1E08,8},
{0x1E09,0x1E09,7},
{0x1E0A,0x1E0A,8},
{0x1E0B,0x1E0B,7},
{0x1E0C,0x1E0C,8},
{0x1E0D,0x1E0D,7},
{0x1E0E,0x1E0E,8},
{0x1E0F,0x1E0F,7},
{0x1E10,0x1E10,8},
{0x1E11,0x1E11,7},
{0x1E12,0x1E12,8},
{0x1E13,0x1E13,7},
{0x1E14,0x1E14,8},
{0x1E15,0x1E15,7},
{0x1E16,0x1E16,8},
{0x1E17,0x1E17,7},
{0x1E18,0x1E18,8},
{0x1E19,0x1E19,7},
{0x1E1A,0x1E1A,8},
{0x1E1B,0x1E1B,7},
{0x1E1C,0x1E1C,8},
{0x1E1D,0x1E1D,7},
{0x1E1E,0x1E1E,8},
{0x1E1F,0x1E1F,7},
{0x1E20,0x1E20,8},
{0x1E21,0x1E21,7},
{0x1E22,0x1E22,8},
{0x1E23,0x1E23,7},
{0x1E24,0x1E24,8},
{0x1E25,0x1E25,7},
{0x1E26,0x1E26,8},
{0x1E27,0x1E27,7},
{0x1E28,0x1E28,8},
{0x1E29,0x1E29,7},
{0x1E2A,0x1E2A,8},
{0x1E2B,0x1E2B,7},
{0x1E2C,0x1E2C,8},
{0x1E2D,0x1E2D,7},
{0x1E2E,0x1E2E,8},
{0x1E2F,0x1E2F,7},
{0x1E30,0x1E30,8},
{0x1E31,0x1E31,7},
{0x1E32,0x1E32,8},
{0x1E33,0x1E33,7},
{0x1E34,0x1E34,8},
{0x1E35,0x1E35,7},
{0x1E36,0x1E36,8},
{0x1E37,0x1E37,7},
{0x1E38,0x1E38,8},
{0x1E39,0x1E39,7},
{0x1E3A,0x1E3A,8},
{0x1E3B,0x1E3B,7},
{0x1E3C,0x1E3C,8},
{0x1E3D,0x1E3D,7},
{0x1E3E,0x1E3E,8},
{0x1E3F,0x1E3F,7},
{0x1E40,0x1E40,8},
{0x1E41,0x1E41,7},
{0x1E42,0x1E42,8},
{0x1E43,0x1E43,7},
{0x1E44,0x1E44,8},
{0x1E45,0x1E45,7},
{0x1E46,0x1E46,8},
{0x1E47,0x1E47,7},
{0x1E48,0x1E48,8},
{0x1E49,0x1E49,7},
{0x1E4A,0x1E4A,8},
{0x1E4B,0x1E4B,7},
{0x1E4C,0x1E4C,8},
{0x1E4D,0x1E4D,7},
{0x1E4E,0x1E4E,8},
{0x1E4F,0x1E4F,7},
{0x1E50,0x1E50,8},
{0x1E51,0x1E51,7},
{0x1E52,0x1E52,8},
{0x1E53,0x1E53,7},
{0x1E54,0x1E54,8},
{0x1E55,0x1E55,7},
{0x1E56,0x1E56,8},
{0x1E57,0x1E57,7},
{0x1E58,0x1E58,8},
{0x1E59,0x1E59,7},
{0x1E5A,0x1E5A,8},
{0x1E5B,0x1E5B,7},
{0x1E5C,0x1E5C,8},
{0x1E5D,0x1E5D,7},
{0x1E5E,0x1E5E,8},
{0x1E5F,0x1E5F,7},
{0x1E60,0x1E60,8},
{0x1E61,0x1E61,7},
{0x1E62,0x1E62,8},
{0x1E63,0x1E63,7},
{0x1E64,0x1E64,8},
{0x1E65,0x1E65,7},
{0x1E66,0x1E66,8},
{0x1E67,0x1E67,7},
{0x1E68,0x1E68,8},
{0x1E69,0x1E69,7},
{0x1E6A,0x1E6A,8},
{0x1E6B,0x1E6B,7},
{0x1E6C,0x1E6C,8},
{0x1E6D,0x1E6D,7},
{0x1E6E,0x1E6E,8},
{0x1E6F,0x1E6F,7},
{0x1E70,0x1E70,8},
{0x1E71,0x1E71,7},
{0x1E72,0x1E72,8},
{0x1E73,0x1E73,7},
{0x1E74,0x1E74,8},
{0x1E75,0x1E75,7},
{0x1E76,0x1E76,8},
{0x1E77,0x1E77,7},
{0x1E78,0x1E78,8},
{0x1E79,0x1E79,7},
{0x1E7A,0x1E7A,8},
{0x1E7B,0x1E7B,7},
{0x1E7C,0x1E7C,8},
{0x1E7D,0x1E7D,7},
{0x1E7E,0x1E7E,8},
{0x1E7F,0x1E7F,7},
{0x1E80,0x1E80,8},
{0x1E81,0x1E81,7},
{0x1E82,0x1E82,8},
{0x1E83,0x1E83,7},
{0x1E84,0x1E84,8},
{0x1E85,0x1E85,7},
{0x1E86,0x1E86,8},
{0x1E87,0x1E87,7},
{0x1E88,0x1E88,8},
{0x1E89,0x1E89,7},
{0x1E8A,0x1E8A,8},
{0x1E8B,0x1E8B,7},
{0x1E8C,0x1E8C,8},
{0x1E8D,0x1E8D,7},
{0x1E8E,0x1E8E,8},
{0x1E8F,0x1E8F,7},
{0x1E90,0x1E90,8},
{0x1E91,0x1E91,7},
{0x1E92,0x1E92,8},
{0x1E93,0x1E93,7},
{0x1E94,0x1E94,8},
{0x1E95,0x1E9D,7},
{0x1E9E,0x1E9E,8},
{0x1E9F,0x1E9F,7},
{0x1EA0,0x1EA0,8},
{0x1EA1,0x1EA1,7},
{0x1EA2,0x1EA2,8},
{0x1EA3,0x1EA3,7},
{0x1EA4,0x1EA4,8},
{0x1EA5,0x1EA5,7},
{0x1EA6,0x1EA6,8},
{0x1EA7,0x1EA7,7},
{0x1EA8,0x1EA8,8},
{0x1EA9,0x1EA9,7},
{0x1EAA,0x1EAA,8},
{0x1EAB,0x1EAB,7},
{0x1EAC,0x1EAC,8},
{0x1EAD,0x1EAD,7},
{0x1EAE,0x1EAE,8},
{0x1EAF,0x1EAF,7},
{0x1EB0,0x1EB0,8},
{0x1EB1,0x1EB1,7},
{0x1EB2,0x1EB2,8},
{0x1EB3,0x1EB3,7},
{0x1EB4,0x1EB4,8},
{0x1EB5,0x1EB5,7},
{0x1EB6,0x1EB6,8},
{0x1EB7,0x1EB7,7},
{0x1EB8,0x1EB8,8},
{0x1EB9,0x1EB9,7},
{0x1EBA,0x1EBA,8},
{0x1EBB,0x1EBB,7},
{0x1EBC,0x1EBC,8},
{0x1EBD,0x1EBD,7},
{0x1EBE,0x1EBE,8},
{0x1EBF,0x1EBF,7},
{0x1EC0,0x1EC0,8},
{0x1EC1,0x1EC1,7},
{0x1EC2,0x1EC2,8},
{0x1EC3,0x1EC3,7},
{0x1EC4,0x1EC4,8},
{0x1EC5,0x1EC5,7},
{0x1EC6,0x1EC6,8},
{0x1EC7,0x1EC7,7},
{0x1EC8,0x1EC8,8},
{0x1EC9,0x1EC9,7},
{0x1ECA,0x1ECA,8},
{0x1ECB,0x1ECB,7},
{0x1ECC,0x1ECC,8},
{0x1ECD,0x1ECD,7},
{0x1ECE,0x1ECE,8},
{0x1ECF,0x1ECF,7},
{0x1ED0,0x1ED0,8},
{0x1ED1,0x1ED1,7},
{0x1ED2,0x1ED2,8},
{0x1ED3,0x1ED3,7},
{0x1ED4,0x1ED4,8},
{0x1ED5,0x1ED5,7},
{0x1ED6,0x1ED6,8},
{0x1ED7,0x1ED7,7},
{0x1ED8,0x1ED8,8},
{0x1ED9,0x1ED9,7},
{0x1EDA,0x1EDA,8},
{0x1EDB,0x1EDB,7},
{0x1EDC,0x1EDC,8},
{0x1EDD,0x1EDD,7},
{0x1EDE,0x1EDE,8},
{0x1EDF,0x1EDF,7},
{0x1EE0,0x1EE0,8},
{0x1EE1,0x1EE1,7},
{0x1EE2,0x1EE2,8},
{0x1EE3,0x1EE3,7},
{0x1EE4,0x1EE4,8},
{0x1EE5,0x1EE5,7},
{0x1EE6,0x1EE6,8},
{0x1EE7,0x1EE7,7},
{0x1EE8,0x1EE8,8},
{0x1EE9,0x1EE9,7},
{0x1EEA,0x1EEA,8},
{0x1EEB,0x1EEB,7},
{0x1EEC,0x1EEC,8},
{0x1EED,0x1EED,7},
{0x1EEE,0x1EEE,8},
{0x1EEF,0x1EEF,7},
{0x1EF0,0x1EF0,8},
{0x1EF1,0x1EF1,7},
{0x1EF2,0x1EF2,8},
{0x1EF3,0x1EF3,7},
{0x1EF4,0x1EF4,8},
{0x1EF5,0x1EF5,7},
{0x1EF6,0x1EF6,8},
{0x1EF7,0x1EF7,7},
{0x1EF8,0x1EF8,8},
{0x1EF9,0x1EF9,7},
{0x1EFA,0x1EFA,8},
{0x1EFB,0x1EFB,7},
{0x1EFC,0x1EFC,8},
{0x1EFD,0x1EFD,7},
{0x1EFE,0x1EFE,8},
{0x1EFF,0x1F07,7},
{0x1F08,0x1F0F,8},
{0x1F10,0x1F15,7},
{0x1F18,0x1F1D,8},
{0x1F20,0x1F27,7},
{0x1F28,0x1F2F,8},
{0x1F30,0x1F37,7},
{0x1F38,0x1F3F,8},
{0x1F40,0x1F45,7},
{0x1F48,0x1F4D,8},
{0x1F50,0x1F57,7},
{0x1F59,0x1F59,8},
{0x1F5B,0x1F5B,8},
{0x1F5D,0x1F5D,8},
{0x1F5F,0x1F5F,8},
{0x1F60,0x1F67,7},
{0x1F68,0x1F6F,8},
{0x1F70,0x1F7D,7},
{0x1F80,0x1F87,7},
{0x1F88,0x1F8F,8},
{0x1F90,0x1F97,7},
{0x1F98,0x1F9F,8},
{0x1FA0,0x1FA7,7},
{0x1FA8,0x1FAF,8},
{0x1FB0,0x1FB4,7},
{0x1FB6,0x1FB7,7},
{0x1FB8,0x1FBC,8},
{0x1FBE,0x1FBE,7},
{0x1FC2,0x1FC4,7},
{0x1FC6,0x1FC7,7},
{0x1FC8,0x1FCC,8},
{0x1FD0,0x1FD3,7},
{0x1FD6,0x1FD7,7},
{0x1FD8,0x1FDB,8},
{0x1FE0,0x1FE7,7},
{0x1FE8,0x1FEC,8},
{0x1FF2,0x1FF4,7},
{0x1FF6,0x1FF7,7},
{0x1FF8,0x1FFC,8},
{0x2000,0x200A,6},
{0x200B,0x200B,5},
{0x200C,0x200D,3},
{0x200E,0x200F,5},
{0x2013,0x2014,12},
{0x2018,0x201F,14},
{0x2024,0x2024,11},
{0x2028,0x2029,4},
{0x202A,0x202E,5},
{0x202F,0x202F,6},
{0x2039,0x203A,14},
{0x203C,0x203D,13},
{0x2045,0x2046,14},
{0x2047,0x2049,13},
{0x205F,0x205F,6},
{0x2060,0x2064,5},
{0x2066,0x206F,5},
{0x2071,0x2071,7},
{0x207D,0x207E,14},
{0x207F,0x207F,7},
{0x208D,0x208E,14},
{0x2090,0x209C,7},
{0x20D0,0x20F0,3},
{0x2102,0x2102,8},
{0x2107,0x2107,8},
{0x210A,0x210A,7},
{0x210B,0x210D,8},
{0x210E,0x210F,7},
{0x2110,0x2112,8},
{0x2113,0x2113,7},
{0x2115,0x2115,8},
{0x2119,0x211D,8},
{0x2124,0x2124,8},
{0x2126,0x2126,8},
{0x2128,0x2128,8},
{0x212A,0x212D,8},
{0x212F,0x212F,7},
{0x2130,0x2133,8},
{0x2134,0x2134,7},
{0x2135,0x2138,9},
{0x2139,0x2139,7},
{0x213C,0x213D,7},
{0x213E,0x213F,8},
{0x2145,0x2145,8},
{0x2146,0x2149,7},
{0x214E,0x214E,7},
{0x2160,0x216F,8},
{0x2170,0x217F,7},
{0x2180,0x2182,9},
{0x2183,0x2183,8},
{0x2184,0x2184,7},
{0x2185,0x2188,9},
{0x2308,0x230B,14},
{0x2329,0x232A,14},
{0x24B6,0x24CF,8},
{0x24D0,0x24E9,7},
{0x275B,0x2760,14},
{0x2768,0x2775,14},
{0x27C5,0x27C6,14},
{0x27E6,0x27EF,14},
{0x2983,0x2998,14},
{0x29D8,0x29DB,14},
{0x29FC,0x29FD,14},
{0x2C00,0x2C2F,8},
{0x2C30,0x2C5F,7},
{0x2C60,0x2C60,8},
{0x2C61,0x2C61,7},
{0x2C62,0x2C64,8},
{0x2C65,0x2C66,7},
{0x2C67,0x2C67,8},
{0x2C68,0x2C68,7},
{0x2C69,0x2C69,8},
{0x2C6A,0x2C6A,7},
{0x2C6B,0x2C6B,8},
{0x2C6C,0x2C6C,7},
{0x2C6D,0x2C70,8},
{0x2C71,0x2C71,7},
{0x2C72,0x2C72,8},
{0x2C73,0x2C74,7},
{0x2C75,0x2C75,8},
{0x2C76,0x2C7D,7},
{0x2C7E,0x2C80,8},
{0x2C81,0x2C81,7},
{0x2C82,0x2C82,8},
{0x2C83,0x2C83,7},
{0x2C84,0x2C84,8},
{0x2C85,0x2C85,7},
{0x2C86,0x2C86,8},
{0x2C87,0x2C87,7},
{0x2C88,0x2C88,8},
{0x2C89,0x2C89,7},
{0x2C8A,0x2C8A,8},
{0x2C8B,0x2C8B,7},
{0x2C8C,0x2C8C,8},
{0x2C8D,0x2C8D,7},
{0x2C8E,0x2C8E,8},
{0x2C8F,0x2C8F,7},
{0x2C90,0x2C90,8},
{0x2C91,0x2C91,7},
{0x2C92,0x2C92,8},
{0x2C93,0x2C93,7},
{0x2C94,0x2C94,8},
{0x2C95,0x2C95,7},
{0x2C96,0x2C96,8},
{0x2C97,0x2C97,7},
{0x2C98,0x2C98,8},
{0x2C99,0x2C99,7},
{0x2C9A,0x2C9A,8},
{0x2C9B,0x2C9B,7},
{0x2C9C,0x2C9C,8},
{0x2C9D,0x2C9D,7},
{0x2C9E,0x2C9E,8},
{0x2C9F,0x2C9F,7},
{0x2CA0,0x2CA0,8},
{0x2CA1,0x2CA1,7},
{0x2CA2,0x2CA2,8},
{0x2CA3,0x2CA3,7},
{0x2CA4,0x2CA4,8},
{0x2CA5,0x2CA5,7},
{0x2CA6,0x2CA6,8},
{0x2CA7,0x2CA7,7},
{0x2CA8,0x2CA8,8},
{0x2CA9,0x2CA9,7},
{0x2CAA,0x2CAA,8},
{0x2CAB,0x2CAB,7},
{0x2CAC,0x2CAC,8},
{0x2CAD,0x2CAD,7},
{0x2CAE,0x2CAE,8},
{0x2CAF,0x2CAF,7},
{0x2CB0,0x2CB0,8},
{0x2CB1,0x2CB1,7},
{0x2CB2,0x2CB2,8},
{0x2CB3,0x2CB3,7},
{0x2CB4,0x2CB4,8},
{0x2CB5,0x2CB5,7},
{0x2CB6,0x2CB6,8},
{0x2CB7,0x2CB7,7},
{0x2CB8,0x2CB8,8},
{0x2CB9,0x2CB9,7},
{0x2CBA,0x2CBA,8},
{0x2CBB,0x2CBB,7},
{0x2CBC,0x2CBC,8},
{0x2CBD,0x2CBD,7},
{0x2CBE,0x2CBE,8},
{0x2CBF,0x2CBF,7},
{0x2CC0,0x2CC0,8},
{0x2CC1,0x2CC1,7},
{0x2CC2,0x2CC2,8},
{0x2CC3,0x2CC3,7},
{0x2CC4,0x2CC4,8},
{0x2CC5,0x2CC5,7},
{0x2CC6,0x2CC6,8},
{0x2CC7,0x2CC7,7},
{0x2CC8,0x2CC8,8},
{0x2CC9,0x2CC9,7},
{0x2CCA,0x2CCA,8},
{0x2CCB,0x2CCB,7},
{0x2CCC,0x2CCC,8},
{0x2CCD,0x2CCD,7},
{0x2CCE,0x2CCE,8},
{0x2CCF,0x2CCF,7},
{0x2CD0,0x2CD0,8},
{0x2CD1,0x2CD1,7},
{0x2CD2,0x2CD2,8},
{0x2CD3,0x2CD3,7},
{0x2CD4,0x2CD4,8},
{0x2CD5,0x2CD5,7},
{0x2CD6,0x2CD6,8},
{0x2CD7,0x2CD7,7},
{0x2CD8,0x2CD8,8},
{0x2CD9,0x2CD9,7},
{0x2CDA,0x2CDA,8},
{0x2CDB,0x2CDB,7},
{0x2CDC,0x2CDC,8},
{0x2CDD,0x2CDD,7},
{0x2CDE,0x2CDE,8},
{0x2CDF,0x2CDF,7},
{0x2CE0,0x2CE0,8},
{0x2CE1,0x2CE1,7},
{0x2CE2,0x2CE2,8},
{0x2CE3,0x2CE4,7},
{0x2CEB,0x2CEB,8},
{0x2CEC,0x2CEC,7},
{0x2CED,0x2CED,8},
{0x2CEE,0x2CEE,7},
{0x2CEF,0x2CF1,3},
{0x2CF2,0x2CF2,8},
{0x2CF3,0x2CF3,7},
{0x2D00,0x2D25,7},
{0x2D27,0x2D27,7},
{0x2D2D,0x2D2D,7},
{0x2D30,0x2D67,9},
{0x2D6F,0x2D6F,9},
{0x2D7F,0x2D7F,3},
{0x2D80,0x2D96,9},
{0x2DA0,0x2DA6,9},
{0x2DA8,0x2DAE,9},
{0x2DB0,0x2DB6,9},
{0x2DB8,0x2DBE,9},
{0x2DC0,0x2DC6,9},
{0x2DC8,0x2DCE,9},
{0x2DD0,0x2DD6,9},
{0x2DD8,0x2DDE,9},
{0x2DE0,0x2DFF,3},
{0x2E00,0x2E0D,14},
{0x2E1C,0x2E1D,14},
{0x2E20,0x2E29,14},
{0x2E2E,0x2E2E,13},
{0x2E2F,0x2E2F,9},
{0x2E3C,0x2E3C,13},
{0x2E42,0x2E42,14},
{0x2E53,0x2E54,13},
{0x2E55,0x2E5C,14},
{0x3000,0x3000,6},
{0x3001,0x3001,12},
{0x3002,0x3002,13},
{0x3005,0x3007,9},
{0x3008,0x3011,14},
{0x3014,0x301B,14},
{0x301D,0x301F,14},
{0x3021,0x3029,9},
{0x302A,0x302F,3},
{0x3031,0x3035,9},
{0x3038,0x303C,9},
{0x3041,0x3096,9},
{0x3099,0x309A,3},
{0x309D,0x309F,9},
{0x30A1,0x30FA,9},
{0x30FC,0x30FF,9},
{0x3105,0x312F,9},
{0x3131,0x318E,9},
{0x31A0,0x31BF,9},
{0x31F0,0x31FF,9},
{0x3400,0x4DBF,9},
{0x4E00,0xA48C,9},
{0xA4D0,0xA4FD,9},
{0xA4FF,0xA4FF,13},
{0xA500,0xA60C,9},
{0xA60E,0xA60F,13},
{0xA610,0xA61F,9},
{0xA620,0xA629,10},
{0xA62A,0xA62B,9},
{0xA640,0xA640,8},
{0xA641,0xA641,7},
{0xA642,0xA642,8},
{0xA643,0xA643,7},
{0xA644,0xA644,8},
{0xA645,0xA645,7},
{0xA646,0xA646,8},
{0xA647,0xA647,7},
{0xA648,0xA648,8},
{0xA649,0xA649,7},
{0xA64A,0xA64A,8},
{0xA64B,0xA64B,7},
{0xA64C,0xA64C,8},
{0xA64D,0xA64D,7},
{0xA64E,0xA64E,8},
{0xA64F,0xA64F,7},
{0xA650,0xA650,8},
{0xA651,0xA651,7},
{0xA652,0xA652,8},
{0xA653,0xA653,7},
{0xA654,0xA654,8},
{0xA655,0xA655,7},
{0xA656,0xA656,8},
{0xA657,0xA657,7},
{0xA658,0xA658,8},
{0xA659,0xA659,7},
{0xA65A,0xA65A,8},
{0xA65B,0xA65B,7},
{0xA65C,0xA65C,8},
{0xA65D,0xA65D,7},
{0xA65E,0xA65E,8},
{0xA65F,0xA65F,7},
{0xA660,0xA660,8},
{0xA661,0xA661,7},
{0xA662,0xA662,8},
{0xA663,0xA663,7},
{0xA664,0xA664,8},
{0xA665,0xA665,7},
{0xA666,0xA666,8},
{0xA667,0xA667,7},
{0xA668,0xA668,8},
{0xA669,0xA669,7},
{0xA66A,0xA66A,8},
{0xA66B,0xA66B,7},
{0xA66C,0xA66C,8},
{0xA66D,0xA66D,7},
{0xA66E,0xA66E,9},
{0xA66F,0xA672,3},
{0xA674,0xA67D,3},
{0xA67F,0xA67F,9},
{0xA680,0xA680,8},
{0xA681,0xA681,7},
{0xA682,0xA682,8},
{0xA683,0xA683,7},
{0xA684,0xA684,8},
{0xA685,0xA685,7},
{0xA686,0xA686,8},
{0xA687,0xA687,7},
{0xA688,0xA688,8},
{0xA689,0xA689,7},
{0xA68A,0xA68A,8},
{0xA68B,0xA68B,7},
{0xA68C,0xA68C,8},
{0xA68D,0xA68D,7},
{0xA68E,0xA68E,8},
{0xA68F,0xA68F,7},
{0xA690,0xA690,8},
{0xA691,0xA691,7},
{0xA692,0xA692,8},
{0xA693,0xA693,7},
{0xA694,0xA694,8},
{0xA695,0xA695,7},
{0xA696,0xA696,8},
{0xA697,0xA697,7},
{0xA698,0xA698,8},
{0xA699,0xA699,7},
{0xA69A,0xA69A,8},
{0xA69B,0xA69D,7},
{0xA69E,0xA69F,3},
{0xA6A0,0xA6EF,9},
{0xA6F0,0xA6F1,3},
{0xA6F3,0xA6F3,13},
{0xA6F7,0xA6F7,13},
{0xA717,0xA71F,9},
{0xA722,0xA722,8},
{0xA723,0xA723,7},
{0xA724,0xA724,8},
{0xA725,0xA725,7},
{0xA726,0xA726,8},
{0xA727,0xA727,7},
{0xA728,0xA728,8},
{0xA729,0xA729,7},
{0xA72A,0xA72A,8},
{0xA72B,0xA72B,7},
{0xA72C,0xA72C,8},
{0xA72D,0xA72D,7},
{0xA72E,0xA72E,8},
{0xA72F,0xA731,7},
{0xA732,0xA732,8},
{0xA733,0xA733,7},
{0xA734,0xA734,8},
{0xA735,0xA735,7},
{0xA736,0xA736,8},
{0xA737,0xA737,7},
{0xA738,0xA738,8},
{0xA739,0xA739,7},
{0xA73A,0xA73A,8},
{0xA73B,0xA73B,7},
{0xA73C,0xA73C,8},
{0xA73D,0xA73D,7},
{0xA73E,0xA73E,8},
{0xA73F,0xA73F,7},
{0xA740,0xA740,8},
{0xA741,0xA741,7},
{0xA742,0xA742,8},
{0xA743,0xA743,7},
{0xA744,0xA744,8},
{0xA745,0xA745,7},
{0xA746,0xA746,8},
{0xA747,0xA747,7},
{0xA748,0xA748,8},
{0xA749,0xA749,7},
{0xA74A,0xA74A,8},
{0xA74B,0xA74B,7},
{0xA74C,0xA74C,8},
{0xA74D,0xA74D,7},
{0xA74E,0xA74E,8},
{0xA74F,0xA74F,7},
{0xA750,0xA750,8},
{0xA751,0xA751,7},
{0xA752,0xA752,8},
{0xA753,0xA753,7},
{0xA754,0xA754,8},
{0xA755,0xA755,7},
{0xA756,0xA756,8},
{0xA757,0xA757,7},
{0xA758,0xA758,8},
{0xA759,0xA759,7},
{0xA75A,0xA75A,8},
{0xA75B,0xA75B,7},
{0xA75C,0xA75C,8},
{0xA75D,0xA75D,7},
{0xA75E,0xA75E,8},
{0xA75F,0xA75F,7},
{0xA760,0xA760,8},
{0xA761,0xA761,7},
{0xA762,0xA762,8},
{0xA763,0xA763,7},
{0xA764,0xA764,8},
{0xA765,0xA765,7},
{0xA766,0xA766,8},
{0xA767,0xA767,7},
{0xA768,0xA768,8},
{0xA769,0xA769,7},
{0xA76A,0xA76A,8},
{0xA76B,0xA76B,7},
{0xA76C,0xA76C,8},
{0xA76D,0xA76D,7},
{0xA76E,0xA76E,8},
{0xA76F,0xA778,7},
{0xA779,0xA779,8},
{0xA77A,0xA77A,7},
{0xA77B,0xA77B,8},
{0xA77C,0xA77C,7},
{0xA77D,0xA77E,8},
{0xA77F,0xA77F,7},
{0xA780,0xA780,8},
{0xA781,0xA781,7},
{0xA782,0xA782,8},
{0xA783,0xA783,7},
{0xA784,0xA784,8},
{0xA785,0xA785,7},
{0xA786,0xA786,8},
{0xA787,0xA787,7},
{0xA788,0xA788,9},
{0xA78B,0xA78B,8},
{0xA78C,0xA78C,7},
{0xA78D,0xA78D,8},
{0xA78E,0xA78E,7},
{0xA78F,0xA78F,9},
{0xA790,0xA790,8},
{0xA791,0xA791,7},
{0xA792,0xA792,8},
{0xA793,0xA795,7},
{0xA796,0xA796,8},
{0xA797,0xA797,7},
{0xA798,0xA798,8},
{0xA799,0xA799,7},
{0xA79A,0xA79A,8},
{0xA79B,0xA79B,7},
{0xA79C,0xA79C,8},
{0xA79D,0xA79D,7},
{0xA79E,0xA79E,8},
{0xA79F,0xA79F,7},
{0xA7A0,0xA7A0,8},
{0xA7A1,0xA7A1,7},
{0xA7A2,0xA7A2,8},
{0xA7A3,0xA7A3,7},
{0xA7A4,0xA7A4,8},
{0xA7A5,0xA7A5,7},
{0xA7A6,0xA7A6,8},
{0xA7A7,0xA7A7,7},
{0xA7A8,0xA7A8,8},
{0xA7A9,0xA7A9,7},
{0xA7AA,0xA7AE,8},
{0xA7AF,0xA7AF,7},
{0xA7B0,0xA7B4,8},
{0xA7B5,0xA7B5,7},
{0xA7B6,0xA7B6,8},
{0xA7B7,0xA7B7,7},
{0xA7B8,0xA7B8,8},
{0xA7B9,0xA7B9,7},
{0xA7BA,0xA7BA,8},
{0xA7BB,0xA7BB,7},
{0xA7BC,0xA7BC,8},
{0xA7BD,0xA7BD,7},
{0xA7BE,0xA7BE,8},
{0xA7BF,0xA7BF,7},
{0xA7C0,0xA7C0,8},
{0xA7C1,0xA7C1,7},
{0xA7C2,0xA7C2,8},
{0xA7C3,0xA7C3,7},
{0xA7C4,0xA7C7,8},
{0xA7C8,0xA7C8,7},
{0xA7C9,0xA7C9,8},
{0xA7CA,0xA7CA,7},
{0xA7D0,0xA7D0,8},
{0xA7D1,0xA7D1,7},
{0xA7D3,0xA7D3,7},
{0xA7D5,0xA7D5,7},
{0xA7D6,0xA7D6,8},
{0xA7D7,0xA7D7,7},
{0xA7D8,0xA7D8,8},
{0xA7D9,0xA7D9,7},
{0xA7F2,0xA7F4,7},
{0xA7F5,0xA7F5,8},
{0xA7F6,0xA7F6,7},
{0xA7F7,0xA7F7,9},
{0xA7F8,0xA7FA,7},
{0xA7FB,0xA801,9},
{0xA802,0xA802,3},
{0xA803,0xA805,9},
{0xA806,0xA806,3},
{0xA807,0xA80A,9},
{0xA80B,0xA80B,3},
{0xA80C,0xA822,9},
{0xA823,0xA827,3},
{0xA82C,0xA82C,3},
{0xA840,0xA873,9},
{0xA876,0xA877,13},
{0xA880,0xA881,3},
{0xA882,0xA8B3,9},
{0xA8B4,0xA8C5,3},
{0xA8CE,0xA8CF,13},
{0xA8D0,0xA8D9,10},
{0xA8E0,0xA8F1,3},
{0xA8F2,0xA8F7,9},
{0xA8FB,0xA8FB,9},
{0xA8FD,0xA8FE,9},
{0xA8FF,0xA8FF,3},
{0xA900,0xA909,10},
{0xA90A,0xA925,9},
{0xA926,0xA92D,3},
{0xA92F,0xA92F,13},
{0xA930,0xA946,9},
{0xA947,0xA953,3},
{0xA960,0xA97C,9},
{0xA980,0xA983,3},
{0xA984,0xA9B2,9},
{0xA9B3,0xA9C0,3},
{0xA9C8,0xA9C9,13},
{0xA9CF,0xA9CF,9},
{0xA9D0,0xA9D9,10},
{0xA9E0,0xA9E4,9},
{0xA9E5,0xA9E5,3},
{0xA9E6,0xA9EF,9},
{0xA9F0,0xA9F9,10},
{0xA9FA,0xA9FE,9},
{0xAA00,0xAA28,9},
{0xAA29,0xAA36,3},
{0xAA40,0xAA42,9},
{0xAA43,0xAA43,3},
{0xAA44,0xAA4B,9},
{0xAA4C,0xAA4D,3},
{0xAA50,0xAA59,10},
{0xAA5D,0xAA5F,13},
{0xAA60,0xAA76,9},
{0xAA7A,0xAA7A,9},
{0xAA7B,0xAA7D,3},
{0xAA7E,0xAAAF,9},
{0xAAB0,0xAAB0,3},
{0xAAB1,0xAAB1,9},
{0xAAB2,0xAAB4,3},
{0xAAB5,0xAAB6,9},
{0xAAB7,0xAAB8,3},
{0xAAB9,0xAABD,9},
{0xAABE,0xAABF,3},
{0xAAC0,0xAAC0,9},
{0xAAC1,0xAAC1,3},
{0xAAC2,0xAAC2,9},
{0xAADB,0xAADD,9},
{0xAAE0,0xAAEA,9},
{0xAAEB,0xAAEF,3},
{0xAAF0,0xAAF1,13},
{0xAAF2,0xAAF4,9},
{0xAAF5,0xAAF6,3},
{0xAB01,0xAB06,9},
{0xAB09,0xAB0E,9},
{0xAB11,0xAB16,9},
{0xAB20,0xAB26,9},
{0xAB28,0xAB2E,9},
{0xAB30,0xAB5A,7},
{0xAB5C,0xAB69,7},
{0xAB70,0xABBF,7},
{0xABC0,0xABE2,9},
{0xABE3,0xABEA,3},
{0xABEB,0xABEB,13},
{0xABEC,0xABED,3},
{0xABF0,0xABF9,10},
{0xAC00,0xD7A3,9},
{0xD7B0,0xD7C6,9},
{0xD7CB,0xD7FB,9},
{0xF900,0xFA6D,9},
{0xFA70,0xFAD9,9},
{0xFB00,0xFB06,7},
{0xFB13,0xFB17,7},
{0xFB1D,0xFB1D,9},
{0xFB1E,0xFB1E,3},
{0xFB1F,0xFB28,9},
{0xFB2A,0xFB36,9},
{0xFB38,0xFB3C,9},
{0xFB3E,0xFB3E,9},
{0xFB40,0xFB41,9},
{0xFB43,0xFB44,9},
{0xFB46,0xFBB1,9},
{0xFBD3,0xFD3D,9},
{0xFD3E,0xFD3F,14},
{0xFD50,0xFD8F,9},
{0xFD92,0xFDC7,9},
{0xFDF0,0xFDFB,9},
{0xFE00,0xFE0F,3},
{0xFE10,0xFE11,12},
{0xFE13,0xFE13,12},
{0xFE17,0xFE18,14},
{0xFE20,0xFE2F,3},
{0xFE31,0xFE32,12},
{0xFE35,0xFE44,14},
{0xFE47,0xFE48,14},
{0xFE50,0xFE51,12},
{0xFE52,0xFE52,11},
{0xFE55,0xFE55,12},
{0xFE56,0xFE57,13},
{0xFE58,0xFE58,12},
{0xFE59,0xFE5E,14},
{0xFE63,0xFE63,12},
{0xFE70,0xFE74,9},
{0xFE76,0xFEFC,9},
{0xFEFF,0xFEFF,5},
{0xFF01,0xFF01,13},
{0xFF08,0xFF09,14},
{0xFF0C,0xFF0D,12},
{0xFF0E,0xFF0E,11},
{0xFF10,0xFF19,10},
{0xFF1A,0xFF1A,12},
{0xFF1F,0xFF1F,13},
{0xFF21,0xFF3A,8},
{0xFF3B,0xFF3B,14},
{0xFF3D,0xFF3D,14},
{0xFF41,0xFF5A,7},
{0xFF5B,0xFF5B,14},
{0xFF5D,0xFF5D,14},
{0xFF5F,0xFF60,14},
{0xFF61,0xFF61,13},
{0xFF62,0xFF63,14},
{0xFF64,0xFF64,12},
{0xFF66,0xFF9D,9},
{0xFF9E,0xFF9F,3},
{0xFFA0,0xFFBE,9},
{0xFFC2,0xFFC7,9},
{0xFFCA,0xFFCF,9},
{0xFFD2,0xFFD7,9},
{0xFFDA,0xFFDC,9},
{0xFFF9,0xFFFB,5},
{0x10000,0x1000B,9},
{0x1000D,0x10026,9},
{0x10028,0x1003A,9},
{0x1003C,0x1003D,9},
{0x1003F,0x1004D,9},
{0x10050,0x1005D,9},
{0x10080,0x100FA,9},
{0x10140,0x10174,9},
{0x101FD,0x101FD,3},
{0x10280,0x1029C,9},
{0x102A0,0x102D0,9},
{0x102E0,0x102E0,3},
{0x10300,0x1031F,9},
{0x1032D,0x1034A,9},
{0x10350,0x10375,9},
{0x10376,0x1037A,3},
{0x10380,0x1039D,9},
{0x103A0,0x103C3,9},
{0x103C8,0x103CF,9},
{0x103D1,0x103D5,9},
{0x10400,0x10427,8},
{0x10428,0x1044F,7},
{0x10450,0x1049D,9},
{0x104A0,0x104A9,10},
{0x104B0,0x104D3,8},
{0x104D8,0x104FB,7},
{0x10500,0x10527,9},
{0x10530,0x10563,9},
{0x10570,0x1057A,8},
{0x1057C,0x1058A,8},
{0x1058C,0x10592,8},
{0x10594,0x10595,8},
{0x10597,0x105A1,7},
{0x105A3,0x105B1,7},
{0x105B3,0x105B9,7},
{0x105BB,0x105BC,7},
{0x10600,0x10736,9},
{0x10740,0x10755,9},
{0x10760,0x10767,9},
{0x10780,0x10780,7},
{0x10781,0x10782,9},
{0x10783,0x10785,7},
{0x10787,0x107B0,7},
{0x107B2,0x107BA,7},
{0x10800,0x10805,9},
{0x10808,0x10808,9},
{0x1080A,0x10835,9},
{0x10837,0x10838,9},
{0x1083C,0x1083C,9},
{0x1083F,0x10855,9},
{0x10860,0x10876,9},
{0x10880,0x1089E,9},
{0x108E0,0x108F2,9},
{0x108F4,0x108F5,9},
{0x10900,0x10915,9},
{0x10920,0x10939,9},
{0x10980,0x109B7,9},
{0x109BE,0x109BF,9},
{0x10A00,0x10A00,9},
{0x10A01,0x10A03,3},
{0x10A05,0x10A06,3},
{0x10A0C,0x10A0F,3},
{0x10A10,0x10A13,9},
{0x10A15,0x10A17,9},
{0x10A19,0x10A35,9},
{0x10A38,0x10A3A,3},
{0x10A3F,0x10A3F,3},
{0x10A56,0x10A57,13},
{0x10A60,0x10A7C,9},
{0x10A80,0x10A9C,9},
{0x10AC0,0x10AC7,9},
{0x10AC9,0x10AE4,9},
{0x10AE5,0x10AE6,3},
{0x10B00,0x10B35,9},
{0x10B40,0x10B55,9},
{0x10B60,0x10B72,9},
{0x10B80,0x10B91,9},
{0x10C00,0x10C48,9},
{0x10C80,0x10CB2,8},
{0x10CC0,0x10CF2,7},
{0x10D00,0x10D23,9},
{0x10D24,0x10D27,3},
{0x10D30,0x10D39,10},
{0x10E80,0x10EA9,9},
{0x10EAB,0x10EAC,3},
{0x10EB0,0x10EB1,9},
{0x10EFD,0x10EFF,3},
{0x10F00,0x10F1C,9},
{0x10F27,0x10F27,9},
{0x10F30,0x10F45,9},
{0x10F46,0x10F50,3},
{0x10F55,0x10F59,13},
{0x10F70,0x10F81,9},
{0x10F82,0x10F85,3},
{0x10F86,0x10F89,13},
{0x10FB0,0x10FC4,9},
{0x10FE0,0x10FF6,9},
{0x11000,0x11002,3},
{0x11003,0x11037,9},
{0x11038,0x11046,3},
{0x11047,0x11048,13},
{0x11066,0x1106F,10},
{0x11070,0x11070,3},
{0x11071,0x11072,9},
{0x11073,0x11074,3},
{0x11075,0x11075,9},
{0x1107F,0x11082,3},
{0x11083,0x110AF,9},
{0x110B0,0x110BA,3},
{0x110BD,0x110BD,5},
{0x110BE,0x110C1,13},
{0x110C2,0x110C2,3},
{0x110CD,0x110CD,5},
{0x110D0,0x110E8,9},
{0x110F0,0x110F9,10},
{0x11100,0x11102,3},
{0x11103,0x11126,9},
{0x11127,0x11134,3},
{0x11136,0x1113F,10},
{0x11141,0x11143,13},
{0x11144,0x11144,9},
{0x11145,0x11146,3},
{0x11147,0x11147,9},
{0x11150,0x11172,9},
{0x11173,0x11173,3},
{0x11176,0x11176,9},
{0x11180,0x11182,3},
{0x11183,0x111B2,9},
{0x111B3,0x111C0,3},
{0x111C1,0x111C4,9},
{0x111C5,0x111C6,13},
{0x111C9,0x111CC,3},
{0x111CD,0x111CD,13},
{0x111CE,0x111CF,3},
{0x111D0,0x111D9,10},
{0x111DA,0x111DA,9},
{0x111DC,0x111DC,9},
{0x111DE,0x111DF,13},
{0x11200,0x11211,9},
{0x11213,0x1122B,9},
{0x1122C,0x11237,3},
{0x11238,0x11239,13},
{0x1123B,0x1123C,13},
{0x1123E,0x1123E,3},
{0x1123F,0x11240,9},
{0x11241,0x11241,3},
{0x11280,0x11286,9},
{0x11288,0x11288,9},
{0x1128A,0x1128D,9},
{0x1128F,0x1129D,9},
{0x1129F,0x112A8,9},
{0x112A9,0x112A9,13},
{0x112B0,0x112DE,9},
{0x112DF,0x112EA,3},
{0x112F0,0x112F9,10},
{0x11300,0x11303,3},
{0x11305,0x1130C,9},
{0x1130F,0x11310,9},
{0x11313,0x11328,9},
{0x1132A,0x11330,9},
{0x11332,0x11333,9},
{0x11335,0x11339,9},
{0x1133B,0x1133C,3},
{0x1133D,0x1133D,9},
{0x1133E,0x11344,3},
{0x11347,0x11348,3},
{0x1134B,0x1134D,3},
{0x11350,0x11350,9},
{0x11357,0x11357,3},
{0x1135D,0x11361,9},
{0x11362,0x11363,3},
{0x11366,0x1136C,3},
{0x11370,0x11374,3},
{0x11400,0x11434,9},
{0x11435,0x11446,3},
{0x11447,0x1144A,9},
{0x1144B,0x1144C,13},
{0x11450,0x11459,10},
{0x1145E,0x1145E,3},
{0x1145F,0x11461,9},
{0x11480,0x114AF,9},
{0x114B0,0x114C3,3},
{0x114C4,0x114C5,9},
{0x114C7,0x114C7,9},
{0x114D0,0x114D9,10},
{0x11580,0x115AE,9},
{0x115AF,0x115B5,3},
{0x115B8,0x115C0,3},
{0x115C2,0x115C3,13},
{0x115C9,0x115D7,13},
{0x115D8,0x115DB,9},
{0x115DC,0x115DD,3},
{0x11600,0x1162F,9},
{0x11630,0x11640,3},
{0x11641,0x11642,13},
{0x11644,0x11644,9},
{0x11650,0x11659,10},
{0x11680,0x116AA,9},
{0x116AB,0x116B7,3},
{0x116B8,0x116B8,9},
{0x116C0,0x116C9,10},
{0x11700,0x1171A,9},
{0x1171D,0x1172B,3},
{0x11730,0x11739,10},
{0x1173C,0x1173E,13},
{0x11740,0x11746,9},
{0x11800,0x1182B,9},
{0x1182C,0x1183A,3},
{0x118A0,0x118BF,8},
{0x118C0,0x118DF,7},
{0x118E0,0x118E9,10},
{0x118FF,0x11906,9},
{0x11909,0x11909,9},
{0x1190C,0x11913,9},
{0x11915,0x11916,9},
{0x11918,0x1192F,9},
{0x11930,0x11935,3},
{0x11937,0x11938,3},
{0x1193B,0x1193E,3},
{0x1193F,0x1193F,9},
{0x11940,0x11940,3},
{0x11941,0x11941,9},
{0x11942,0x11943,3},
{0x11944,0x11944,13},
{0x11946,0x11946,13},
{0x11950,0x11959,10},
{0x119A0,0x119A7,9},
{0x119AA,0x119D0,9},
{0x119D1,0x119D7,3},
{0x119DA,0x119E0,3},
{0x119E1,0x119E1,9},
{0x119E3,0x119E3,9},
{0x119E4,0x119E4,3},
{0x11A00,0x11A00,9},
{0x11A01,0x11A0A,3},
{0x11A0B,0x11A32,9},
{0x11A33,0x11A39,3},
{0x11A3A,0x11A3A,9},
{0x11A3B,0x11A3E,3},
{0x11A42,0x11A43,13},
{0x11A47,0x11A47,3},
{0x11A50,0x11A50,9},
{0x11A51,0x11A5B,3},
{0x11A5C,0x11A89,9},
{0x11A8A,0x11A99,3},
{0x11A9B,0x11A9C,13},
{0x11A9D,0x11A9D,9},
{0x11AB0,0x11AF8,9},
{0x11C00,0x11C08,9},
{0x11C0A,0x11C2E,9},
{0x11C2F,0x11C36,3},
{0x11C38,0x11C3F,3},
{0x11C40,0x11C40,9},
{0x11C41,0x11C42,13},
{0x11C50,0x11C59,10},
{0x11C72,0x11C8F,9},
{0x11C92,0x11CA7,3},
{0x11CA9,0x11CB6,3},
{0x11D00,0x11D06,9},
{0x11D08,0x11D09,9},
{0x11D0B,0x11D30,9},
{0x11D31,0x11D36,3},
{0x11D3A,0x11D3A,3},
{0x11D3C,0x11D3D,3},
{0x11D3F,0x11D45,3},
{0x11D46,0x11D46,9},
{0x11D47,0x11D47,3},
{0x11D50,0x11D59,10},
{0x11D60,0x11D65,9},
{0x11D67,0x11D68,9},
{0x11D6A,0x11D89,9},
{0x11D8A,0x11D8E,3},
{0x11D90,0x11D91,3},
{0x11D93,0x11D97,3},
{0x11D98,0x11D98,9},
{0x11DA0,0x11DA9,10},
{0x11EE0,0x11EF2,9},
{0x11EF3,0x11EF6,3},
{0x11EF7,0x11EF8,13},
{0x11F00,0x11F01,3},
{0x11F02,0x11F02,9},
{0x11F03,0x11F03,3},
{0x11F04,0x11F10,9},
{0x11F12,0x11F33,9},
{0x11F34,0x11F3A,3},
{0x11F3E,0x11F42,3},
{0x11F43,0x11F44,13},
{0x11F50,0x11F59,10},
{0x11FB0,0x11FB0,9},
{0x12000,0x12399,9},
{0x12400,0x1246E,9},
{0x12480,0x12543,9},
{0x12F90,0x12FF0,9},
{0x13000,0x1342F,9},
{0x13430,0x1343F,5},
{0x13440,0x13440,3},
{0x13441,0x13446,9},
{0x13447,0x13455,3},
{0x14400,0x14646,9},
{0x16800,0x16A38,9},
{0x16A40,0x16A5E,9},
{0x16A60,0x16A69,10},
{0x16A6E,0x16A6F,13},
{0x16A70,0x16ABE,9},
{0x16AC0,0x16AC9,10},
{0x16AD0,0x16AED,9},
{0x16AF0,0x16AF4,3},
{0x16AF5,0x16AF5,13},
{0x16B00,0x16B2F,9},
{0x16B30,0x16B36,3},
{0x16B37,0x16B38,13},
{0x16B40,0x16B43,9},
{0x16B44,0x16B44,13},
{0x16B50,0x16B59,10},
{0x16B63,0x16B77,9},
{0x16B7D,0x16B8F,9},
{0x16E40,0x16E5F,8},
{0x16E60,0x16E7F,7},
{0x16E98,0x16E98,13},
{0x16F00,0x16F4A,9},
{0x16F4F,0x16F4F,3},
{0x16F50,0x16F50,9},
{0x16F51,0x16F87,3},
{0x16F8F,0x16F92,3},
{0x16F93,0x16F9F,9},
{0x16FE0,0x16FE1,9},
{0x16FE3,0x16FE3,9},
{0x16FE4,0x16FE4,3},
{0x16FF0,0x16FF1,3},
{0x17000,0x187F7,9},
{0x18800,0x18CD5,9},
{0x18D00,0x18D08,9},
{0x1AFF0,0x1AFF3,9},
{0x1AFF5,0x1AFFB,9},
{0x1AFFD,0x1AFFE,9},
{0x1B000,0x1B122,9},
{0x1B132,0x1B132,9},
{0x1B150,0x1B152,9},
{0x1B155,0x1B155,9},
{0x1B164,0x1B167,9},
{0x1B170,0x1B2FB,9},
{0x1BC00,0x1BC6A,9},
{0x1BC70,0x1BC7C,9},
{0x1BC80,0x1BC88,9},
{0x1BC90,0x1BC99,9},
{0x1BC9D,0x1BC9E,3},
{0x1BC9F,0x1BC9F,13},
{0x1BCA0,0x1BCA3,5},
{0x1CF00,0x1CF2D,3},
{0x1CF30,0x1CF46,3},
{0x1D165,0x1D169,3},
{0x1D16D,0x1D172,3},
{0x1D173,0x1D17A,5},
{0x1D17B,0x1D182,3},
{0x1D185,0x1D18B,3},
{0x1D1AA,0x1D1AD,3},
{0x1D242,0x1D244,3},
{0x1D400,0x1D419,8},
{0x1D41A,0x1D433,7},
{0x1D434,0x1D44D,8},
{0x1D44E,0x1D454,7},
{0x1D456,0x1D467,7},
{0x1D468,0x1D481,8},
{0x1D482,0x1D49B,7},
{0x1D49C,0x1D49C,8},
{0x1D49E,0x1D49F,8},
{0x1D4A2,0x1D4A2,8},
{0x1D4A5,0x1D4A6,8},
{0x1D4A9,0x1D4AC,8},
{0x1D4AE,0x1D4B5,8},
{0x1D4B6,0x1D4B9,7},
{0x1D4BB,0x1D4BB,7},
{0x1D4BD,0x1D4C3,7},
{0x1D4C5,0x1D4CF,7},
{0x1D4D0,0x1D4E9,8},
{0x1D4EA,0x1D503,7},
{0x1D504,0x1D505,8},
{0x1D507,0x1D50A,8},
{0x1D50D,0x1D514,8},
{0x1D516,0x1D51C,8},
{0x1D51E,0x1D537,7},
{0x1D538,0x1D539,8},
{0x1D53B,0x1D53E,8},
{0x1D540,0x1D544,8},
{0x1D546,0x1D546,8},
{0x1D54A,0x1D550,8},
{0x1D552,0x1D56B,7},
{0x1D56C,0x1D585,8},
{0x1D586,0x1D59F,7},
{0x1D5A0,0x1D5B9,8},
{0x1D5BA,0x1D5D3,7},
{0x1D5D4,0x1D5ED,8},
{0x1D5EE,0x1D607,7},
{0x1D608,0x1D621,8},
{0x1D622,0x1D63B,7},
{0x1D63C,0x1D655,8},
{0x1D656,0x1D66F,7},
{0x1D670,0x1D689,8},
{0x1D68A,0x1D6A5,7},
{0x1D6A8,0x1D6C0,8},
{0x1D6C2,0x1D6DA,7},
{0x1D6DC,0x1D6E1,7},
{0x1D6E2,0x1D6FA,8},
{0x1D6FC,0x1D714,7},
{0x1D716,0x1D71B,7},
{0x1D71C,0x1D734,8},
{0x1D736,0x1D74E,7},
{0x1D750,0x1D755,7},
{0x1D756,0x1D76E,8},
{0x1D770,0x1D788,7},
{0x1D78A,0x1D78F,7},
{0x1D790,0x1D7A8,8},
{0x1D7AA,0x1D7C2,7},
{0x1D7C4,0x1D7C9,7},
{0x1D7CA,0x1D7CA,8},
{0x1D7CB,0x1D7CB,7},
{0x1D7CE,0x1D7FF,10},
{0x1DA00,0x1DA36,3},
{0x1DA3B,0x1DA6C,3},
{0x1DA75,0x1DA75,3},
{0x1DA84,0x1DA84,3},
{0x1DA88,0x1DA88,13},
{0x1DA9B,0x1DA9F,3},
{0x1DAA1,0x1DAAF,3},
{0x1DF00,0x1DF09,7},
{0x1DF0A,0x1DF0A,9},
{0x1DF0B,0x1DF1E,7},
{0x1DF25,0x1DF2A,7},
{0x1E000,0x1E006,3},
{0x1E008,0x1E018,3},
{0x1E01B,0x1E021,3},
{0x1E023,0x1E024,3},
{0x1E026,0x1E02A,3},
{0x1E030,0x1E06D,7},
{0x1E08F,0x1E08F,3},
{0x1E100,0x1E12C,9},
{0x1E130,0x1E136,3},
{0x1E137,0x1E13D,9},
{0x1E140,0x1E149,10},
{0x1E14E,0x1E14E,9},
{0x1E290,0x1E2AD,9},
{0x1E2AE,0x1E2AE,3},
{0x1E2C0,0x1E2EB,9},
{0x1E2EC,0x1E2EF,3},
{0x1E2F0,0x1E2F9,10},
{0x1E4D0,0x1E4EB,9},
{0x1E4EC,0x1E4EF,3},
{0x1E4F0,0x1E4F9,10},
{0x1E7E0,0x1E7E6,9},
{0x1E7E8,0x1E7EB,9},
{0x1E7ED,0x1E7EE,9},
{0x1E7F0,0x1E7FE,9},
{0x1E800,0x1E8C4,9},
{0x1E8D0,0x1E8D6,3},
{0x1E900,0x1E921,8},
{0x1E922,0x1E943,7},
{0x1E944,0x1E94A,3},
{0x1E94B,0x1E94B,9},
{0x1E950,0x1E959,10},
{0x1EE00,0x1EE03,9},
{0x1EE05,0x1EE1F,9},
{0x1EE21,0x1EE22,9},
{0x1EE24,0x1EE24,9},
{0x1EE27,0x1EE27,9},
{0x1EE29,0x1EE32,9},
{0x1EE34,0x1EE37,9},
{0x1EE39,0x1EE39,9},
{0x1EE3B,0x1EE3B,9},
{0x1EE42,0x1EE42,9},
{0x1EE47,0x1EE47,9},
{0x1EE49,0x1EE49,9},
{0x1EE4B,0x1EE4B,9},
{0x1EE4D,0x1EE4F,9},
{0x1EE51,0x1EE52,9},
{0x1EE54,0x1EE54,9},
{0x1EE57,0x1EE57,9},
{0x1EE59,0x1EE59,9},
{0x1EE5B,0x1EE5B,9},
{0x1EE5D,0x1EE5D,9},
{0x1EE5F,0x1EE5F,9},
{0x1EE61,0x1EE62,9},
{0x1EE64,0x1EE64,9},
{0x1EE67,0x1EE6A,9},
{0x1EE6C,0x1EE72,9},
{0x1EE74,0x1EE77,9},
{0x1EE79,0x1EE7C,9},
{0x1EE7E,0x1EE7E,9},
{0x1EE80,0x1EE89,9},
{0x1EE8B,0x1EE9B,9},
{0x1EEA1,0x1EEA3,9},
{0x1EEA5,0x1EEA9,9},
{0x1EEAB,0x1EEBB,9},
{0x1F130,0x1F149,8},
{0x1F150,0x1F169,8},
{0x1F170,0x1F189,8},
{0x1F676,0x1F678,14},
{0x1FBF0,0x1FBF9,10},
{0x20000,0x2A6DF,9},
{0x2A700,0x2B739,9},
{0x2B740,0x2B81D,9},
{0x2B820,0x2CEA1,9},
{0x2CEB0,0x2EBE0,9},
{0x2F800,0x2FA1D,9},
{0x30000,0x3134A,9},
{0x31350,0x323AF,9},
{0xE0001,0xE0001,5},
{0xE0020,0xE007F,3},
{0xE0100,0xE01EF,3},
};
static const ur T_lb[] = {
{0x0,0x8,8},
{0x9,0x9,11},
{0xA,0xA,3},
{0xB,0xC,1},
{0xD,0xD,2},
{0xE,0x1F,8},
{0x20,0x20,5},
{0x21,0x21,14},
{0x22,0x22,20},
{0x24,0x24,27},
{0x25,0x25,28},
{0x27,0x27,20},
{0x28,0x28,19},
{0x29,0x29,16},
{0x2B,0x2B,27},
{0x2C,0x2C,17},
{0x2D,0x2D,12},
{0x2E,0x2E,17},
{0x2F,0x2F,18},
{0x30,0x39,26},
{0x3A,0x3B,17},
{0x3F,0x3F,14},
{0x5B,0x5B,19},
{0x5C,0x5C,27},
{0x5D,0x5D,16},
{0x7B,0x7B,19},
{0x7C,0x7C,11},
{0x7D,0x7D,15},
{0x7F,0x84,8},
{0x85,0x85,4},
{0x86,0x9F,8},
{0xA0,0xA0,10},
{0xA1,0xA1,19},
{0xA2,0xA2,28},
{0xA3,0xA5,27},
{0xAB,0xAB,20},
{0xAD,0xAD,11},
{0xB0,0xB0,28},
{0xB1,0xB1,27},
{0xB4,0xB4,13},
{0xBB,0xBB,20},
{0xBF,0xBF,19},
{0x2C8,0x2C8,13},
{0x2CC,0x2CC,13},
{0x2DF,0x2DF,13},
{0x300,0x34E,8},
{0x34F,0x34F,10},
{0x350,0x35B,8},
{0x35C,0x362,10},
{0x363,0x36F,8},
{0x37E,0x37E,17},
{0x483,0x489,8},
{0x589,0x589,17},
{0x58A,0x58A,11},
{0x58F,0x58F,27},
{0x591,0x5BD,8},
{0x5BE,0x5BE,11},
{0x5BF,0x5BF,8},
{0x5C1,0x5C2,8},
{0x5C4,0x5C5,8},
{0x5C6,0x5C6,14},
{0x5C7,0x5C7,8},
{0x5D0,0x5EA,25},
{0x5EF,0x5F2,25},
{0x609,0x60B,28},
{0x60C,0x60D,17},
{0x610,0x61A,8},
{0x61B,0x61B,14},
{0x61C,0x61C,8},
{0x61D,0x61F,14},
{0x64B,0x65F,8},
{0x660,0x669,26},
{0x66A,0x66A,28},
{0x66B,0x66C,26},
{0x670,0x670,8},
{0x6D4,0x6D4,14},
{0x6D6,0x6DC,8},
{0x6DF,0x6E4,8},
{0x6E7,0x6E8,8},
{0x6EA,0x6ED,8},
{0x6F0,0x6F9,26},
{0x711,0x711,8},
{0x730,0x74A,8},
{0x7A6,0x7B0,8},
{0x7C0,0x7C9,26},
{0x7EB,0x7F3,8},
{0x7F8,0x7F8,17},
{0x7F9,0x7F9,14},
{0x7FD,0x7FD,8},
{0x7FE,0x7FF,27},
{0x816,0x819,8},
{0x81B,0x823,8},
{0x825,0x827,8},
{0x829,0x82D,8},
{0x859,0x85B,8},
{0x898,0x89F,8},
{0x8CA,0x8E1,8},
{0x8E3,0x903,8},
{0x93A,0x93C,8},
{0x93E,0x94F,8},
{0x951,0x957,8},
{0x962,0x963,8},
{0x964,0x965,11},
{0x966,0x96F,26},
{0x981,0x983,8},
{0x9BC,0x9BC,8},
{0x9BE,0x9C4,8},
{0x9C7,0x9C8,8},
{0x9CB,0x9CD,8},
{0x9D7,0x9D7,8},
{0x9E2,0x9E3,8},
{0x9E6,0x9EF,26},
{0x9F2,0x9F3,28},
{0x9F9,0x9F9,28},
{0x9FB,0x9FB,27},
{0x9FE,0x9FE,8},
{0xA01,0xA03,8},
{0xA3C,0xA3C,8},
{0xA3E,0xA42,8},
{0xA47,0xA48,8},
{0xA4B,0xA4D,8},
{0xA51,0xA51,8},
{0xA66,0xA6F,26},
{0xA70,0xA71,8},
{0xA75,0xA75,8},
{0xA81,0xA83,8},
{0xABC,0xABC,8},
{0xABE,0xAC5,8},
{0xAC7,0xAC9,8},
{0xACB,0xACD,8},
{0xAE2,0xAE3,8},
{0xAE6,0xAEF,26},
{0xAF1,0xAF1,27},
{0xAFA,0xAFF,8},
{0xB01,0xB03,8},
{0xB3C,0xB3C,8},
{0xB3E,0xB44,8},
{0xB47,0xB48,8},
{0xB4B,0xB4D,8},
{0xB55,0xB57,8},
{0xB62,0xB63,8},
{0xB66,0xB6F,26},
{0xB82,0xB82,8},
{0xBBE,0xBC2,8},
{0xBC6,0xBC8,8},
{0xBCA,0xBCD,8},
{0xBD7,0xBD7,8},
{0xBE6,0xBEF,26},
{0xBF9,0xBF9,27},
{0xC00,0xC04,8},
{0xC3C,0xC3C,8},
{0xC3E,0xC44,8},
{0xC46,0xC48,8},
{0xC4A,0xC4D,8},
{0xC55,0xC56,8},
{0xC62,0xC63,8},
{0xC66,0xC6F,26},
{0xC77,0xC77,13},
{0xC81,0xC83,8},
{0xC84,0xC84,13},
{0xCBC,0xCBC,8},
{0xCBE,0xCC4,8},
{0xCC6,0xCC8,8},
{0xCCA,0xCCD,8},
{0xCD5,0xCD6,8},
{0xCE2,0xCE3,8},
{0xCE6,0xCEF,26},
{0xCF3,0xCF3,8},
{0xD00,0xD03,8},
{0xD3B,0xD3C,8},
{0xD3E,0xD44,8},
{0xD46,0xD48,8},
{0xD4A,0xD4D,8},
{0xD57,0xD57,8},
{0xD62,0xD63,8},
{0xD66,0xD6F,26},
{0xD79,0xD79,28},
{0xD81,0xD83,8},
{0xDCA,0xDCA,8},
{0xDCF,0xDD4,8},
{0xDD6,0xDD6,8},
{0xDD8,0xDDF,8},
{0xDE6,0xDEF,26},
{0xDF2,0xDF3,8},
{0xE31,0xE31,8},
{0xE34,0xE3A,8},
{0xE3F,0xE3F,27},
{0xE47,0xE4E,8},
{0xE50,0xE59,26},
{0xE5A,0xE5B,11},
{0xEB1,0xEB1,8},
{0xEB4,0xEBC,8},
{0xEC8,0xECE,8},
{0xED0,0xED9,26},
{0xF01,0xF04,13},
{0xF06,0xF07,13},
{0xF08,0xF08,10},
{0xF09,0xF0A,13},
{0xF0B,0xF0B,11},
{0xF0C,0xF0C,10},
{0xF0D,0xF11,14},
{0xF12,0xF12,10},
{0xF14,0xF14,14},
{0xF18,0xF19,8},
{0xF20,0xF29,26},
{0xF34,0xF34,11},
{0xF35,0xF35,8},
{0xF37,0xF37,8},
{0xF39,0xF39,8},
{0xF3A,0xF3A,19},
{0xF3B,0xF3B,15},
{0xF3C,0xF3C,19},
{0xF3D,0xF3D,15},
{0xF3E,0xF3F,8},
{0xF71,0xF7E,8},
{0xF7F,0xF7F,11},
{0xF80,0xF84,8},
{0xF85,0xF85,11},
{0xF86,0xF87,8},
{0xF8D,0xF97,8},
{0xF99,0xFBC,8},
{0xFBE,0xFBF,11},
{0xFC6,0xFC6,8},
{0xFD0,0xFD1,13},
{0xFD2,0xFD2,11},
{0xFD3,0xFD3,13},
{0xFD9,0xFDA,10},
{0x102B,0x103E,8},
{0x1040,0x1049,26},
{0x104A,0x104B,11},
{0x1056,0x1059,8},
{0x105E,0x1060,8},
{0x1062,0x1064,8},
{0x1067,0x106D,8},
{0x1071,0x1074,8},
{0x1082,0x108D,8},
{0x108F,0x108F,8},
{0x1090,0x1099,26},
{0x109A,0x109D,8},
{0x1100,0x115F,32},
{0x1160,0x11A7,33},
{0x11A8,0x11FF,34},
{0x135D,0x135F,8},
{0x1361,0x1361,11},
{0x1400,0x1400,11},
{0x1680,0x1680,11},
{0x169B,0x169B,19},
{0x169C,0x169C,15},
{0x16EB,0x16ED,11},
{0x1712,0x1715,8},
{0x1732,0x1734,8},
{0x1735,0x1736,11},
{0x1752,0x1753,8},
{0x1772,0x1773,8},
{0x17B4,0x17D3,8},
{0x17D4,0x17D5,11},
{0x17D6,0x17D6,21},
{0x17D8,0x17D8,11},
{0x17DA,0x17DA,11},
{0x17DB,0x17DB,27},
{0x17DD,0x17DD,8},
{0x17E0,0x17E9,26},
{0x1802,0x1803,14},
{0x1804,0x1805,11},
{0x1806,0x1806,13},
{0x1808,0x1809,14},
{0x180B,0x180D,8},
{0x180E,0x180E,10},
{0x180F,0x180F,8},
{0x1810,0x1819,26},
{0x1885,0x1886,8},
{0x18A9,0x18A9,8},
{0x1920,0x192B,8},
{0x1930,0x193B,8},
{0x1944,0x1945,14},
{0x1946,0x194F,26},
{0x19D0,0x19D9,26},
{0x1A17,0x1A1B,8},
{0x1A55,0x1A5E,8},
{0x1A60,0x1A7C,8},
{0x1A7F,0x1A7F,8},
{0x1A80,0x1A89,26},
{0x1A90,0x1A99,26},
{0x1AB0,0x1ACE,8},
{0x1B00,0x1B04,8},
{0x1B34,0x1B44,8},
{0x1B50,0x1B59,26},
{0x1B5A,0x1B5B,11},
{0x1B5D,0x1B60,11},
{0x1B6B,0x1B73,8},
{0x1B7D,0x1B7E,11},
{0x1B80,0x1B82,8},
{0x1BA1,0x1BAD,8},
{0x1BB0,0x1BB9,26},
{0x1BE6,0x1BF3,8},
{0x1C24,0x1C37,8},
{0x1C3B,0x1C3F,11},
{0x1C40,0x1C49,26},
{0x1C50,0x1C59,26},
{0x1C7E,0x1C7F,11},
{0x1CD0,0x1CD2,8},
{0x1CD4,0x1CE8,8},
{0x1CED,0x1CED,8},
{0x1CF4,0x1CF4,8},
{0x1CF7,0x1CF9,8},
{0x1DC0,0x1DCC,8},
{0x1DCD,0x1DCD,10},
{0x1DCE,0x1DFB,8},
{0x1DFC,0x1DFC,10},
{0x1DFD,0x1DFF,8},
{0x1FFD,0x1FFD,13},
{0x2000,0x2006,11},
{0x2007,0x2007,10},
{0x2008,0x200A,11},
{0x200B,0x200B,6},
{0x200C,0x200C,8},
{0x200D,0x200D,7},
{0x200E,0x200F,8},
{0x2010,0x2010,11},
{0x2011,0x2011,10},
{0x2012,0x2013,11},
{0x2014,0x2014,22},
{0x2018,0x2019,20},
{0x201A,0x201A,19},
{0x201B,0x201D,20},
{0x201E,0x201E,19},
{0x201F,0x201F,20},
{0x2024,0x2026,24},
{0x2027,0x2027,11},
{0x2028,0x2029,1},
{0x202A,0x202E,8},
{0x202F,0x202F,10},
{0x2030,0x2037,28},
{0x2039,0x203A,20},
{0x203C,0x203D,21},
{0x2044,0x2044,17},
{0x2045,0x2045,19},
{0x2046,0x2046,15},
{0x2047,0x2049,21},
{0x2056,0x2056,11},
{0x2057,0x2057,28},
{0x2058,0x205B,11},
{0x205D,0x205F,11},
{0x2060,0x2060,9},
{0x2066,0x206F,8},
{0x207D,0x207D,19},
{0x207E,0x207E,15},
{0x208D,0x208D,19},
{0x208E,0x208E,15},
{0x20A0,0x20A6,27},
{0x20A7,0x20A7,28},
{0x20A8,0x20B5,27},
{0x20B6,0x20B6,28},
{0x20B7,0x20BA,27},
{0x20BB,0x20BB,28},
{0x20BC,0x20BD,27},
{0x20BE,0x20BE,28},
{0x20BF,0x20BF,27},
{0x20C0,0x20C0,28},
{0x20C1,0x20CF,27},
{0x20D0,0x20F0,8},
{0x2103,0x2103,28},
{0x2109,0x2109,28},
{0x2116,0x2116,27},
{0x2212,0x2213,27},
{0x22EF,0x22EF,24},
{0x2308,0x2308,19},
{0x2309,0x2309,15},
{0x230A,0x230A,19},
{0x230B,0x230B,15},
{0x231A,0x231B,29},
{0x2329,0x2329,19},
{0x232A,0x232A,15},
{0x23F0,0x23F3,29},
{0x2600,0x2603,29},
{0x2614,0x2615,29},
{0x2618,0x2618,29},
{0x261A,0x261C,29},
{0x261D,0x261D,30},
{0x261E,0x261F,29},
{0x2639,0x263B,29},
{0x2668,0x2668,29},
{0x267F,0x267F,29},
{0x26BD,0x26C8,29},
{0x26CD,0x26CD,29},
{0x26CF,0x26D1,29},
{0x26D3,0x26D4,29},
{0x26D8,0x26D9,29},
{0x26DC,0x26DC,29},
{0x26DF,0x26E1,29},
{0x26EA,0x26EA,29},
{0x26F1,0x26F5,29},
{0x26F7,0x26F8,29},
{0x26F9,0x26F9,30},
{0x26FA,0x26FA,29},
{0x26FD,0x2704,29},
{0x2708,0x2709,29},
{0x270A,0x270D,30},
{0x275B,0x2760,20},
{0x2762,0x2763,14},
{0x2764,0x2764,29},
{0x2768,0x2768,19},
{0x2769,0x2769,15},
{0x276A,0x276A,19},
{0x276B,0x276B,15},
{0x276C,0x276C,19},
{0x276D,0x276D,15},
{0x276E,0x276E,19},
{0x276F,0x276F,15},
{0x2770,0x2770,19},
{0x2771,0x2771,15},
{0x2772,0x2772,19},
{0x2773,0x2773,15},
{0x2774,0x2774,19},
{0x2775,0x2775,15},
{0x27C5,0x27C5,19},
{0x27C6,0x27C6,15},
{0x27E6,0x27E6,19},
{0x27E7,0x27E7,15},
{0x27E8,0x27E8,19},
{0x27E9,0x27E9,15},
{0x27EA,0x27EA,19},
{0x27EB,0x27EB,15},
{0x27EC,0x27EC,19},
{0x27ED,0x27ED,15},
{0x27EE,0x27EE,19},
{0x27EF,0x27EF,15},
{0x2983,0x2983,19},
{0x2984,0x2984,15},
{0x2985,0x2985,19},
{0x2986,0x2986,15},
{0x2987,0x2987,19},
{0x2988,0x2988,15},
{0x2989,0x2989,19},
{0x298A,0x298A,15},
{0x298B,0x298B,19},
{0x298C,0x298C,15},
{0x298D,0x298D,19},
{0x298E,0x298E,15},
{0x298F,0x298F,19},
{0x2990,0x2990,15},
{0x2991,0x2991,19},
{0x2992,0x2992,15},
{0x2993,0x2993,19},
{0x2994,0x2994,15},
{0x2995,0x2995,19},
{0x2996,0x2996,15},
{0x2997,0x2997,19},
{0x2998,0x2998,15},
{0x29D8,0x29D8,19},
{0x29D9,0x29D9,15},
{0x29DA,0x29DA,19},
{0x29DB,0x29DB,15},
{0x29FC,0x29FC,19},
{0x29FD,0x29FD,15},
{0x2CEF,0x2CF1,8},
{0x2CF9,0x2CF9,14},
{0x2CFA,0x2CFC,11},
{0x2CFE,0x2CFE,14},
{0x2CFF,0x2CFF,11},
{0x2D70,0x2D70,11},
{0x2D7F,0x2D7F,8},
{0x2DE0,0x2DFF,8},
{0x2E00,0x2E0D,20},
{0x2E0E,0x2E15,11},
{0x2E17,0x2E17,11},
{0x2E18,0x2E18,19},
{0x2E19,0x2E19,11},
{0x2E1C,0x2E1D,20},
{0x2E20,0x2E21,20},
{0x2E22,0x2E22,19},
{0x2E23,0x2E23,15},
{0x2E24,0x2E24,19},
{0x2E25,0x2E25,15},
{0x2E26,0x2E26,19},
{0x2E27,0x2E27,15},
{0x2E28,0x2E28,19},
{0x2E29,0x2E29,15},
{0x2E2A,0x2E2D,11},
{0x2E2E,0x2E2E,14},
{0x2E30,0x2E31,11},
{0x2E33,0x2E34,11},
{0x2E3A,0x2E3B,22},
{0x2E3C,0x2E3E,11},
{0x2E40,0x2E41,11},
{0x2E42,0x2E42,19},
{0x2E43,0x2E4A,11},
{0x2E4C,0x2E4C,11},
{0x2E4E,0x2E4F,11},
{0x2E53,0x2E54,14},
{0x2E55,0x2E55,19},
{0x2E56,0x2E56,15},
{0x2E57,0x2E57,19},
{0x2E58,0x2E58,15},
{0x2E59,0x2E59,19},
{0x2E5A,0x2E5A,15},
{0x2E5B,0x2E5B,19},
{0x2E5C,0x2E5C,15},
{0x2E5D,0x2E5D,11},
{0x2E80,0x2E99,29},
{0x2E9B,0x2EF3,29},
{0x2F00,0x2FD5,29},
{0x2FF0,0x2FFB,29},
{0x3000,0x3000,11},
{0x3001,0x3002,15},
{0x3003,0x3004,29},
{0x3005,0x3005,21},
{0x3006,0x3007,29},
{0x3008,0x3008,19},
{0x3009,0x3009,15},
{0x300A,0x300A,19},
{0x300B,0x300B,15},
{0x300C,0x300C,19},
{0x300D,0x300D,15},
{0x300E,0x300E,19},
{0x300F,0x300F,15},
{0x3010,0x3010,19},
{0x3011,0x3011,15},
{0x3012,0x3013,29},
{0x3014,0x3014,19},
{0x3015,0x3015,15},
{0x3016,0x3016,19},
{0x3017,0x3017,15},
{0x3018,0x3018,19},
{0x3019,0x3019,15},
{0x301A,0x301A,19},
{0x301B,0x301B,15},
{0x301C,0x301C,21},
{0x301D,0x301D,19},
{0x301E,0x301F,15},
{0x3020,0x3029,29},
{0x302A,0x302F,8},
{0x3030,0x3034,29},
{0x3035,0x3035,8},
{0x3036,0x303A,29},
{0x303B,0x303C,21},
{0x303D,0x303F,29},
{0x3041,0x3041,21},
{0x3042,0x3042,29},
{0x3043,0x3043,21},
{0x3044,0x3044,29},
{0x3045,0x3045,21},
{0x3046,0x3046,29},
{0x3047,0x3047,21},
{0x3048,0x3048,29},
{0x3049,0x3049,21},
{0x304A,0x3062,29},
{0x3063,0x3063,21},
{0x3064,0x3082,29},
{0x3083,0x3083,21},
{0x3084,0x3084,29},
{0x3085,0x3085,21},
{0x3086,0x3086,29},
{0x3087,0x3087,21},
{0x3088,0x308D,29},
{0x308E,0x308E,21},
{0x308F,0x3094,29},
{0x3095,0x3096,21},
{0x3099,0x309A,8},
{0x309B,0x309E,21},
{0x309F,0x309F,29},
{0x30A0,0x30A1,21},
{0x30A2,0x30A2,29},
{0x30A3,0x30A3,21},
{0x30A4,0x30A4,29},
{0x30A5,0x30A5,21},
{0x30A6,0x30A6,29},
{0x30A7,0x30A7,21},
{0x30A8,0x30A8,29},
{0x30A9,0x30A9,21},
{0x30AA,0x30C2,29},
{0x30C3,0x30C3,21},
{0x30C4,0x30E2,29},
{0x30E3,0x30E3,21},
{0x30E4,0x30E4,29},
{0x30E5,0x30E5,21},
{0x30E6,0x30E6,29},
{0x30E7,0x30E7,21},
{0x30E8,0x30ED,29},
{0x30EE,0x30EE,21},
{0x30EF,0x30F4,29},
{0x30F5,0x30F6,21},
{0x30F7,0x30FA,29},
{0x30FB,0x30FE,21},
{0x30FF,0x30FF,29},
{0x3105,0x312F,29},
{0x3131,0x318E,29},
{0x3190,0x31E3,29},
{0x31F0,0x31FF,21},
{0x3200,0x321E,29},
{0x3220,0x3247,29},
{0x3250,0x4DBF,29},
{0x4E00,0xA014,29},
{0xA015,0xA015,21},
{0xA016,0xA48C,29},
{0xA490,0xA4C6,29},
{0xA4FE,0xA4FF,11},
{0xA60D,0xA60D,11},
{0xA60E,0xA60E,14},
{0xA60F,0xA60F,11},
{0xA620,0xA629,26},
{0xA66F,0xA672,8},
{0xA674,0xA67D,8},
{0xA69E,0xA69F,8},
{0xA6F0,0xA6F1,8},
{0xA6F3,0xA6F7,11},
{0xA802,0xA802,8},
{0xA806,0xA806,8},
{0xA80B,0xA80B,8},
{0xA823,0xA827,8},
{0xA82C,0xA82C,8},
{0xA838,0xA838,28},
{0xA874,0xA875,13},
{0xA876,0xA877,14},
{0xA880,0xA881,8},
{0xA8B4,0xA8C5,8},
{0xA8CE,0xA8CF,11},
{0xA8D0,0xA8D9,26},
{0xA8E0,0xA8F1,8},
{0xA8FC,0xA8FC,13},
{0xA8FF,0xA8FF,8},
{0xA900,0xA909,26},
{0xA926,0xA92D,8},
{0xA92E,0xA92F,11},
{0xA947,0xA953,8},
{0xA960,0xA97C,32},
{0xA980,0xA983,8},
{0xA9B3,0xA9C0,8},
{0xA9C7,0xA9C9,11},
{0xA9D0,0xA9D9,26},
{0xA9E5,0xA9E5,8},
{0xA9F0,0xA9F9,26},
{0xAA29,0xAA36,8},
{0xAA43,0xAA43,8},
{0xAA4C,0xAA4D,8},
{0xAA50,0xAA59,26},
{0xAA5D,0xAA5F,11},
{0xAA7B,0xAA7D,8},
{0xAAB0,0xAAB0,8},
{0xAAB2,0xAAB4,8},
{0xAAB7,0xAAB8,8},
{0xAABE,0xAABF,8},
{0xAAC1,0xAAC1,8},
{0xAAEB,0xAAEF,8},
{0xAAF0,0xAAF1,11},
{0xAAF5,0xAAF6,8},
{0xABE3,0xABEA,8},
{0xABEB,0xABEB,11},
{0xABEC,0xABED,8},
{0xABF0,0xABF9,26},
{0xAC00,0xAC00,35},
{0xAC01,0xAC1B,36},
{0xAC1C,0xAC1C,35},
{0xAC1D,0xAC37,36},
{0xAC38,0xAC38,35},
{0xAC39,0xAC53,36},
{0xAC54,0xAC54,35},
{0xAC55,0xAC6F,36},
{0xAC70,0xAC70,35},
{0xAC71,0xAC8B,36},
{0xAC8C,0xAC8C,35},
{0xAC8D,0xACA7,36},
{0xACA8,0xACA8,35},
{0xACA9,0xACC3,36},
{0xACC4,0xACC4,35},
{0xACC5,0xACDF,36},
{0xACE0,0xACE0,35},
{0xACE1,0xACFB,36},
{0xACFC,0xACFC,35},
{0xACFD,0xAD17,36},
{0xAD18,0xAD18,35},
{0xAD19,0xAD33,36},
{0xAD34,0xAD34,35},
{0xAD35,0xAD4F,36},
{0xAD50,0xAD50,35},
{0xAD51,0xAD6B,36},
{0xAD6C,0xAD6C,35},
{0xAD6D,0xAD87,36},
{0xAD88,0xAD88,35},
{0xAD89,0xADA3,36},
{0xADA4,0xADA4,35},
{0xADA5,0xADBF,36},
{0xADC0,0xADC0,35},
{0xADC1,0xADDB,36},
{0xADDC,0xADDC,35},
{0xADDD,0xADF7,36},
{0xADF8,0xADF8,35},
{0xADF9,0xAE13,36},
{0xAE14,0xAE14,35},
{0xAE15,0xAE2F,36},
{0xAE30,0xAE30,35},
{0xAE31,0xAE4B,36},
{0xAE4C,0xAE4C,35},
{0xAE4D,0xAE67,36},
{0xAE68,0xAE68,35},
{0xAE69,0xAE83,36},
{0xAE84,0xAE84,35},
{0xAE85,0xAE9F,36},
{0xAEA0,0xAEA0,35},
{0xAEA1,0xAEBB,36},
{0xAEBC,0xAEBC,35},
{0xAEBD,0xAED7,36},
{0xAED8,0xAED8,35},
{0xAED9,0xAEF3,36},
{0xAEF4,0xAEF4,35},
{0xAEF5,0xAF0F,36},
{0xAF10,0xAF10,35},
{0xAF11,0xAF2B,36},
{0xAF2C,0xAF2C,35},
{0xAF2D,0xAF47,36},
{0xAF48,0xAF48,35},
{0xAF49,0xAF63,36},
{0xAF64,0xAF64,35},
{0xAF65,0xAF7F,36},
{0xAF80,0xAF80,35},
{0xAF81,0xAF9B,36},
{0xAF9C,0xAF9C,35},
{0xAF9D,0xAFB7,36},
{0xAFB8,0xAFB8,35},
{0xAFB9,0xAFD3,36},
{0xAFD4,0xAFD4,35},
{0xAFD5,0xAFEF,36},
{0xAFF0,0xAFF0,35},
{0xAFF1,0xB00B,36},
{0xB00C,0xB00C,35},
{0xB00D,0xB027,36},
{0xB028,0xB028,35},
{0xB029,0xB043,36},
{0xB044,0xB044,35},
{0xB045,0xB05F,36},
{0xB060,0xB060,35},
{0xB061,0xB07B,36},
{0xB07C,0xB07C,35},
{0xB07D,0xB097,36},
{0xB098,0xB098,35},
{0xB099,0xB0B3,36},
{0xB0B4,0xB0B4,35},
{0xB0B5,0xB0CF,36},
{0xB0D0,0xB0D0,35},
{0xB0D1,0xB0EB,36},
{0xB0EC,0xB0EC,35},
{0xB0ED,0xB107,36},
{0xB108,0xB108,35},
{0xB109,0xB123,36},
{0xB124,0xB124,35},
{0xB125,0xB13F,36},
{0xB140,0xB140,35},
{0xB141,0xB15B,36},
{0xB15C,0xB15C,35},
{0xB15D,0xB177,36},
{0xB178,0xB178,35},
{0xB179,0xB193,36},
{0xB194,0xB194,35},
{0xB195,0xB1AF,36},
{0xB1B0,0xB1B0,35},
{0xB1B1,0xB1CB,36},
{0xB1CC,0xB1CC,35},
{0xB1CD,0xB1E7,36},
{0xB1E8,0xB1E8,35},
{0xB1E9,0xB203,36},
{0xB204,0xB204,35},
{0xB205,0xB21F,36},
{0xB220,0xB220,35},
{0xB221,0xB23B,36},
{0xB23C,0xB23C,35},
{0xB23D,0xB257,36},
{0xB258,0xB258,35},
{0xB259,0xB273,36},
{0xB274,0xB274,35},
{0xB275,0xB28F,36},
{0xB290,0xB290,35},
{0xB291,0xB2AB,36},
{0xB2AC,0xB2AC,35},
{0xB2AD,0xB2C7,36},
{0xB2C8,0xB2C8,35},
{0xB2C9,0xB2E3,36},
{0xB2E4,0xB2E4,35},
{0xB2E5,0xB2FF,36},
{0xB300,0xB300,35},
{0xB301,0xB31B,36},
{0xB31C,0xB31C,35},
{0xB31D,0xB337,36},
{0xB338,0xB338,35},
{0xB339,0xB353,36},
{0xB354,0xB354,35},
{0xB355,0xB36F,36},
{0xB370,0xB370,35},
{0xB371,0xB38B,36},
{0xB38C,0xB38C,35},
{0xB38D,0xB3A7,36},
{0xB3A8,0xB3A8,35},
{0xB3A9,0xB3C3,36},
{0xB3C4,0xB3C4,35},
{0xB3C5,0xB3DF,36},
{0xB3E0,0xB3E0,35},
{0xB3E1,0xB3FB,36},
{0xB3FC,0xB3FC,35},
{0xB3FD,0xB417,36},
{0xB418,0xB418,35},
{0xB419,0xB433,36},
{0xB434,0xB434,35},
{0xB435,0xB44F,36},
{0xB450,0xB450,35},
{0xB451,0xB46B,36},
{0xB46C,0xB46C,35},
{0xB46D,0xB487,36},
{0xB488,0xB488,35},
{0xB489,0xB4A3,36},
{0xB4A4,0xB4A4,35},
{0xB4A5,0xB4BF,36},
{0xB4C0,0xB4C0,35},
{0xB4C1,0xB4DB,36},
{0xB4DC,0xB4DC,35},
{0xB4DD,0xB4F7,36},
{0xB4F8,0xB4F8,35},
{0xB4F9,0xB513,36},
{0xB514,0xB514,35},
{0xB515,0xB52F,36},
{0xB530,0xB530,35},
{0xB531,0xB54B,36},
{0xB54C,0xB54C,35},
{0xB54D,0xB567,36},
{0xB568,0xB568,35},
{0xB569,0xB583,36},
{0xB584,0xB584,35},
{0xB585,0xB59F,36},
{0xB5A0,0xB5A0,35},
{0xB5A1,0xB5BB,36},
{0xB5BC,0xB5BC,35},
{0xB5BD,0xB5D7,36},
{0xB5D8,0xB5D8,35},
{0xB5D9,0xB5F3,36},
{0xB5F4,0xB5F4,35},
{0xB5F5,0xB60F,36},
{0xB610,0xB610,35},
{0xB611,0xB62B,36},
{0xB62C,0xB62C,35},
{0xB62D,0xB647,36},
{0xB648,0xB648,35},
{0xB649,0xB663,36},
{0xB664,0xB664,35},
{0xB665,0xB67F,36},
{0xB680,0xB680,35},
{0xB681,0xB69B,36},
{0xB69C,0xB69C,35},
{0xB69D,0xB6B7,36},
{0xB6B8,0xB6B8,35},
{0xB6B9,0xB6D3,36},
{0xB6D4,0xB6D4,35},
{0xB6D5,0xB6EF,36},
{0xB6F0,0xB6F0,35},
{0xB6F1,0xB70B,36},
{0xB70C,0xB70C,35},
{0xB70D,0xB727,36},
{0xB728,0xB728,35},
{0xB729,0xB743,36},
{0xB744,0xB744,35},
{0xB745,0xB75F,36},
{0xB760,0xB760,35},
{0xB761,0xB77B,36},
{0xB77C,0xB77C,35},
{0xB77D,0xB797,36},
{0xB798,0xB798,35},
{0xB799,0xB7B3,36},
{0xB7B4,0xB7B4,35},
{0xB7B5,0xB7CF,36},
{0xB7D0,0xB7D0,35},
{0xB7D1,0xB7EB,36},
{0xB7EC,0xB7EC,35},
{0xB7ED,0xB807,36},
{0xB808,0xB808,35},
{0xB809,0xB823,36},
{0xB824,0xB824,35},
{0xB825,0xB83F,36},
{0xB840,0xB840,35},
{0xB841,0xB85B,36},
{0xB85C,0xB85C,35},
{0xB85D,0xB877,36},
{0xB878,0xB878,35},
{0xB879,0xB893,36},
{0xB894,0xB894,35},
{0xB895,0xB8AF,36},
{0xB8B0,0xB8B0,35},
{0xB8B1,0xB8CB,36},
{0xB8CC,0xB8CC,35},
{0xB8CD,0xB8E7,36},
{0xB8E8,0xB8E8,35},
{0xB8E9,0xB903,36},
{0xB904,0xB904,35},
{0xB905,0xB91F,36},
{0xB920,0xB920,35},
{0xB921,0xB93B,36},
{0xB93C,0xB93C,35},
{0xB93D,0xB957,36},
{0xB958,0xB958,35},
{0xB959,0xB973,36},
{0xB974,0xB974,35},
{0xB975,0xB98F,36},
{0xB990,0xB990,35},
{0xB991,0xB9AB,36},
{0xB9AC,0xB9AC,35},
{0xB9AD,0xB9C7,36},
{0xB9C8,0xB9C8,35},
{0xB9C9,0xB9E3,36},
{0xB9E4,0xB9E4,35},
{0xB9E5,0xB9FF,36},
{0xBA00,0xBA00,35},
{0xBA01,0xBA1B,36},
{0xBA1C,0xBA1C,35},
{0xBA1D,0xBA37,36},
{0xBA38,0xBA38,35},
{0xBA39,0xBA53,36},
{0xBA54,0xBA54,35},
{0xBA55,0xBA6F,36},
{0xBA70,0xBA70,35},
{0xBA71,0xBA8B,36},
{0xBA8C,0xBA8C,35},
{0xBA8D,0xBAA7,36},
{0xBAA8,0xBAA8,35},
{0xBAA9,0xBAC3,36},
{0xBAC4,0xBAC4,35},
{0xBAC5,0xBADF,36},
{0xBAE0,0xBAE0,35},
{0xBAE1,0xBAFB,36},
{0xBAFC,0xBAFC,35},
{0xBAFD,0xBB17,36},
{0xBB18,0xBB18,35},
{0xBB19,0xBB33,36},
{0xBB34,0xBB34,35},
{0xBB35,0xBB4F,36},
{0xBB50,0xBB50,35},
{0xBB51,0xBB6B,36},
{0xBB6C,0xBB6C,35},
{0xBB6D,0xBB87,36},
{0xBB88,0xBB88,35},
{0xBB89,0xBBA3,36},
{0xBBA4,0xBBA4,35},
{0xBBA5,0xBBBF,36},
{0xBBC0,0xBBC0,35},
{0xBBC1,0xBBDB,36},
{0xBBDC,0xBBDC,35},
{0xBBDD,0xBBF7,36},
{0xBBF8,0xBBF8,35},
{0xBBF9,0xBC13,36},
{0xBC14,0xBC14,35},
{0xBC15,0xBC2F,36},
{0xBC30,0xBC30,35},
{0xBC31,0xBC4B,36},
{0xBC4C,0xBC4C,35},
{0xBC4D,0xBC67,36},
{0xBC68,0xBC68,35},
{0xBC69,0xBC83,36},
{0xBC84,0xBC84,35},
{0xBC85,0xBC9F,36},
{0xBCA0,0xBCA0,35},
{0xBCA1,0xBCBB,36},
{0xBCBC,0xBCBC,35},
{0xBCBD,0xBCD7,36},
{0xBCD8,0xBCD8,35},
{0xBCD9,0xBCF3,36},
{0xBCF4,0xBCF4,35},
{0xBCF5,0xBD0F,36},
{0xBD10,0xBD10,35},
{0xBD11,0xBD2B,36},
{0xBD2C,0xBD2C,35},
{0xBD2D,0xBD47,36},
{0xBD48,0xBD48,35},
{0xBD49,0xBD63,36},
{0xBD64,0xBD64,35},
{0xBD65,0xBD7F,36},
{0xBD80,0xBD80,35},
{0xBD81,0xBD9B,36},
{0xBD9C,0xBD9C,35},
{0xBD9D,0xBDB7,36},
{0xBDB8,0xBDB8,35},
{0xBDB9,0xBDD3,36},
{0xBDD4,0xBDD4,35},
{0xBDD5,0xBDEF,36},
{0xBDF0,0xBDF0,35},
{0xBDF1,0xBE0B,36},
{0xBE0C,0xBE0C,35},
{0xBE0D,0xBE27,36},
{0xBE28,0xBE28,35},
{0xBE29,0xBE43,36},
{0xBE44,0xBE44,35},
{0xBE45,0xBE5F,36},
{0xBE60,0xBE60,35},
{0xBE61,0xBE7B,36},
{0xBE7C,0xBE7C,35},
{0xBE7D,0xBE97,36},
{0xBE98,0xBE98,35},
{0xBE99,0xBEB3,36},
{0xBEB4,0xBEB4,35},
{0xBEB5,0xBECF,36},
{0xBED0,0xBED0,35},
{0xBED1,0xBEEB,36},
{0xBEEC,0xBEEC,35},
{0xBEED,0xBF07,36},
{0xBF08,0xBF08,35},
{0xBF09,0xBF23,36},
{0xBF24,0xBF24,35},
{0xBF25,0xBF3F,36},
{0xBF40,0xBF40,35},
{0xBF41,0xBF5B,36},
{0xBF5C,0xBF5C,35},
{0xBF5D,0xBF77,36},
{0xBF78,0xBF78,35},
{0xBF79,0xBF93,36},
{0xBF94,0xBF94,35},
{0xBF95,0xBFAF,36},
{0xBFB0,0xBFB0,35},
{0xBFB1,0xBFCB,36},
{0xBFCC,0xBFCC,35},
{0xBFCD,0xBFE7,36},
{0xBFE8,0xBFE8,35},
{0xBFE9,0xC003,36},
{0xC004,0xC004,35},
{0xC005,0xC01F,36},
{0xC020,0xC020,35},
{0xC021,0xC03B,36},
{0xC03C,0xC03C,35},
{0xC03D,0xC057,36},
{0xC058,0xC058,35},
{0xC059,0xC073,36},
{0xC074,0xC074,35},
{0xC075,0xC08F,36},
{0xC090,0xC090,35},
{0xC091,0xC0AB,36},
{0xC0AC,0xC0AC,35},
{0xC0AD,0xC0C7,36},
{0xC0C8,0xC0C8,35},
{0xC0C9,0xC0E3,36},
{0xC0E4,0xC0E4,35},
{0xC0E5,0xC0FF,36},
{0xC100,0xC100,35},
{0xC101,0xC11B,36},
{0xC11C,0xC11C,35},
{0xC11D,0xC137,36},
{0xC138,0xC138,35},
{0xC139,0xC153,36},
{0xC154,0xC154,35},
{0xC155,0xC16F,36},
{0xC170,0xC170,35},
{0xC171,0xC18B,36},
{0xC18C,0xC18C,35},
{0xC18D,0xC1A7,36},
{0xC1A8,0xC1A8,35},
{0xC1A9,0xC1C3,36},
{0xC1C4,0xC1C4,35},
{0xC1C5,0xC1DF,36},
{0xC1E0,0xC1E0,35},
{0xC1E1,0xC1FB,36},
{0xC1FC,0xC1FC,35},
{0xC1FD,0xC217,36},
{0xC218,0xC218,35},
{0xC219,0xC233,36},
{0xC234,0xC234,35},
{0xC235,0xC24F,36},
{0xC250,0xC250,35},
{0xC251,0xC26B,36},
{0xC26C,0xC26C,35},
{0xC26D,0xC287,36},
{0xC288,0xC288,35},
{0xC289,0xC2A3,36},
{0xC2A4,0xC2A4,35},
{0xC2A5,0xC2BF,36},
{0xC2C0,0xC2C0,35},
{0xC2C1,0xC2DB,36},
{0xC2DC,0xC2DC,35},
{0xC2DD,0xC2F7,36},
{0xC2F8,0xC2F8,35},
{0xC2F9,0xC313,36},
{0xC314,0xC314,35},
{0xC315,0xC32F,36},
{0xC330,0xC330,35},
{0xC331,0xC34B,36},
{0xC34C,0xC34C,35},
{0xC34D,0xC367,36},
{0xC368,0xC368,35},
{0xC369,0xC383,36},
{0xC384,0xC384,35},
{0xC385,0xC39F,36},
{0xC3A0,0xC3A0,35},
{0xC3A1,0xC3BB,36},
{0xC3BC,0xC3BC,35},
{0xC3BD,0xC3D7,36},
{0xC3D8,0xC3D8,35},
{0xC3D9,0xC3F3,36},
{0xC3F4,0xC3F4,35},
{0xC3F5,0xC40F,36},
{0xC410,0xC410,35},
{0xC411,0xC42B,36},
{0xC42C,0xC42C,35},
{0xC42D,0xC447,36},
{0xC448,0xC448,35},
{0xC449,0xC463,36},
{0xC464,0xC464,35},
{0xC465,0xC47F,36},
{0xC480,0xC480,35},
{0xC481,0xC49B,36},
{0xC49C,0xC49C,35},
{0xC49D,0xC4B7,36},
{0xC4B8,0xC4B8,35},
{0xC4B9,0xC4D3,36},
{0xC4D4,0xC4D4,35},
{0xC4D5,0xC4EF,36},
{0xC4F0,0xC4F0,35},
{0xC4F1,0xC50B,36},
{0xC50C,0xC50C,35},
{0xC50D,0xC527,36},
{0xC528,0xC528,35},
{0xC529,0xC543,36},
{0xC544,0xC544,35},
{0xC545,0xC55F,36},
{0xC560,0xC560,35},
{0xC561,0xC57B,36},
{0xC57C,0xC57C,35},
{0xC57D,0xC597,36},
{0xC598,0xC598,35},
{0xC599,0xC5B3,36},
{0xC5B4,0xC5B4,35},
{0xC5B5,0xC5CF,36},
{0xC5D0,0xC5D0,35},
{0xC5D1,0xC5EB,36},
{0xC5EC,0xC5EC,35},
{0xC5ED,0xC607,36},
{0xC608,0xC608,35},
{0xC609,0xC623,36},
{0xC624,0xC624,35},
{0xC625,0xC63F,36},
{0xC640,0xC640,35},
{0xC641,0xC65B,36},
{0xC65C,0xC65C,35},
{0xC65D,0xC677,36},
{0xC678,0xC678,35},
{0xC679,0xC693,36},
{0xC694,0xC694,35},
{0xC695,0xC6AF,36},
{0xC6B0,0xC6B0,35},
{0xC6B1,0xC6CB,36},
{0xC6CC,0xC6CC,35},
{0xC6CD,0xC6E7,36},
{0xC6E8,0xC6E8,35},
{0xC6E9,0xC703,36},
{0xC704,0xC704,35},
{0xC705,0xC71F,36},
{0xC720,0xC720,35},
{0xC721,0xC73B,36},
{0xC73C,0xC73C,35},
{0xC73D,0xC757,36},
{0xC758,0xC758,35},
{0xC759,0xC773,36},
{0xC774,0xC774,35},
{0xC775,0xC78F,36},
{0xC790,0xC790,35},
{0xC791,0xC7AB,36},
{0xC7AC,0xC7AC,35},
{0xC7AD,0xC7C7,36},
{0xC7C8,0xC7C8,35},
{0xC7C9,0xC7E3,36},
{0xC7E4,0xC7E4,35},
{0xC7E5,0xC7FF,36},
{0xC800,0xC800,35},
{0xC801,0xC81B,36},
{0xC81C,0xC81C,35},
{0xC81D,0xC837,36},
{0xC838,0xC838,35},
{0xC839,0xC853,36},
{0xC854,0xC854,35},
{0xC855,0xC86F,36},
{0xC870,0xC870,35},
{0xC871,0xC88B,36},
{0xC88C,0xC88C,35},
{0xC88D,0xC8A7,36},
{0xC8A8,0xC8A8,35},
{0xC8A9,0xC8C3,36},
{0xC8C4,0xC8C4,35},
{0xC8C5,0xC8DF,36},
{0xC8E0,0xC8E0,35},
{0xC8E1,0xC8FB,36},
{0xC8FC,0xC8FC,35},
{0xC8FD,0xC917,36},
{0xC918,0xC918,35},
{0xC919,0xC933,36},
{0xC934,0xC934,35},
{0xC935,0xC94F,36},
{0xC950,0xC950,35},
{0xC951,0xC96B,36},
{0xC96C,0xC96C,35},
{0xC96D,0xC987,36},
{0xC988,0xC988,35},
{0xC989,0xC9A3,36},
{0xC9A4,0xC9A4,35},
{0xC9A5,0xC9BF,36},
{0xC9C0,0xC9C0,35},
{0xC9C1,0xC9DB,36},
{0xC9DC,0xC9DC,35},
{0xC9DD,0xC9F7,36},
{0xC9F8,0xC9F8,35},
{0xC9F9,0xCA13,36},
{0xCA14,0xCA14,35},
{0xCA15,0xCA2F,36},
{0xCA30,0xCA30,35},
{0xCA31,0xCA4B,36},
{0xCA4C,0xCA4C,35},
{0xCA4D,0xCA67,36},
{0xCA68,0xCA68,35},
{0xCA69,0xCA83,36},
{0xCA84,0xCA84,35},
{0xCA85,0xCA9F,36},
{0xCAA0,0xCAA0,35},
{0xCAA1,0xCABB,36},
{0xCABC,0xCABC,35},
{0xCABD,0xCAD7,36},
{0xCAD8,0xCAD8,35},
{0xCAD9,0xCAF3,36},
{0xCAF4,0xCAF4,35},
{0xCAF5,0xCB0F,36},
{0xCB10,0xCB10,35},
{0xCB11,0xCB2B,36},
{0xCB2C,0xCB2C,35},
{0xCB2D,0xCB47,36},
{0xCB48,0xCB48,35},
{0xCB49,0xCB63,36},
{0xCB64,0xCB64,35},
{0xCB65,0xCB7F,36},
{0xCB80,0xCB80,35},
{0xCB81,0xCB9B,36},
{0xCB9C,0xCB9C,35},
{0xCB9D,0xCBB7,36},
{0xCBB8,0xCBB8,35},
{0xCBB9,0xCBD3,36},
{0xCBD4,0xCBD4,35},
{0xCBD5,0xCBEF,36},
{0xCBF0,0xCBF0,35},
{0xCBF1,0xCC0B,36},
{0xCC0C,0xCC0C,35},
{0xCC0D,0xCC27,36},
{0xCC28,0xCC28,35},
{0xCC29,0xCC43,36},
{0xCC44,0xCC44,35},
{0xCC45,0xCC5F,36},
{0xCC60,0xCC60,35},
{0xCC61,0xCC7B,36},
{0xCC7C,0xCC7C,35},
{0xCC7D,0xCC97,36},
{0xCC98,0xCC98,35},
{0xCC99,0xCCB3,36},
{0xCCB4,0xCCB4,35},
{0xCCB5,0xCCCF,36},
{0xCCD0,0xCCD0,35},
{0xCCD1,0xCCEB,36},
{0xCCEC,0xCCEC,35},
{0xCCED,0xCD07,36},
{0xCD08,0xCD08,35},
{0xCD09,0xCD23,36},
{0xCD24,0xCD24,35},
{0xCD25,0xCD3F,36},
{0xCD40,0xCD40,35},
{0xCD41,0xCD5B,36},
{0xCD5C,0xCD5C,35},
{0xCD5D,0xCD77,36},
{0xCD78,0xCD78,35},
{0xCD79,0xCD93,36},
{0xCD94,0xCD94,35},
{0xCD95,0xCDAF,36},
{0xCDB0,0xCDB0,35},
{0xCDB1,0xCDCB,36},
{0xCDCC,0xCDCC,35},
{0xCDCD,0xCDE7,36},
{0xCDE8,0xCDE8,35},
{0xCDE9,0xCE03,36},
{0xCE04,0xCE04,35},
{0xCE05,0xCE1F,36},
{0xCE20,0xCE20,35},
{0xCE21,0xCE3B,36},
{0xCE3C,0xCE3C,35},
{0xCE3D,0xCE57,36},
{0xCE58,0xCE58,35},
{0xCE59,0xCE73,36},
{0xCE74,0xCE74,35},
{0xCE75,0xCE8F,36},
{0xCE90,0xCE90,35},
{0xCE91,0xCEAB,36},
{0xCEAC,0xCEAC,35},
{0xCEAD,0xCEC7,36},
{0xCEC8,0xCEC8,35},
{0xCEC9,0xCEE3,36},
{0xCEE4,0xCEE4,35},
{0xCEE5,0xCEFF,36},
{0xCF00,0xCF00,35},
{0xCF01,0xCF1B,36},
{0xCF1C,0xCF1C,35},
{0xCF1D,0xCF37,36},
{0xCF38,0xCF38,35},
{0xCF39,0xCF53,36},
{0xCF54,0xCF54,35},
{0xCF55,0xCF6F,36},
{0xCF70,0xCF70,35},
{0xCF71,0xCF8B,36},
{0xCF8C,0xCF8C,35},
{0xCF8D,0xCFA7,36},
{0xCFA8,0xCFA8,35},
{0xCFA9,0xCFC3,36},
{0xCFC4,0xCFC4,35},
{0xCFC5,0xCFDF,36},
{0xCFE0,0xCFE0,35},
{0xCFE1,0xCFFB,36},
{0xCFFC,0xCFFC,35},
{0xCFFD,0xD017,36},
{0xD018,0xD018,35},
{0xD019,0xD033,36},
{0xD034,0xD034,35},
{0xD035,0xD04F,36},
{0xD050,0xD050,35},
{0xD051,0xD06B,36},
{0xD06C,0xD06C,35},
{0xD06D,0xD087,36},
{0xD088,0xD088,35},
{0xD089,0xD0A3,36},
{0xD0A4,0xD0A4,35},
{0xD0A5,0xD0BF,36},
{0xD0C0,0xD0C0,35},
{0xD0C1,0xD0DB,36},
{0xD0DC,0xD0DC,35},
{0xD0DD,0xD0F7,36},
{0xD0F8,0xD0F8,35},
{0xD0F9,0xD113,36},
{0xD114,0xD114,35},
{0xD115,0xD12F,36},
{0xD130,0xD130,35},
{0xD131,0xD14B,36},
{0xD14C,0xD14C,35},
{0xD14D,0xD167,36},
{0xD168,0xD168,35},
{0xD169,0xD183,36},
{0xD184,0xD184,35},
{0xD185,0xD19F,36},
{0xD1A0,0xD1A0,35},
{0xD1A1,0xD1BB,36},
{0xD1BC,0xD1BC,35},
{0xD1BD,0xD1D7,36},
{0xD1D8,0xD1D8,35},
{0xD1D9,0xD1F3,36},
{0xD1F4,0xD1F4,35},
{0xD1F5,0xD20F,36},
{0xD210,0xD210,35},
{0xD211,0xD22B,36},
{0xD22C,0xD22C,35},
{0xD22D,0xD247,36},
{0xD248,0xD248,35},
{0xD249,0xD263,36},
{0xD264,0xD264,35},
{0xD265,0xD27F,36},
{0xD280,0xD280,35},
{0xD281,0xD29B,36},
{0xD29C,0xD29C,35},
{0xD29D,0xD2B7,36},
{0xD2B8,0xD2B8,35},
{0xD2B9,0xD2D3,36},
{0xD2D4,0xD2D4,35},
{0xD2D5,0xD2EF,36},
{0xD2F0,0xD2F0,35},
{0xD2F1,0xD30B,36},
{0xD30C,0xD30C,35},
{0xD30D,0xD327,36},
{0xD328,0xD328,35},
{0xD329,0xD343,36},
{0xD344,0xD344,35},
{0xD345,0xD35F,36},
{0xD360,0xD360,35},
{0xD361,0xD37B,36},
{0xD37C,0xD37C,35},
{0xD37D,0xD397,36},
{0xD398,0xD398,35},
{0xD399,0xD3B3,36},
{0xD3B4,0xD3B4,35},
{0xD3B5,0xD3CF,36},
{0xD3D0,0xD3D0,35},
{0xD3D1,0xD3EB,36},
{0xD3EC,0xD3EC,35},
{0xD3ED,0xD407,36},
{0xD408,0xD408,35},
{0xD409,0xD423,36},
{0xD424,0xD424,35},
{0xD425,0xD43F,36},
{0xD440,0xD440,35},
{0xD441,0xD45B,36},
{0xD45C,0xD45C,35},
{0xD45D,0xD477,36},
{0xD478,0xD478,35},
{0xD479,0xD493,36},
{0xD494,0xD494,35},
{0xD495,0xD4AF,36},
{0xD4B0,0xD4B0,35},
{0xD4B1,0xD4CB,36},
{0xD4CC,0xD4CC,35},
{0xD4CD,0xD4E7,36},
{0xD4E8,0xD4E8,35},
{0xD4E9,0xD503,36},
{0xD504,0xD504,35},
{0xD505,0xD51F,36},
{0xD520,0xD520,35},
{0xD521,0xD53B,36},
{0xD53C,0xD53C,35},
{0xD53D,0xD557,36},
{0xD558,0xD558,35},
{0xD559,0xD573,36},
{0xD574,0xD574,35},
{0xD575,0xD58F,36},
{0xD590,0xD590,35},
{0xD591,0xD5AB,36},
{0xD5AC,0xD5AC,35},
{0xD5AD,0xD5C7,36},
{0xD5C8,0xD5C8,35},
{0xD5C9,0xD5E3,36},
{0xD5E4,0xD5E4,35},
{0xD5E5,0xD5FF,36},
{0xD600,0xD600,35},
{0xD601,0xD61B,36},
{0xD61C,0xD61C,35},
{0xD61D,0xD637,36},
{0xD638,0xD638,35},
{0xD639,0xD653,36},
{0xD654,0xD654,35},
{0xD655,0xD66F,36},
{0xD670,0xD670,35},
{0xD671,0xD68B,36},
{0xD68C,0xD68C,35},
{0xD68D,0xD6A7,36},
{0xD6A8,0xD6A8,35},
{0xD6A9,0xD6C3,36},
{0xD6C4,0xD6C4,35},
{0xD6C5,0xD6DF,36},
{0xD6E0,0xD6E0,35},
{0xD6E1,0xD6FB,36},
{0xD6FC,0xD6FC,35},
{0xD6FD,0xD717,36},
{0xD718,0xD718,35},
{0xD719,0xD733,36},
{0xD734,0xD734,35},
{0xD735,0xD74F,36},
{0xD750,0xD750,35},
{0xD751,0xD76B,36},
{0xD76C,0xD76C,35},
{0xD76D,0xD787,36},
{0xD788,0xD788,35},
{0xD789,0xD7A3,36},
{0xD7B0,0xD7C6,33},
{0xD7CB,0xD7FB,34},
{0xF900,0xFAFF,29},
{0xFB1D,0xFB1D,25},
{0xFB1E,0xFB1E,8},
{0xFB1F,0xFB28,25},
{0xFB2A,0xFB36,25},
{0xFB38,0xFB3C,25},
{0xFB3E,0xFB3E,25},
{0xFB40,0xFB41,25},
{0xFB43,0xFB44,25},
{0xFB46,0xFB4F,25},
{0xFD3E,0xFD3E,15},
{0xFD3F,0xFD3F,19},
{0xFDFC,0xFDFC,28},
{0xFE00,0xFE0F,8},
{0xFE10,0xFE10,17},
{0xFE11,0xFE12,15},
{0xFE13,0xFE14,17},
{0xFE15,0xFE16,14},
{0xFE17,0xFE17,19},
{0xFE18,0xFE18,15},
{0xFE19,0xFE19,24},
{0xFE20,0xFE2F,8},
{0xFE30,0xFE34,29},
{0xFE35,0xFE35,19},
{0xFE36,0xFE36,15},
{0xFE37,0xFE37,19},
{0xFE38,0xFE38,15},
{0xFE39,0xFE39,19},
{0xFE3A,0xFE3A,15},
{0xFE3B,0xFE3B,19},
{0xFE3C,0xFE3C,15},
{0xFE3D,0xFE3D,19},
{0xFE3E,0xFE3E,15},
{0xFE3F,0xFE3F,19},
{0xFE40,0xFE40,15},
{0xFE41,0xFE41,19},
{0xFE42,0xFE42,15},
{0xFE43,0xFE43,19},
{0xFE44,0xFE44,15},
{0xFE45,0xFE46,29},
{0xFE47,0xFE47,19},
{0xFE48,0xFE48,15},
{0xFE49,0xFE4F,29},
{0xFE50,0xFE50,15},
{0xFE51,0xFE51,29},
{0xFE52,0xFE52,15},
{0xFE54,0xFE55,21},
{0xFE56,0xFE57,14},
{0xFE58,0xFE58,29},
{0xFE59,0xFE59,19},
{0xFE5A,0xFE5A,15},
{0xFE5B,0xFE5B,19},
{0xFE5C,0xFE5C,15},
{0xFE5D,0xFE5D,19},
{0xFE5E,0xFE5E,15},
{0xFE5F,0xFE66,29},
{0xFE68,0xFE68,29},
{0xFE69,0xFE69,27},
{0xFE6A,0xFE6A,28},
{0xFE6B,0xFE6B,29},
{0xFEFF,0xFEFF,9},
{0xFF01,0xFF01,14},
{0xFF02,0xFF03,29},
{0xFF04,0xFF04,27},
{0xFF05,0xFF05,28},
{0xFF06,0xFF07,29},
{0xFF08,0xFF08,19},
{0xFF09,0xFF09,15},
{0xFF0A,0xFF0B,29},
{0xFF0C,0xFF0C,15},
{0xFF0D,0xFF0D,29},
{0xFF0E,0xFF0E,15},
{0xFF0F,0xFF19,29},
{0xFF1A,0xFF1B,21},
{0xFF1C,0xFF1E,29},
{0xFF1F,0xFF1F,14},
{0xFF20,0xFF3A,29},
{0xFF3B,0xFF3B,19},
{0xFF3C,0xFF3C,29},
{0xFF3D,0xFF3D,15},
{0xFF3E,0xFF5A,29},
{0xFF5B,0xFF5B,19},
{0xFF5C,0xFF5C,29},
{0xFF5D,0xFF5D,15},
{0xFF5E,0xFF5E,29},
{0xFF5F,0xFF5F,19},
{0xFF60,0xFF61,15},
{0xFF62,0xFF62,19},
{0xFF63,0xFF64,15},
{0xFF65,0xFF65,21},
{0xFF66,0xFF66,29},
{0xFF67,0xFF70,21},
{0xFF71,0xFF9D,29},
{0xFF9E,0xFF9F,21},
{0xFFA0,0xFFBE,29},
{0xFFC2,0xFFC7,29},
{0xFFCA,0xFFCF,29},
{0xFFD2,0xFFD7,29},
{0xFFDA,0xFFDC,29},
{0xFFE0,0xFFE0,28},
{0xFFE1,0xFFE1,27},
{0xFFE2,0xFFE4,29},
{0xFFE5,0xFFE6,27},
{0xFFF9,0xFFFB,8},
{0xFFFC,0xFFFC,23},
{0x10100,0x10102,11},
{0x101FD,0x101FD,8},
{0x102E0,0x102E0,8},
{0x10376,0x1037A,8},
{0x1039F,0x1039F,11},
{0x103D0,0x103D0,11},
{0x104A0,0x104A9,26},
{0x10857,0x10857,11},
{0x1091F,0x1091F,11},
{0x10A01,0x10A03,8},
{0x10A05,0x10A06,8},
{0x10A0C,0x10A0F,8},
{0x10A38,0x10A3A,8},
{0x10A3F,0x10A3F,8},
{0x10A50,0x10A57,11},
{0x10AE5,0x10AE6,8},
{0x10AF0,0x10AF5,11},
{0x10AF6,0x10AF6,24},
{0x10B39,0x10B3F,11},
{0x10D24,0x10D27,8},
{0x10D30,0x10D39,26},
{0x10EAB,0x10EAC,8},
{0x10EAD,0x10EAD,11},
{0x10EFD,0x10EFF,8},
{0x10F46,0x10F50,8},
{0x10F82,0x10F85,8},
{0x11000,0x11002,8},
{0x11038,0x11046,8},
{0x11047,0x11048,11},
{0x11066,0x1106F,26},
{0x11070,0x11070,8},
{0x11073,0x11074,8},
{0x1107F,0x11082,8},
{0x110B0,0x110BA,8},
{0x110BE,0x110C1,11},
{0x110C2,0x110C2,8},
{0x110F0,0x110F9,26},
{0x11100,0x11102,8},
{0x11127,0x11134,8},
{0x11136,0x1113F,26},
{0x11140,0x11143,11},
{0x11145,0x11146,8},
{0x11173,0x11173,8},
{0x11175,0x11175,13},
{0x11180,0x11182,8},
{0x111B3,0x111C0,8},
{0x111C5,0x111C6,11},
{0x111C8,0x111C8,11},
{0x111C9,0x111CC,8},
{0x111CE,0x111CF,8},
{0x111D0,0x111D9,26},
{0x111DB,0x111DB,13},
{0x111DD,0x111DF,11},
{0x1122C,0x11237,8},
{0x11238,0x11239,11},
{0x1123B,0x1123C,11},
{0x1123E,0x1123E,8},
{0x11241,0x11241,8},
{0x112A9,0x112A9,11},
{0x112DF,0x112EA,8},
{0x112F0,0x112F9,26},
{0x11300,0x11303,8},
{0x1133B,0x1133C,8},
{0x1133E,0x11344,8},
{0x11347,0x11348,8},
{0x1134B,0x1134D,8},
{0x11357,0x11357,8},
{0x11362,0x11363,8},
{0x11366,0x1136C,8},
{0x11370,0x11374,8},
{0x11435,0x11446,8},
{0x1144B,0x1144E,11},
{0x11450,0x11459,26},
{0x1145A,0x1145B,11},
{0x1145E,0x1145E,8},
{0x114B0,0x114C3,8},
{0x114D0,0x114D9,26},
{0x115AF,0x115B5,8},
{0x115B8,0x115C0,8},
{0x115C1,0x115C1,13},
{0x115C2,0x115C3,11},
{0x115C4,0x115C5,14},
{0x115C9,0x115D7,11},
{0x115DC,0x115DD,8},
{0x11630,0x11640,8},
{0x11641,0x11642,11},
{0x11650,0x11659,26},
{0x11660,0x1166C,13},
{0x116AB,0x116B7,8},
{0x116C0,0x116C9,26},
{0x1171D,0x1172B,8},
{0x11730,0x11739,26},
{0x1173C,0x1173E,11},
{0x1182C,0x1183A,8},
{0x118E0,0x118E9,26},
{0x11930,0x11935,8},
{0x11937,0x11938,8},
{0x1193B,0x1193E,8},
{0x11940,0x11940,8},
{0x11942,0x11943,8},
{0x11944,0x11946,11},
{0x11950,0x11959,26},
{0x119D1,0x119D7,8},
{0x119DA,0x119E0,8},
{0x119E2,0x119E2,13},
{0x119E4,0x119E4,8},
{0x11A01,0x11A0A,8},
{0x11A33,0x11A39,8},
{0x11A3B,0x11A3E,8},
{0x11A3F,0x11A3F,13},
{0x11A41,0x11A44,11},
{0x11A45,0x11A45,13},
{0x11A47,0x11A47,8},
{0x11A51,0x11A5B,8},
{0x11A8A,0x11A99,8},
{0x11A9A,0x11A9C,11},
{0x11A9E,0x11AA0,13},
{0x11AA1,0x11AA2,11},
{0x11B00,0x11B09,13},
{0x11C2F,0x11C36,8},
{0x11C38,0x11C3F,8},
{0x11C41,0x11C45,11},
{0x11C50,0x11C59,26},
{0x11C70,0x11C70,13},
{0x11C71,0x11C71,14},
{0x11C92,0x11CA7,8},
{0x11CA9,0x11CB6,8},
{0x11D31,0x11D36,8},
{0x11D3A,0x11D3A,8},
{0x11D3C,0x11D3D,8},
{0x11D3F,0x11D45,8},
{0x11D47,0x11D47,8},
{0x11D50,0x11D59,26},
{0x11D8A,0x11D8E,8},
{0x11D90,0x11D91,8},
{0x11D93,0x11D97,8},
{0x11DA0,0x11DA9,26},
{0x11EF3,0x11EF6,8},
{0x11F00,0x11F01,8},
{0x11F03,0x11F03,8},
{0x11F34,0x11F3A,8},
{0x11F3E,0x11F42,8},
{0x11F43,0x11F44,11},
{0x11F45,0x11F4F,29},
{0x11F50,0x11F59,26},
{0x11FDD,0x11FE0,28},
{0x11FFF,0x11FFF,11},
{0x12470,0x12474,11},
{0x13258,0x1325A,19},
{0x1325B,0x1325D,15},
{0x13282,0x13282,15},
{0x13286,0x13286,19},
{0x13287,0x13287,15},
{0x13288,0x13288,19},
{0x13289,0x13289,15},
{0x13379,0x13379,19},
{0x1337A,0x1337B,15},
{0x13430,0x13436,10},
{0x13437,0x13437,19},
{0x13438,0x13438,15},
{0x13439,0x1343B,10},
{0x1343C,0x1343C,19},
{0x1343D,0x1343D,15},
{0x1343E,0x1343E,19},
{0x1343F,0x1343F,15},
{0x13440,0x13440,8},
{0x13447,0x13455,8},
{0x145CE,0x145CE,19},
{0x145CF,0x145CF,15},
{0x16A60,0x16A69,26},
{0x16A6E,0x16A6F,11},
{0x16AC0,0x16AC9,26},
{0x16AF0,0x16AF4,8},
{0x16AF5,0x16AF5,11},
{0x16B30,0x16B36,8},
{0x16B37,0x16B39,11},
{0x16B44,0x16B44,11},
{0x16B50,0x16B59,26},
{0x16E97,0x16E98,11},
{0x16F4F,0x16F4F,8},
{0x16F51,0x16F87,8},
{0x16F8F,0x16F92,8},
{0x16FE0,0x16FE3,21},
{0x16FE4,0x16FE4,10},
{0x16FF0,0x16FF1,8},
{0x17000,0x187F7,29},
{0x18800,0x18AFF,29},
{0x18D00,0x18D08,29},
{0x1B000,0x1B122,29},
{0x1B132,0x1B132,21},
{0x1B150,0x1B152,21},
{0x1B155,0x1B155,21},
{0x1B164,0x1B167,21},
{0x1B170,0x1B2FB,29},
{0x1BC9D,0x1BC9E,8},
{0x1BC9F,0x1BC9F,11},
{0x1BCA0,0x1BCA3,8},
{0x1CF00,0x1CF2D,8},
{0x1CF30,0x1CF46,8},
{0x1D165,0x1D169,8},
{0x1D16D,0x1D182,8},
{0x1D185,0x1D18B,8},
{0x1D1AA,0x1D1AD,8},
{0x1D242,0x1D244,8},
{0x1D7CE,0x1D7FF,26},
{0x1DA00,0x1DA36,8},
{0x1DA3B,0x1DA6C,8},
{0x1DA75,0x1DA75,8},
{0x1DA84,0x1DA84,8},
{0x1DA87,0x1DA8A,11},
{0x1DA9B,0x1DA9F,8},
{0x1DAA1,0x1DAAF,8},
{0x1E000,0x1E006,8},
{0x1E008,0x1E018,8},
{0x1E01B,0x1E021,8},
{0x1E023,0x1E024,8},
{0x1E026,0x1E02A,8},
{0x1E08F,0x1E08F,8},
{0x1E130,0x1E136,8},
{0x1E140,0x1E149,26},
{0x1E2AE,0x1E2AE,8},
{0x1E2EC,0x1E2EF,8},
{0x1E2F0,0x1E2F9,26},
{0x1E2FF,0x1E2FF,27},
{0x1E4EC,0x1E4EF,8},
{0x1E4F0,0x1E4F9,26},
{0x1E8D0,0x1E8D6,8},
{0x1E944,0x1E94A,8},
{0x1E950,0x1E959,26},
{0x1E95E,0x1E95F,19},
{0x1ECAC,0x1ECAC,28},
{0x1ECB0,0x1ECB0,28},
{0x1F000,0x1F0FF,29},
{0x1F10D,0x1F10F,29},
{0x1F16D,0x1F16F,29},
{0x1F1AD,0x1F1E5,29},
{0x1F1E6,0x1F1FF,37},
{0x1F200,0x1F384,29},
{0x1F385,0x1F385,30},
{0x1F386,0x1F39B,29},
{0x1F39E,0x1F3B4,29},
{0x1F3B7,0x1F3BB,29},
{0x1F3BD,0x1F3C1,29},
{0x1F3C2,0x1F3C4,30},
{0x1F3C5,0x1F3C6,29},
{0x1F3C7,0x1F3C7,30},
{0x1F3C8,0x1F3C9,29},
{0x1F3CA,0x1F3CC,30},
{0x1F3CD,0x1F3FA,29},
{0x1F3FB,0x1F3FF,31},
{0x1F400,0x1F441,29},
{0x1F442,0x1F443,30},
{0x1F444,0x1F445,29},
{0x1F446,0x1F450,30},
{0x1F451,0x1F465,29},
{0x1F466,0x1F478,30},
{0x1F479,0x1F47B,29},
{0x1F47C,0x1F47C,30},
{0x1F47D,0x1F480,29},
{0x1F481,0x1F483,30},
{0x1F484,0x1F484,29},
{0x1F485,0x1F487,30},
{0x1F488,0x1F48E,29},
{0x1F48F,0x1F48F,30},
{0x1F490,0x1F490,29},
{0x1F491,0x1F491,30},
{0x1F492,0x1F49F,29},
{0x1F4A1,0x1F4A1,29},
{0x1F4A3,0x1F4A3,29},
{0x1F4A5,0x1F4A9,29},
{0x1F4AA,0x1F4AA,30},
{0x1F4AB,0x1F4AE,29},
{0x1F4B0,0x1F4B0,29},
{0x1F4B3,0x1F4FF,29},
{0x1F507,0x1F516,29},
{0x1F525,0x1F531,29},
{0x1F54A,0x1F573,29},
{0x1F574,0x1F575,30},
{0x1F576,0x1F579,29},
{0x1F57A,0x1F57A,30},
{0x1F57B,0x1F58F,29},
{0x1F590,0x1F590,30},
{0x1F591,0x1F594,29},
{0x1F595,0x1F596,30},
{0x1F597,0x1F5D3,29},
{0x1F5DC,0x1F5F3,29},
{0x1F5FA,0x1F644,29},
{0x1F645,0x1F647,30},
{0x1F648,0x1F64A,29},
{0x1F64B,0x1F64F,30},
{0x1F676,0x1F678,20},
{0x1F679,0x1F67B,21},
{0x1F680,0x1F6A2,29},
{0x1F6A3,0x1F6A3,30},
{0x1F6A4,0x1F6B3,29},
{0x1F6B4,0x1F6B6,30},
{0x1F6B7,0x1F6BF,29},
{0x1F6C0,0x1F6C0,30},
{0x1F6C1,0x1F6CB,29},
{0x1F6CC,0x1F6CC,30},
{0x1F6CD,0x1F6FF,29},
{0x1F774,0x1F77F,29},
{0x1F7D5,0x1F7FF,29},
{0x1F80C,0x1F80F,29},
{0x1F848,0x1F84F,29},
{0x1F85A,0x1F85F,29},
{0x1F888,0x1F88F,29},
{0x1F8AE,0x1F8FF,29},
{0x1F90C,0x1F90C,30},
{0x1F90D,0x1F90E,29},
{0x1F90F,0x1F90F,30},
{0x1F910,0x1F917,29},
{0x1F918,0x1F91F,30},
{0x1F920,0x1F925,29},
{0x1F926,0x1F926,30},
{0x1F927,0x1F92F,29},
{0x1F930,0x1F939,30},
{0x1F93A,0x1F93B,29},
{0x1F93C,0x1F93E,30},
{0x1F93F,0x1F976,29},
{0x1F977,0x1F977,30},
{0x1F978,0x1F9B4,29},
{0x1F9B5,0x1F9B6,30},
{0x1F9B7,0x1F9B7,29},
{0x1F9B8,0x1F9B9,30},
{0x1F9BA,0x1F9BA,29},
{0x1F9BB,0x1F9BB,30},
{0x1F9BC,0x1F9CC,29},
{0x1F9CD,0x1F9CF,30},
{0x1F9D0,0x1F9D0,29},
{0x1F9D1,0x1F9DD,30},
{0x1F9DE,0x1F9FF,29},
{0x1FA54,0x1FAC2,29},
{0x1FAC3,0x1FAC5,30},
{0x1FAC6,0x1FAEF,29},
{0x1FAF0,0x1FAF8,30},
{0x1FAF9,0x1FAFF,29},
{0x1FBF0,0x1FBF9,26},
{0x1FC00,0x1FFFD,29},
{0x20000,0x2FFFD,29},
{0x30000,0x3FFFD,29},
{0xE0001,0xE0001,8},
{0xE0020,0xE007F,8},
{0xE0100,0xE01EF,8},
};
static const ur T_bc[] = {
{0x0,0x8,9},
{0x9,0x9,11},
{0xA,0xA,10},
{0xB,0xB,11},
{0xC,0xC,12},
{0xD,0xD,10},
{0xE,0x1B,9},
{0x1C,0x1E,10},
{0x1F,0x1F,11},
{0x20,0x20,12},
{0x21,0x22,13},
{0x23,0x25,5},
{0x26,0x2A,13},
{0x2B,0x2B,4},
{0x2C,0x2C,7},
{0x2D,0x2D,4},
{0x2E,0x2F,7},
{0x30,0x39,3},
{0x3A,0x3A,7},
{0x3B,0x40,13},
{0x5B,0x60,13},
{0x7B,0x7E,13},
{0x7F,0x84,9},
{0x85,0x85,10},
{0x86,0x9F,9},
{0xA0,0xA0,7},
{0xA1,0xA1,13},
{0xA2,0xA5,5},
{0xA6,0xA9,13},
{0xAB,0xAC,13},
{0xAD,0xAD,9},
{0xAE,0xAF,13},
{0xB0,0xB1,5},
{0xB2,0xB3,3},
{0xB4,0xB4,13},
{0xB6,0xB8,13},
{0xB9,0xB9,3},
{0xBB,0xBF,13},
{0xD7,0xD7,13},
{0xF7,0xF7,13},
{0x2B9,0x2BA,13},
{0x2C2,0x2CF,13},
{0x2D2,0x2DF,13},
{0x2E5,0x2ED,13},
{0x2EF,0x2FF,13},
{0x300,0x36F,8},
{0x374,0x375,13},
{0x37E,0x37E,13},
{0x384,0x385,13},
{0x387,0x387,13},
{0x3F6,0x3F6,13},
{0x483,0x489,8},
{0x58A,0x58A,13},
{0x58D,0x58E,13},
{0x58F,0x58F,5},
{0x590,0x590,1},
{0x591,0x5BD,8},
{0x5BE,0x5BE,1},
{0x5BF,0x5BF,8},
{0x5C0,0x5C0,1},
{0x5C1,0x5C2,8},
{0x5C3,0x5C3,1},
{0x5C4,0x5C5,8},
{0x5C6,0x5C6,1},
{0x5C7,0x5C7,8},
{0x5C8,0x5FF,1},
{0x600,0x605,6},
{0x606,0x607,13},
{0x608,0x608,2},
{0x609,0x60A,5},
{0x60B,0x60B,2},
{0x60C,0x60C,7},
{0x60D,0x60D,2},
{0x60E,0x60F,13},
{0x610,0x61A,8},
{0x61B,0x64A,2},
{0x64B,0x65F,8},
{0x660,0x669,6},
{0x66A,0x66A,5},
{0x66B,0x66C,6},
{0x66D,0x66F,2},
{0x670,0x670,8},
{0x671,0x6D5,2},
{0x6D6,0x6DC,8},
{0x6DD,0x6DD,6},
{0x6DE,0x6DE,13},
{0x6DF,0x6E4,8},
{0x6E5,0x6E6,2},
{0x6E7,0x6E8,8},
{0x6E9,0x6E9,13},
{0x6EA,0x6ED,8},
{0x6EE,0x6EF,2},
{0x6F0,0x6F9,3},
{0x6FA,0x710,2},
{0x711,0x711,8},
{0x712,0x72F,2},
{0x730,0x74A,8},
{0x74B,0x7A5,2},
{0x7A6,0x7B0,8},
{0x7B1,0x7BF,2},
{0x7C0,0x7EA,1},
{0x7EB,0x7F3,8},
{0x7F4,0x7F5,1},
{0x7F6,0x7F9,13},
{0x7FA,0x7FC,1},
{0x7FD,0x7FD,8},
{0x7FE,0x815,1},
{0x816,0x819,8},
{0x81A,0x81A,1},
{0x81B,0x823,8},
{0x824,0x824,1},
{0x825,0x827,8},
{0x828,0x828,1},
{0x829,0x82D,8},
{0x82E,0x858,1},
{0x859,0x85B,8},
{0x85C,0x85F,1},
{0x860,0x88F,2},
{0x890,0x891,6},
{0x892,0x897,2},
{0x898,0x89F,8},
{0x8A0,0x8C9,2},
{0x8CA,0x8E1,8},
{0x8E2,0x8E2,6},
{0x8E3,0x902,8},
{0x93A,0x93A,8},
{0x93C,0x93C,8},
{0x941,0x948,8},
{0x94D,0x94D,8},
{0x951,0x957,8},
{0x962,0x963,8},
{0x981,0x981,8},
{0x9BC,0x9BC,8},
{0x9C1,0x9C4,8},
{0x9CD,0x9CD,8},
{0x9E2,0x9E3,8},
{0x9F2,0x9F3,5},
{0x9FB,0x9FB,5},
{0x9FE,0x9FE,8},
{0xA01,0xA02,8},
{0xA3C,0xA3C,8},
{0xA41,0xA42,8},
{0xA47,0xA48,8},
{0xA4B,0xA4D,8},
{0xA51,0xA51,8},
{0xA70,0xA71,8},
{0xA75,0xA75,8},
{0xA81,0xA82,8},
{0xABC,0xABC,8},
{0xAC1,0xAC5,8},
{0xAC7,0xAC8,8},
{0xACD,0xACD,8},
{0xAE2,0xAE3,8},
{0xAF1,0xAF1,5},
{0xAFA,0xAFF,8},
{0xB01,0xB01,8},
{0xB3C,0xB3C,8},
{0xB3F,0xB3F,8},
{0xB41,0xB44,8},
{0xB4D,0xB4D,8},
{0xB55,0xB56,8},
{0xB62,0xB63,8},
{0xB82,0xB82,8},
{0xBC0,0xBC0,8},
{0xBCD,0xBCD,8},
{0xBF3,0xBF8,13},
{0xBF9,0xBF9,5},
{0xBFA,0xBFA,13},
{0xC00,0xC00,8},
{0xC04,0xC04,8},
{0xC3C,0xC3C,8},
{0xC3E,0xC40,8},
{0xC46,0xC48,8},
{0xC4A,0xC4D,8},
{0xC55,0xC56,8},
{0xC62,0xC63,8},
{0xC78,0xC7E,13},
{0xC81,0xC81,8},
{0xCBC,0xCBC,8},
{0xCCC,0xCCD,8},
{0xCE2,0xCE3,8},
{0xD00,0xD01,8},
{0xD3B,0xD3C,8},
{0xD41,0xD44,8},
{0xD4D,0xD4D,8},
{0xD62,0xD63,8},
{0xD81,0xD81,8},
{0xDCA,0xDCA,8},
{0xDD2,0xDD4,8},
{0xDD6,0xDD6,8},
{0xE31,0xE31,8},
{0xE34,0xE3A,8},
{0xE3F,0xE3F,5},
{0xE47,0xE4E,8},
{0xEB1,0xEB1,8},
{0xEB4,0xEBC,8},
{0xEC8,0xECE,8},
{0xF18,0xF19,8},
{0xF35,0xF35,8},
{0xF37,0xF37,8},
{0xF39,0xF39,8},
{0xF3A,0xF3D,13},
{0xF71,0xF7E,8},
{0xF80,0xF84,8},
{0xF86,0xF87,8},
{0xF8D,0xF97,8},
{0xF99,0xFBC,8},
{0xFC6,0xFC6,8},
{0x102D,0x1030,8},
{0x1032,0x1037,8},
{0x1039,0x103A,8},
{0x103D,0x103E,8},
{0x1058,0x1059,8},
{0x105E,0x1060,8},
{0x1071,0x1074,8},
{0x1082,0x1082,8},
{0x1085,0x1086,8},
{0x108D,0x108D,8},
{0x109D,0x109D,8},
{0x135D,0x135F,8},
{0x1390,0x1399,13},
{0x1400,0x1400,13},
{0x1680,0x1680,12},
{0x169B,0x169C,13},
{0x1712,0x1714,8},
{0x1732,0x1733,8},
{0x1752,0x1753,8},
{0x1772,0x1773,8},
{0x17B4,0x17B5,8},
{0x17B7,0x17BD,8},
{0x17C6,0x17C6,8},
{0x17C9,0x17D3,8},
{0x17DB,0x17DB,5},
{0x17DD,0x17DD,8},
{0x17F0,0x17F9,13},
{0x1800,0x180A,13},
{0x180B,0x180D,8},
{0x180E,0x180E,9},
{0x180F,0x180F,8},
{0x1885,0x1886,8},
{0x18A9,0x18A9,8},
{0x1920,0x1922,8},
{0x1927,0x1928,8},
{0x1932,0x1932,8},
{0x1939,0x193B,8},
{0x1940,0x1940,13},
{0x1944,0x1945,13},
{0x19DE,0x19FF,13},
{0x1A17,0x1A18,8},
{0x1A1B,0x1A1B,8},
{0x1A56,0x1A56,8},
{0x1A58,0x1A5E,8},
{0x1A60,0x1A60,8},
{0x1A62,0x1A62,8},
{0x1A65,0x1A6C,8},
{0x1A73,0x1A7C,8},
{0x1A7F,0x1A7F,8},
{0x1AB0,0x1ACE,8},
{0x1B00,0x1B03,8},
{0x1B34,0x1B34,8},
{0x1B36,0x1B3A,8},
{0x1B3C,0x1B3C,8},
{0x1B42,0x1B42,8},
{0x1B6B,0x1B73,8},
{0x1B80,0x1B81,8},
{0x1BA2,0x1BA5,8},
{0x1BA8,0x1BA9,8},
{0x1BAB,0x1BAD,8},
{0x1BE6,0x1BE6,8},
{0x1BE8,0x1BE9,8},
{0x1BED,0x1BED,8},
{0x1BEF,0x1BF1,8},
{0x1C2C,0x1C33,8},
{0x1C36,0x1C37,8},
{0x1CD0,0x1CD2,8},
{0x1CD4,0x1CE0,8},
{0x1CE2,0x1CE8,8},
{0x1CED,0x1CED,8},
{0x1CF4,0x1CF4,8},
{0x1CF8,0x1CF9,8},
{0x1DC0,0x1DFF,8},
{0x1FBD,0x1FBD,13},
{0x1FBF,0x1FC1,13},
{0x1FCD,0x1FCF,13},
{0x1FDD,0x1FDF,13},
{0x1FED,0x1FEF,13},
{0x1FFD,0x1FFE,13},
{0x2000,0x200A,12},
{0x200B,0x200D,9},
{0x200F,0x200F,1},
{0x2010,0x2027,13},
{0x2028,0x2028,12},
{0x2029,0x2029,10},
{0x202A,0x202A,14},
{0x202B,0x202B,16},
{0x202C,0x202C,18},
{0x202D,0x202D,15},
{0x202E,0x202E,17},
{0x202F,0x202F,7},
{0x2030,0x2034,5},
{0x2035,0x2043,13},
{0x2044,0x2044,7},
{0x2045,0x205E,13},
{0x205F,0x205F,12},
{0x2060,0x2065,9},
{0x2066,0x2066,19},
{0x2067,0x2067,20},
{0x2068,0x2068,21},
{0x2069,0x2069,22},
{0x206A,0x206F,9},
{0x2070,0x2070,3},
{0x2074,0x2079,3},
{0x207A,0x207B,4},
{0x207C,0x207E,13},
{0x2080,0x2089,3},
{0x208A,0x208B,4},
{0x208C,0x208E,13},
{0x20A0,0x20CF,5},
{0x20D0,0x20F0,8},
{0x2100,0x2101,13},
{0x2103,0x2106,13},
{0x2108,0x2109,13},
{0x2114,0x2114,13},
{0x2116,0x2118,13},
{0x211E,0x2123,13},
{0x2125,0x2125,13},
{0x2127,0x2127,13},
{0x2129,0x2129,13},
{0x212E,0x212E,5},
{0x213A,0x213B,13},
{0x2140,0x2144,13},
{0x214A,0x214D,13},
{0x2150,0x215F,13},
{0x2189,0x218B,13},
{0x2190,0x2211,13},
{0x2212,0x2212,4},
{0x2213,0x2213,5},
{0x2214,0x2335,13},
{0x237B,0x2394,13},
{0x2396,0x2426,13},
{0x2440,0x244A,13},
{0x2460,0x2487,13},
{0x2488,0x249B,3},
{0x24EA,0x26AB,13},
{0x26AD,0x27FF,13},
{0x2900,0x2B73,13},
{0x2B76,0x2B95,13},
{0x2B97,0x2BFF,13},
{0x2CE5,0x2CEA,13},
{0x2CEF,0x2CF1,8},
{0x2CF9,0x2CFF,13},
{0x2D7F,0x2D7F,8},
{0x2DE0,0x2DFF,8},
{0x2E00,0x2E5D,13},
{0x2E80,0x2E99,13},
{0x2E9B,0x2EF3,13},
{0x2F00,0x2FD5,13},
{0x2FF0,0x2FFB,13},
{0x3000,0x3000,12},
{0x3001,0x3004,13},
{0x3008,0x3020,13},
{0x302A,0x302D,8},
{0x3030,0x3030,13},
{0x3036,0x3037,13},
{0x303D,0x303F,13},
{0x3099,0x309A,8},
{0x309B,0x309C,13},
{0x30A0,0x30A0,13},
{0x30FB,0x30FB,13},
{0x31C0,0x31E3,13},
{0x321D,0x321E,13},
{0x3250,0x325F,13},
{0x327C,0x327E,13},
{0x32B1,0x32BF,13},
{0x32CC,0x32CF,13},
{0x3377,0x337A,13},
{0x33DE,0x33DF,13},
{0x33FF,0x33FF,13},
{0x4DC0,0x4DFF,13},
{0xA490,0xA4C6,13},
{0xA60D,0xA60F,13},
{0xA66F,0xA672,8},
{0xA673,0xA673,13},
{0xA674,0xA67D,8},
{0xA67E,0xA67F,13},
{0xA69E,0xA69F,8},
{0xA6F0,0xA6F1,8},
{0xA700,0xA721,13},
{0xA788,0xA788,13},
{0xA802,0xA802,8},
{0xA806,0xA806,8},
{0xA80B,0xA80B,8},
{0xA825,0xA826,8},
{0xA828,0xA82B,13},
{0xA82C,0xA82C,8},
{0xA838,0xA839,5},
{0xA874,0xA877,13},
{0xA8C4,0xA8C5,8},
{0xA8E0,0xA8F1,8},
{0xA8FF,0xA8FF,8},
{0xA926,0xA92D,8},
{0xA947,0xA951,8},
{0xA980,0xA982,8},
{0xA9B3,0xA9B3,8},
{0xA9B6,0xA9B9,8},
{0xA9BC,0xA9BD,8},
{0xA9E5,0xA9E5,8},
{0xAA29,0xAA2E,8},
{0xAA31,0xAA32,8},
{0xAA35,0xAA36,8},
{0xAA43,0xAA43,8},
{0xAA4C,0xAA4C,8},
{0xAA7C,0xAA7C,8},
{0xAAB0,0xAAB0,8},
{0xAAB2,0xAAB4,8},
{0xAAB7,0xAAB8,8},
{0xAABE,0xAABF,8},
{0xAAC1,0xAAC1,8},
{0xAAEC,0xAAED,8},
{0xAAF6,0xAAF6,8},
{0xAB6A,0xAB6B,13},
{0xABE5,0xABE5,8},
{0xABE8,0xABE8,8},
{0xABED,0xABED,8},
{0xFB1D,0xFB1D,1},
{0xFB1E,0xFB1E,8},
{0xFB1F,0xFB28,1},
{0xFB29,0xFB29,4},
{0xFB2A,0xFB4F,1},
{0xFB50,0xFD3D,2},
{0xFD3E,0xFD4F,13},
{0xFD50,0xFDCE,2},
{0xFDCF,0xFDCF,13},
{0xFDD0,0xFDEF,9},
{0xFDF0,0xFDFC,2},
{0xFDFD,0xFDFF,13},
{0xFE00,0xFE0F,8},
{0xFE10,0xFE19,13},
{0xFE20,0xFE2F,8},
{0xFE30,0xFE4F,13},
{0xFE50,0xFE50,7},
{0xFE51,0xFE51,13},
{0xFE52,0xFE52,7},
{0xFE54,0xFE54,13},
{0xFE55,0xFE55,7},
{0xFE56,0xFE5E,13},
{0xFE5F,0xFE5F,5},
{0xFE60,0xFE61,13},
{0xFE62,0xFE63,4},
{0xFE64,0xFE66,13},
{0xFE68,0xFE68,13},
{0xFE69,0xFE6A,5},
{0xFE6B,0xFE6B,13},
{0xFE70,0xFEFE,2},
{0xFEFF,0xFEFF,9},
{0xFF01,0xFF02,13},
{0xFF03,0xFF05,5},
{0xFF06,0xFF0A,13},
{0xFF0B,0xFF0B,4},
{0xFF0C,0xFF0C,7},
{0xFF0D,0xFF0D,4},
{0xFF0E,0xFF0F,7},
{0xFF10,0xFF19,3},
{0xFF1A,0xFF1A,7},
{0xFF1B,0xFF20,13},
{0xFF3B,0xFF40,13},
{0xFF5B,0xFF65,13},
{0xFFE0,0xFFE1,5},
{0xFFE2,0xFFE4,13},
{0xFFE5,0xFFE6,5},
{0xFFE8,0xFFEE,13},
{0xFFF0,0xFFF8,9},
{0xFFF9,0xFFFD,13},
{0xFFFE,0xFFFF,9},
{0x10101,0x10101,13},
{0x10140,0x1018C,13},
{0x10190,0x1019C,13},
{0x101A0,0x101A0,13},
{0x101FD,0x101FD,8},
{0x102E0,0x102E0,8},
{0x102E1,0x102FB,3},
{0x10376,0x1037A,8},
{0x10800,0x1091E,1},
{0x1091F,0x1091F,13},
{0x10920,0x10A00,1},
{0x10A01,0x10A03,8},
{0x10A04,0x10A04,1},
{0x10A05,0x10A06,8},
{0x10A07,0x10A0B,1},
{0x10A0C,0x10A0F,8},
{0x10A10,0x10A37,1},
{0x10A38,0x10A3A,8},
{0x10A3B,0x10A3E,1},
{0x10A3F,0x10A3F,8},
{0x10A40,0x10AE4,1},
{0x10AE5,0x10AE6,8},
{0x10AE7,0x10B38,1},
{0x10B39,0x10B3F,13},
{0x10B40,0x10CFF,1},
{0x10D00,0x10D23,2},
{0x10D24,0x10D27,8},
{0x10D28,0x10D2F,2},
{0x10D30,0x10D39,6},
{0x10D3A,0x10D3F,2},
{0x10D40,0x10E5F,1},
{0x10E60,0x10E7E,6},
{0x10E7F,0x10EAA,1},
{0x10EAB,0x10EAC,8},
{0x10EAD,0x10EBF,1},
{0x10EC0,0x10EFC,2},
{0x10EFD,0x10EFF,8},
{0x10F00,0x10F2F,1},
{0x10F30,0x10F45,2},
{0x10F46,0x10F50,8},
{0x10F51,0x10F6F,2},
{0x10F70,0x10F81,1},
{0x10F82,0x10F85,8},
{0x10F86,0x10FFF,1},
{0x11001,0x11001,8},
{0x11038,0x11046,8},
{0x11052,0x11065,13},
{0x11070,0x11070,8},
{0x11073,0x11074,8},
{0x1107F,0x11081,8},
{0x110B3,0x110B6,8},
{0x110B9,0x110BA,8},
{0x110C2,0x110C2,8},
{0x11100,0x11102,8},
{0x11127,0x1112B,8},
{0x1112D,0x11134,8},
{0x11173,0x11173,8},
{0x11180,0x11181,8},
{0x111B6,0x111BE,8},
{0x111C9,0x111CC,8},
{0x111CF,0x111CF,8},
{0x1122F,0x11231,8},
{0x11234,0x11234,8},
{0x11236,0x11237,8},
{0x1123E,0x1123E,8},
{0x11241,0x11241,8},
{0x112DF,0x112DF,8},
{0x112E3,0x112EA,8},
{0x11300,0x11301,8},
{0x1133B,0x1133C,8},
{0x11340,0x11340,8},
{0x11366,0x1136C,8},
{0x11370,0x11374,8},
{0x11438,0x1143F,8},
{0x11442,0x11444,8},
{0x11446,0x11446,8},
{0x1145E,0x1145E,8},
{0x114B3,0x114B8,8},
{0x114BA,0x114BA,8},
{0x114BF,0x114C0,8},
{0x114C2,0x114C3,8},
{0x115B2,0x115B5,8},
{0x115BC,0x115BD,8},
{0x115BF,0x115C0,8},
{0x115DC,0x115DD,8},
{0x11633,0x1163A,8},
{0x1163D,0x1163D,8},
{0x1163F,0x11640,8},
{0x11660,0x1166C,13},
{0x116AB,0x116AB,8},
{0x116AD,0x116AD,8},
{0x116B0,0x116B5,8},
{0x116B7,0x116B7,8},
{0x1171D,0x1171F,8},
{0x11722,0x11725,8},
{0x11727,0x1172B,8},
{0x1182F,0x11837,8},
{0x11839,0x1183A,8},
{0x1193B,0x1193C,8},
{0x1193E,0x1193E,8},
{0x11943,0x11943,8},
{0x119D4,0x119D7,8},
{0x119DA,0x119DB,8},
{0x119E0,0x119E0,8},
{0x11A01,0x11A06,8},
{0x11A09,0x11A0A,8},
{0x11A33,0x11A38,8},
{0x11A3B,0x11A3E,8},
{0x11A47,0x11A47,8},
{0x11A51,0x11A56,8},
{0x11A59,0x11A5B,8},
{0x11A8A,0x11A96,8},
{0x11A98,0x11A99,8},
{0x11C30,0x11C36,8},
{0x11C38,0x11C3D,8},
{0x11C92,0x11CA7,8},
{0x11CAA,0x11CB0,8},
{0x11CB2,0x11CB3,8},
{0x11CB5,0x11CB6,8},
{0x11D31,0x11D36,8},
{0x11D3A,0x11D3A,8},
{0x11D3C,0x11D3D,8},
{0x11D3F,0x11D45,8},
{0x11D47,0x11D47,8},
{0x11D90,0x11D91,8},
{0x11D95,0x11D95,8},
{0x11D97,0x11D97,8},
{0x11EF3,0x11EF4,8},
{0x11F00,0x11F01,8},
{0x11F36,0x11F3A,8},
{0x11F40,0x11F40,8},
{0x11F42,0x11F42,8},
{0x11FD5,0x11FDC,13},
{0x11FDD,0x11FE0,5},
{0x11FE1,0x11FF1,13},
{0x13440,0x13440,8},
{0x13447,0x13455,8},
{0x16AF0,0x16AF4,8},
{0x16B30,0x16B36,8},
{0x16F4F,0x16F4F,8},
{0x16F8F,0x16F92,8},
{0x16FE2,0x16FE2,13},
{0x16FE4,0x16FE4,8},
{0x1BC9D,0x1BC9E,8},
{0x1BCA0,0x1BCA3,9},
{0x1CF00,0x1CF2D,8},
{0x1CF30,0x1CF46,8},
{0x1D167,0x1D169,8},
{0x1D173,0x1D17A,9},
{0x1D17B,0x1D182,8},
{0x1D185,0x1D18B,8},
{0x1D1AA,0x1D1AD,8},
{0x1D1E9,0x1D1EA,13},
{0x1D200,0x1D241,13},
{0x1D242,0x1D244,8},
{0x1D245,0x1D245,13},
{0x1D300,0x1D356,13},
{0x1D6DB,0x1D6DB,13},
{0x1D715,0x1D715,13},
{0x1D74F,0x1D74F,13},
{0x1D789,0x1D789,13},
{0x1D7C3,0x1D7C3,13},
{0x1D7CE,0x1D7FF,3},
{0x1DA00,0x1DA36,8},
{0x1DA3B,0x1DA6C,8},
{0x1DA75,0x1DA75,8},
{0x1DA84,0x1DA84,8},
{0x1DA9B,0x1DA9F,8},
{0x1DAA1,0x1DAAF,8},
{0x1E000,0x1E006,8},
{0x1E008,0x1E018,8},
{0x1E01B,0x1E021,8},
{0x1E023,0x1E024,8},
{0x1E026,0x1E02A,8},
{0x1E08F,0x1E08F,8},
{0x1E130,0x1E136,8},
{0x1E2AE,0x1E2AE,8},
{0x1E2EC,0x1E2EF,8},
{0x1E2FF,0x1E2FF,5},
{0x1E4EC,0x1E4EF,8},
{0x1E800,0x1E8CF,1},
{0x1E8D0,0x1E8D6,8},
{0x1E8D7,0x1E943,1},
{0x1E944,0x1E94A,8},
{0x1E94B,0x1EC6F,1},
{0x1EC70,0x1ECBF,2},
{0x1ECC0,0x1ECFF,1},
{0x1ED00,0x1ED4F,2},
{0x1ED50,0x1EDFF,1},
{0x1EE00,0x1EEEF,2},
{0x1EEF0,0x1EEF1,13},
{0x1EEF2,0x1EEFF,2},
{0x1EF00,0x1EFFF,1},
{0x1F000,0x1F02B,13},
{0x1F030,0x1F093,13},
{0x1F0A0,0x1F0AE,13},
{0x1F0B1,0x1F0BF,13},
{0x1F0C1,0x1F0CF,13},
{0x1F0D1,0x1F0F5,13},
{0x1F100,0x1F10A,3},
{0x1F10B,0x1F10F,13},
{0x1F12F,0x1F12F,13},
{0x1F16A,0x1F16F,13},
{0x1F1AD,0x1F1AD,13},
{0x1F260,0x1F265,13},
{0x1F300,0x1F6D7,13},
{0x1F6DC,0x1F6EC,13},
{0x1F6F0,0x1F6FC,13},
{0x1F700,0x1F776,13},
{0x1F77B,0x1F7D9,13},
{0x1F7E0,0x1F7EB,13},
{0x1F7F0,0x1F7F0,13},
{0x1F800,0x1F80B,13},
{0x1F810,0x1F847,13},
{0x1F850,0x1F859,13},
{0x1F860,0x1F887,13},
{0x1F890,0x1F8AD,13},
{0x1F8B0,0x1F8B1,13},
{0x1F900,0x1FA53,13},
{0x1FA60,0x1FA6D,13},
{0x1FA70,0x1FA7C,13},
{0x1FA80,0x1FA88,13},
{0x1FA90,0x1FABD,13},
{0x1FABF,0x1FAC5,13},
{0x1FACE,0x1FADB,13},
{0x1FAE0,0x1FAE8,13},
{0x1FAF0,0x1FAF8,13},
{0x1FB00,0x1FB92,13},
{0x1FB94,0x1FBCA,13},
{0x1FBF0,0x1FBF9,3},
{0x1FFFE,0x1FFFF,9},
{0x2FFFE,0x2FFFF,9},
{0x3FFFE,0x3FFFF,9},
{0x4FFFE,0x4FFFF,9},
{0x5FFFE,0x5FFFF,9},
{0x6FFFE,0x6FFFF,9},
{0x7FFFE,0x7FFFF,9},
{0x8FFFE,0x8FFFF,9},
{0x9FFFE,0x9FFFF,9},
{0xAFFFE,0xAFFFF,9},
{0xBFFFE,0xBFFFF,9},
{0xCFFFE,0xCFFFF,9},
{0xDFFFE,0xE00FF,9},
{0xE0100,0xE01EF,8},
{0xE01F0,0xE0FFF,9},
{0xEFFFE,0xEFFFF,9},
{0xFFFFE,0xFFFFF,9},
{0x10FFFE,0x10FFFF,9},
};
static const ur T_fl[] = {
{0x27,0x27,2},
{0x2E,0x2E,2},
{0x3A,0x3A,2},
{0x41,0x5A,1},
{0x5E,0x5E,2},
{0x60,0x60,2},
{0x61,0x7A,1},
{0xA8,0xA8,2},
{0xA9,0xA9,4},
{0xAA,0xAA,1},
{0xAD,0xAD,2},
{0xAE,0xAE,4},
{0xAF,0xAF,2},
{0xB4,0xB4,2},
{0xB5,0xB5,1},
{0xB7,0xB8,2},
{0xBA,0xBA,1},
{0xC0,0xD6,1},
{0xD8,0xF6,1},
{0xF8,0x1BA,1},
{0x1BC,0x1BF,1},
{0x1C4,0x293,1},
{0x295,0x2AF,1},
{0x2B0,0x2B8,3},
{0x2B9,0x2BF,2},
{0x2C0,0x2C1,3},
{0x2C2,0x2DF,2},
{0x2E0,0x2E4,3},
{0x2E5,0x344,2},
{0x345,0x345,3},
{0x346,0x36F,2},
{0x370,0x373,1},
{0x374,0x375,2},
{0x376,0x377,1},
{0x378,0x379,8},
{0x37A,0x37A,3},
{0x37B,0x37D,1},
{0x37F,0x37F,1},
{0x380,0x383,8},
{0x384,0x385,2},
{0x386,0x386,1},
{0x387,0x387,2},
{0x388,0x38A,1},
{0x38B,0x38B,8},
{0x38C,0x38C,1},
{0x38D,0x38D,8},
{0x38E,0x3A1,1},
{0x3A2,0x3A2,8},
{0x3A3,0x3F5,1},
{0x3F7,0x481,1},
{0x483,0x489,2},
{0x48A,0x52F,1},
{0x530,0x530,8},
{0x531,0x556,1},
{0x557,0x558,8},
{0x559,0x559,2},
{0x55F,0x55F,2},
{0x560,0x588,1},
{0x58B,0x58C,8},
{0x590,0x590,8},
{0x591,0x5BD,2},
{0x5BF,0x5BF,2},
{0x5C1,0x5C2,2},
{0x5C4,0x5C5,2},
{0x5C7,0x5C7,2},
{0x5C8,0x5CF,8},
{0x5EB,0x5EE,8},
{0x5F4,0x5F4,2},
{0x5F5,0x5FF,8},
{0x600,0x605,2},
{0x610,0x61A,2},
{0x61C,0x61C,2},
{0x640,0x640,2},
{0x64B,0x65F,2},
{0x670,0x670,2},
{0x6D6,0x6DD,2},
{0x6DF,0x6E8,2},
{0x6EA,0x6ED,2},
{0x70E,0x70E,8},
{0x70F,0x70F,2},
{0x711,0x711,2},
{0x730,0x74A,2},
{0x74B,0x74C,8},
{0x7A6,0x7B0,2},
{0x7B2,0x7BF,8},
{0x7EB,0x7F5,2},
{0x7FA,0x7FA,2},
{0x7FB,0x7FC,8},
{0x7FD,0x7FD,2},
{0x816,0x82D,2},
{0x82E,0x82F,8},
{0x83F,0x83F,8},
{0x859,0x85B,2},
{0x85C,0x85D,8},
{0x85F,0x85F,8},
{0x86B,0x86F,8},
{0x888,0x888,2},
{0x88F,0x88F,8},
{0x890,0x891,2},
{0x892,0x897,8},
{0x898,0x89F,2},
{0x8C9,0x902,2},
{0x93A,0x93A,2},
{0x93C,0x93C,2},
{0x941,0x948,2},
{0x94D,0x94D,2},
{0x951,0x957,2},
{0x962,0x963,2},
{0x971,0x971,2},
{0x981,0x981,2},
{0x984,0x984,8},
{0x98D,0x98E,8},
{0x991,0x992,8},
{0x9A9,0x9A9,8},
{0x9B1,0x9B1,8},
{0x9B3,0x9B5,8},
{0x9BA,0x9BB,8},
{0x9BC,0x9BC,2},
{0x9C1,0x9C4,2},
{0x9C5,0x9C6,8},
{0x9C9,0x9CA,8},
{0x9CD,0x9CD,2},
{0x9CF,0x9D6,8},
{0x9D8,0x9DB,8},
{0x9DE,0x9DE,8},
{0x9E2,0x9E3,2},
{0x9E4,0x9E5,8},
{0x9FE,0x9FE,2},
{0x9FF,0xA00,8},
{0xA01,0xA02,2},
{0xA04,0xA04,8},
{0xA0B,0xA0E,8},
{0xA11,0xA12,8},
{0xA29,0xA29,8},
{0xA31,0xA31,8},
{0xA34,0xA34,8},
{0xA37,0xA37,8},
{0xA3A,0xA3B,8},
{0xA3C,0xA3C,2},
{0xA3D,0xA3D,8},
{0xA41,0xA42,2},
{0xA43,0xA46,8},
{0xA47,0xA48,2},
{0xA49,0xA4A,8},
{0xA4B,0xA4D,2},
{0xA4E,0xA50,8},
{0xA51,0xA51,2},
{0xA52,0xA58,8},
{0xA5D,0xA5D,8},
{0xA5F,0xA65,8},
{0xA70,0xA71,2},
{0xA75,0xA75,2},
{0xA77,0xA80,8},
{0xA81,0xA82,2},
{0xA84,0xA84,8},
{0xA8E,0xA8E,8},
{0xA92,0xA92,8},
{0xAA9,0xAA9,8},
{0xAB1,0xAB1,8},
{0xAB4,0xAB4,8},
{0xABA,0xABB,8},
{0xABC,0xABC,2},
{0xAC1,0xAC5,2},
{0xAC6,0xAC6,8},
{0xAC7,0xAC8,2},
{0xACA,0xACA,8},
{0xACD,0xACD,2},
{0xACE,0xACF,8},
{0xAD1,0xADF,8},
{0xAE2,0xAE3,2},
{0xAE4,0xAE5,8},
{0xAF2,0xAF8,8},
{0xAFA,0xAFF,2},
{0xB00,0xB00,8},
{0xB01,0xB01,2},
{0xB04,0xB04,8},
{0xB0D,0xB0E,8},
{0xB11,0xB12,8},
{0xB29,0xB29,8},
{0xB31,0xB31,8},
{0xB34,0xB34,8},
{0xB3A,0xB3B,8},
{0xB3C,0xB3C,2},
{0xB3F,0xB3F,2},
{0xB41,0xB44,2},
{0xB45,0xB46,8},
{0xB49,0xB4A,8},
{0xB4D,0xB4D,2},
{0xB4E,0xB54,8},
{0xB55,0xB56,2},
{0xB58,0xB5B,8},
{0xB5E,0xB5E,8},
{0xB62,0xB63,2},
{0xB64,0xB65,8},
{0xB78,0xB81,8},
{0xB82,0xB82,2},
{0xB84,0xB84,8},
{0xB8B,0xB8D,8},
{0xB91,0xB91,8},
{0xB96,0xB98,8},
{0xB9B,0xB9B,8},
{0xB9D,0xB9D,8},
{0xBA0,0xBA2,8},
{0xBA5,0xBA7,8},
{0xBAB,0xBAD,8},
{0xBBA,0xBBD,8},
{0xBC0,0xBC0,2},
{0xBC3,0xBC5,8},
{0xBC9,0xBC9,8},
{0xBCD,0xBCD,2},
{0xBCE,0xBCF,8},
{0xBD1,0xBD6,8},
{0xBD8,0xBE5,8},
{0xBFB,0xBFF,8},
{0xC00,0xC00,2},
{0xC04,0xC04,2},
{0xC0D,0xC0D,8},
{0xC11,0xC11,8},
{0xC29,0xC29,8},
{0xC3A,0xC3B,8},
{0xC3C,0xC3C,2},
{0xC3E,0xC40,2},
{0xC45,0xC45,8},
{0xC46,0xC48,2},
{0xC49,0xC49,8},
{0xC4A,0xC4D,2},
{0xC4E,0xC54,8},
{0xC55,0xC56,2},
{0xC57,0xC57,8},
{0xC5B,0xC5C,8},
{0xC5E,0xC5F,8},
{0xC62,0xC63,2},
{0xC64,0xC65,8},
{0xC70,0xC76,8},
{0xC81,0xC81,2},
{0xC8D,0xC8D,8},
{0xC91,0xC91,8},
{0xCA9,0xCA9,8},
{0xCB4,0xCB4,8},
{0xCBA,0xCBB,8},
{0xCBC,0xCBC,2},
{0xCBF,0xCBF,2},
{0xCC5,0xCC5,8},
{0xCC6,0xCC6,2},
{0xCC9,0xCC9,8},
{0xCCC,0xCCD,2},
{0xCCE,0xCD4,8},
{0xCD7,0xCDC,8},
{0xCDF,0xCDF,8},
{0xCE2,0xCE3,2},
{0xCE4,0xCE5,8},
{0xCF0,0xCF0,8},
{0xCF4,0xCFF,8},
{0xD00,0xD01,2},
{0xD0D,0xD0D,8},
{0xD11,0xD11,8},
{0xD3B,0xD3C,2},
{0xD41,0xD44,2},
{0xD45,0xD45,8},
{0xD49,0xD49,8},
{0xD4D,0xD4D,2},
{0xD50,0xD53,8},
{0xD62,0xD63,2},
{0xD64,0xD65,8},
{0xD80,0xD80,8},
{0xD81,0xD81,2},
{0xD84,0xD84,8},
{0xD97,0xD99,8},
{0xDB2,0xDB2,8},
{0xDBC,0xDBC,8},
{0xDBE,0xDBF,8},
{0xDC7,0xDC9,8},
{0xDCA,0xDCA,2},
{0xDCB,0xDCE,8},
{0xDD2,0xDD4,2},
{0xDD5,0xDD5,8},
{0xDD6,0xDD6,2},
{0xDD7,0xDD7,8},
{0xDE0,0xDE5,8},
{0xDF0,0xDF1,8},
{0xDF5,0xE00,8},
{0xE31,0xE31,2},
{0xE34,0xE3A,2},
{0xE3B,0xE3E,8},
{0xE46,0xE4E,2},
{0xE5C,0xE80,8},
{0xE83,0xE83,8},
{0xE85,0xE85,8},
{0xE8B,0xE8B,8},
{0xEA4,0xEA4,8},
{0xEA6,0xEA6,8},
{0xEB1,0xEB1,2},
{0xEB4,0xEBC,2},
{0xEBE,0xEBF,8},
{0xEC5,0xEC5,8},
{0xEC6,0xEC6,2},
{0xEC7,0xEC7,8},
{0xEC8,0xECE,2},
{0xECF,0xECF,8},
{0xEDA,0xEDB,8},
{0xEE0,0xEFF,8},
{0xF18,0xF19,2},
{0xF35,0xF35,2},
{0xF37,0xF37,2},
{0xF39,0xF39,2},
{0xF48,0xF48,8},
{0xF6D,0xF70,8},
{0xF71,0xF7E,2},
{0xF80,0xF84,2},
{0xF86,0xF87,2},
{0xF8D,0xF97,2},
{0xF98,0xF98,8},
{0xF99,0xFBC,2},
{0xFBD,0xFBD,8},
{0xFC6,0xFC6,2},
{0xFCD,0xFCD,8},
{0xFDB,0xFFF,8},
{0x102D,0x1030,2},
{0x1032,0x1037,2},
{0x1039,0x103A,2},
{0x103D,0x103E,2},
{0x1058,0x1059,2},
{0x105E,0x1060,2},
{0x1071,0x1074,2},
{0x1082,0x1082,2},
{0x1085,0x1086,2},
{0x108D,0x108D,2},
{0x109D,0x109D,2},
{0x10A0,0x10C5,1},
{0x10C6,0x10C6,8},
{0x10C7,0x10C7,1},
{0x10C8,0x10CC,8},
{0x10CD,0x10CD,1},
{0x10CE,0x10CF,8},
{0x10D0,0x10FA,1},
{0x10FC,0x10FC,3},
{0x10FD,0x10FF,1},
{0x1100,0x115F,16},
{0x1249,0x1249,8},
{0x124E,0x124F,8},
{0x1257,0x1257,8},
{0x1259,0x1259,8},
{0x125E,0x125F,8},
{0x1289,0x1289,8},
{0x128E,0x128F,8},
{0x12B1,0x12B1,8},
{0x12B6,0x12B7,8},
{0x12BF,0x12BF,8},
{0x12C1,0x12C1,8},
{0x12C6,0x12C7,8},
{0x12D7,0x12D7,8},
{0x1311,0x1311,8},
{0x1316,0x1317,8},
{0x135B,0x135C,8},
{0x135D,0x135F,2},
{0x137D,0x137F,8},
{0x139A,0x139F,8},
{0x13A0,0x13F5,1},
{0x13F6,0x13F7,8},
{0x13F8,0x13FD,1},
{0x13FE,0x13FF,8},
{0x169D,0x169F,8},
{0x16F9,0x16FF,8},
{0x1712,0x1714,2},
{0x1716,0x171E,8},
{0x1732,0x1733,2},
{0x1737,0x173F,8},
{0x1752,0x1753,2},
{0x1754,0x175F,8},
{0x176D,0x176D,8},
{0x1771,0x1771,8},
{0x1772,0x1773,2},
{0x1774,0x177F,8},
{0x17B4,0x17B5,2},
{0x17B7,0x17BD,2},
{0x17C6,0x17C6,2},
{0x17C9,0x17D3,2},
{0x17D7,0x17D7,2},
{0x17DD,0x17DD,2},
{0x17DE,0x17DF,8},
{0x17EA,0x17EF,8},
{0x17FA,0x17FF,8},
{0x180B,0x180F,2},
{0x181A,0x181F,8},
{0x1843,0x1843,2},
{0x1879,0x187F,8},
{0x1885,0x1886,2},
{0x18A9,0x18A9,2},
{0x18AB,0x18AF,8},
{0x18F6,0x18FF,8},
{0x191F,0x191F,8},
{0x1920,0x1922,2},
{0x1927,0x1928,2},
{0x192C,0x192F,8},
{0x1932,0x1932,2},
{0x1939,0x193B,2},
{0x193C,0x193F,8},
{0x1941,0x1943,8},
{0x196E,0x196F,8},
{0x1975,0x197F,8},
{0x19AC,0x19AF,8},
{0x19CA,0x19CF,8},
{0x19DB,0x19DD,8},
{0x1A17,0x1A18,2},
{0x1A1B,0x1A1B,2},
{0x1A1C,0x1A1D,8},
{0x1A56,0x1A56,2},
{0x1A58,0x1A5E,2},
{0x1A5F,0x1A5F,8},
{0x1A60,0x1A60,2},
{0x1A62,0x1A62,2},
{0x1A65,0x1A6C,2},
{0x1A73,0x1A7C,2},
{0x1A7D,0x1A7E,8},
{0x1A7F,0x1A7F,2},
{0x1A8A,0x1A8F,8},
{0x1A9A,0x1A9F,8},
{0x1AA7,0x1AA7,2},
{0x1AAE,0x1AAF,8},
{0x1AB0,0x1ACE,2},
{0x1ACF,0x1AFF,8},
{0x1B00,0x1B03,2},
{0x1B34,0x1B34,2},
{0x1B36,0x1B3A,2},
{0x1B3C,0x1B3C,2},
{0x1B42,0x1B42,2},
{0x1B4D,0x1B4F,8},
{0x1B6B,0x1B73,2},
{0x1B7F,0x1B7F,8},
{0x1B80,0x1B81,2},
{0x1BA2,0x1BA5,2},
{0x1BA8,0x1BA9,2},
{0x1BAB,0x1BAD,2},
{0x1BE6,0x1BE6,2},
{0x1BE8,0x1BE9,2},
{0x1BED,0x1BED,2},
{0x1BEF,0x1BF1,2},
{0x1BF4,0x1BFB,8},
{0x1C2C,0x1C33,2},
{0x1C36,0x1C37,2},
{0x1C38,0x1C3A,8},
{0x1C4A,0x1C4C,8},
{0x1C78,0x1C7D,2},
{0x1C80,0x1C88,1},
{0x1C89,0x1C8F,8},
{0x1C90,0x1CBA,1},
{0x1CBB,0x1CBC,8},
{0x1CBD,0x1CBF,1},
{0x1CC8,0x1CCF,8},
{0x1CD0,0x1CD2,2},
{0x1CD4,0x1CE0,2},
{0x1CE2,0x1CE8,2},
{0x1CED,0x1CED,2},
{0x1CF4,0x1CF4,2},
{0x1CF8,0x1CF9,2},
{0x1CFB,0x1CFF,8},
{0x1D00,0x1D2B,1},
{0x1D2C,0x1D6A,3},
{0x1D6B,0x1D77,1},
{0x1D78,0x1D78,3},
{0x1D79,0x1D9A,1},
{0x1D9B,0x1DBF,3},
{0x1DC0,0x1DFF,2},
{0x1E00,0x1F15,1},
{0x1F16,0x1F17,8},
{0x1F18,0x1F1D,1},
{0x1F1E,0x1F1F,8},
{0x1F20,0x1F45,1},
{0x1F46,0x1F47,8},
{0x1F48,0x1F4D,1},
{0x1F4E,0x1F4F,8},
{0x1F50,0x1F57,1},
{0x1F58,0x1F58,8},
{0x1F59,0x1F59,1},
{0x1F5A,0x1F5A,8},
{0x1F5B,0x1F5B,1},
{0x1F5C,0x1F5C,8},
{0x1F5D,0x1F5D,1},
{0x1F5E,0x1F5E,8},
{0x1F5F,0x1F7D,1},
{0x1F7E,0x1F7F,8},
{0x1F80,0x1FB4,1},
{0x1FB5,0x1FB5,8},
{0x1FB6,0x1FBC,1},
{0x1FBD,0x1FBD,2},
{0x1FBE,0x1FBE,1},
{0x1FBF,0x1FC1,2},
{0x1FC2,0x1FC4,1},
{0x1FC5,0x1FC5,8},
{0x1FC6,0x1FCC,1},
{0x1FCD,0x1FCF,2},
{0x1FD0,0x1FD3,1},
{0x1FD4,0x1FD5,8},
{0x1FD6,0x1FDB,1},
{0x1FDC,0x1FDC,8},
{0x1FDD,0x1FDF,2},
{0x1FE0,0x1FEC,1},
{0x1FED,0x1FEF,2},
{0x1FF0,0x1FF1,8},
{0x1FF2,0x1FF4,1},
{0x1FF5,0x1FF5,8},
{0x1FF6,0x1FFC,1},
{0x1FFD,0x1FFE,2},
{0x1FFF,0x1FFF,8},
{0x200B,0x200F,2},
{0x2018,0x2019,2},
{0x2024,0x2024,2},
{0x2027,0x2027,2},
{0x202A,0x202E,2},
{0x203C,0x203C,4},
{0x2049,0x2049,4},
{0x2060,0x2064,2},
{0x2065,0x2065,8},
{0x2066,0x206F,2},
{0x2071,0x2071,3},
{0x2072,0x2073,8},
{0x207F,0x207F,3},
{0x208F,0x208F,8},
{0x2090,0x209C,3},
{0x209D,0x209F,8},
{0x20A9,0x20A9,16},
{0x20C1,0x20CF,8},
{0x20D0,0x20F0,2},
{0x20F1,0x20FF,8},
{0x2102,0x2102,1},
{0x2107,0x2107,1},
{0x210A,0x2113,1},
{0x2115,0x2115,1},
{0x2119,0x211D,1},
{0x2122,0x2122,4},
{0x2124,0x2124,1},
{0x2126,0x2126,1},
{0x2128,0x2128,1},
{0x212A,0x212D,1},
{0x212F,0x2134,1},
{0x2139,0x2139,5},
{0x213C,0x213F,1},
{0x2145,0x2149,1},
{0x214E,0x214E,1},
{0x2160,0x217F,1},
{0x2183,0x2184,1},
{0x218C,0x218F,8},
{0x2194,0x2199,4},
{0x21A9,0x21AA,4},
{0x231A,0x231B,20},
{0x2328,0x2328,4},
{0x2329,0x232A,16},
{0x2388,0x2388,4},
{0x23CF,0x23CF,4},
{0x23E9,0x23EC,20},
{0x23ED,0x23EF,4},
{0x23F0,0x23F0,20},
{0x23F1,0x23F2,4},
{0x23F3,0x23F3,20},
{0x23F8,0x23FA,4},
{0x2427,0x243F,8},
{0x244B,0x245F,8},
{0x24B6,0x24C1,1},
{0x24C2,0x24C2,5},
{0x24C3,0x24E9,1},
{0x25AA,0x25AB,4},
{0x25B6,0x25B6,4},
{0x25C0,0x25C0,4},
{0x25FB,0x25FC,4},
{0x25FD,0x25FE,20},
{0x2600,0x2605,4},
{0x2607,0x2612,4},
{0x2614,0x2615,20},
{0x2616,0x2647,4},
{0x2648,0x2653,20},
{0x2654,0x267E,4},
{0x267F,0x267F,20},
{0x2680,0x2685,4},
{0x2690,0x2692,4},
{0x2693,0x2693,20},
{0x2694,0x26A0,4},
{0x26A1,0x26A1,20},
{0x26A2,0x26A9,4},
{0x26AA,0x26AB,20},
{0x26AC,0x26BC,4},
{0x26BD,0x26BE,20},
{0x26BF,0x26C3,4},
{0x26C4,0x26C5,20},
{0x26C6,0x26CD,4},
{0x26CE,0x26CE,20},
{0x26CF,0x26D3,4},
{0x26D4,0x26D4,20},
{0x26D5,0x26E9,4},
{0x26EA,0x26EA,20},
{0x26EB,0x26F1,4},
{0x26F2,0x26F3,20},
{0x26F4,0x26F4,4},
{0x26F5,0x26F5,20},
{0x26F6,0x26F9,4},
{0x26FA,0x26FA,20},
{0x26FB,0x26FC,4},
{0x26FD,0x26FD,20},
{0x26FE,0x2704,4},
{0x2705,0x2705,20},
{0x2708,0x2709,4},
{0x270A,0x270B,20},
{0x270C,0x2712,4},
{0x2714,0x2714,4},
{0x2716,0x2716,4},
{0x271D,0x271D,4},
{0x2721,0x2721,4},
{0x2728,0x2728,20},
{0x2733,0x2734,4},
{0x2744,0x2744,4},
{0x2747,0x2747,4},
{0x274C,0x274C,20},
{0x274E,0x274E,20},
{0x2753,0x2755,20},
{0x2757,0x2757,20},
{0x2763,0x2767,4},
{0x2795,0x2797,20},
{0x27A1,0x27A1,4},
{0x27B0,0x27B0,20},
{0x27BF,0x27BF,20},
{0x2934,0x2935,4},
{0x2B05,0x2B07,4},
{0x2B1B,0x2B1C,20},
{0x2B50,0x2B50,20},
{0x2B55,0x2B55,20},
{0x2B74,0x2B75,8},
{0x2B96,0x2B96,8},
{0x2C00,0x2C7B,1},
{0x2C7C,0x2C7D,3},
{0x2C7E,0x2CE4,1},
{0x2CEB,0x2CEE,1},
{0x2CEF,0x2CF1,2},
{0x2CF2,0x2CF3,1},
{0x2CF4,0x2CF8,8},
{0x2D00,0x2D25,1},
{0x2D26,0x2D26,8},
{0x2D27,0x2D27,1},
{0x2D28,0x2D2C,8},
{0x2D2D,0x2D2D,1},
{0x2D2E,0x2D2F,8},
{0x2D68,0x2D6E,8},
{0x2D6F,0x2D6F,2},
{0x2D71,0x2D7E,8},
{0x2D7F,0x2D7F,2},
{0x2D97,0x2D9F,8},
{0x2DA7,0x2DA7,8},
{0x2DAF,0x2DAF,8},
{0x2DB7,0x2DB7,8},
{0x2DBF,0x2DBF,8},
{0x2DC7,0x2DC7,8},
{0x2DCF,0x2DCF,8},
{0x2DD7,0x2DD7,8},
{0x2DDF,0x2DDF,8},
{0x2DE0,0x2DFF,2},
{0x2E2F,0x2E2F,2},
{0x2E5E,0x2E7F,8},
{0x2E80,0x2E99,16},
{0x2E9A,0x2E9A,8},
{0x2E9B,0x2EF3,16},
{0x2EF4,0x2EFF,8},
{0x2F00,0x2FD5,16},
{0x2FD6,0x2FEF,8},
{0x2FF0,0x2FFB,16},
{0x2FFC,0x2FFF,8},
{0x3000,0x3004,16},
{0x3005,0x3005,18},
{0x3006,0x3029,16},
{0x302A,0x302D,18},
{0x302E,0x302F,16},
{0x3030,0x3030,20},
{0x3031,0x3035,18},
{0x3036,0x303A,16},
{0x303B,0x303B,18},
{0x303C,0x303C,16},
{0x303D,0x303D,20},
{0x303E,0x303E,16},
{0x3040,0x3040,8},
{0x3041,0x3096,16},
{0x3097,0x3098,8},
{0x3099,0x309E,18},
{0x309F,0x30FB,16},
{0x30FC,0x30FE,18},
{0x30FF,0x30FF,16},
{0x3100,0x3104,8},
{0x3105,0x312F,16},
{0x3130,0x3130,8},
{0x3131,0x318E,16},
{0x318F,0x318F,8},
{0x3190,0x31E3,16},
{0x31E4,0x31EF,8},
{0x31F0,0x321E,16},
{0x321F,0x321F,8},
{0x3220,0x3247,16},
{0x3250,0x3296,16},
{0x3297,0x3297,20},
{0x3298,0x3298,16},
{0x3299,0x3299,20},
{0x329A,0x4DBF,16},
{0x4E00,0xA014,16},
{0xA015,0xA015,18},
{0xA016,0xA48C,16},
{0xA48D,0xA48F,8},
{0xA490,0xA4C6,16},
{0xA4C7,0xA4CF,8},
{0xA4F8,0xA4FD,2},
{0xA60C,0xA60C,2},
{0xA62C,0xA63F,8},
{0xA640,0xA66D,1},
{0xA66F,0xA672,2},
{0xA674,0xA67D,2},
{0xA67F,0xA67F,2},
{0xA680,0xA69B,1},
{0xA69C,0xA69D,3},
{0xA69E,0xA69F,2},
{0xA6F0,0xA6F1,2},
{0xA6F8,0xA6FF,8},
{0xA700,0xA721,2},
{0xA722,0xA76F,1},
{0xA770,0xA770,3},
{0xA771,0xA787,1},
{0xA788,0xA78A,2},
{0xA78B,0xA78E,1},
{0xA790,0xA7CA,1},
{0xA7CB,0xA7CF,8},
{0xA7D0,0xA7D1,1},
{0xA7D2,0xA7D2,8},
{0xA7D3,0xA7D3,1},
{0xA7D4,0xA7D4,8},
{0xA7D5,0xA7D9,1},
{0xA7DA,0xA7F1,8},
{0xA7F2,0xA7F4,3},
{0xA7F5,0xA7F6,1},
{0xA7F8,0xA7F9,3},
{0xA7FA,0xA7FA,1},
{0xA802,0xA802,2},
{0xA806,0xA806,2},
{0xA80B,0xA80B,2},
{0xA825,0xA826,2},
{0xA82C,0xA82C,2},
{0xA82D,0xA82F,8},
{0xA83A,0xA83F,8},
{0xA878,0xA87F,8},
{0xA8C4,0xA8C5,2},
{0xA8C6,0xA8CD,8},
{0xA8DA,0xA8DF,8},
{0xA8E0,0xA8F1,2},
{0xA8FF,0xA8FF,2},
{0xA926,0xA92D,2},
{0xA947,0xA951,2},
{0xA954,0xA95E,8},
{0xA960,0xA97C,16},
{0xA97D,0xA97F,8},
{0xA980,0xA982,2},
{0xA9B3,0xA9B3,2},
{0xA9B6,0xA9B9,2},
{0xA9BC,0xA9BD,2},
{0xA9CE,0xA9CE,8},
{0xA9CF,0xA9CF,2},
{0xA9DA,0xA9DD,8},
{0xA9E5,0xA9E6,2},
{0xA9FF,0xA9FF,8},
{0xAA29,0xAA2E,2},
{0xAA31,0xAA32,2},
{0xAA35,0xAA36,2},
{0xAA37,0xAA3F,8},
{0xAA43,0xAA43,2},
{0xAA4C,0xAA4C,2},
{0xAA4E,0xAA4F,8},
{0xAA5A,0xAA5B,8},
{0xAA70,0xAA70,2},
{0xAA7C,0xAA7C,2},
{0xAAB0,0xAAB0,2},
{0xAAB2,0xAAB4,2},
{0xAAB7,0xAAB8,2},
{0xAABE,0xAABF,2},
{0xAAC1,0xAAC1,2},
{0xAAC3,0xAADA,8},
{0xAADD,0xAADD,2},
{0xAAEC,0xAAED,2},
{0xAAF3,0xAAF4,2},
{0xAAF6,0xAAF6,2},
{0xAAF7,0xAB00,8},
{0xAB07,0xAB08,8},
{0xAB0F,0xAB10,8},
{0xAB17,0xAB1F,8},
{0xAB27,0xAB27,8},
{0xAB2F,0xAB2F,8},
{0xAB30,0xAB5A,1},
{0xAB5B,0xAB5B,2},
{0xAB5C,0xAB5F,3},
{0xAB60,0xAB68,1},
{0xAB69,0xAB69,3},
{0xAB6A,0xAB6B,2},
{0xAB6C,0xAB6F,8},
{0xAB70,0xABBF,1},
{0xABE5,0xABE5,2},
{0xABE8,0xABE8,2},
{0xABED,0xABED,2},
{0xABEE,0xABEF,8},
{0xABFA,0xABFF,8},
{0xAC00,0xD7A3,16},
{0xD7A4,0xD7AF,8},
{0xD7C7,0xD7CA,8},
{0xD7FC,0xD7FF,8},
{0xF900,0xFA6D,16},
{0xFA6E,0xFA6F,24},
{0xFA70,0xFAD9,16},
{0xFADA,0xFAFF,24},
{0xFB00,0xFB06,1},
{0xFB07,0xFB12,8},
{0xFB13,0xFB17,1},
{0xFB18,0xFB1C,8},
{0xFB1E,0xFB1E,2},
{0xFB37,0xFB37,8},
{0xFB3D,0xFB3D,8},
{0xFB3F,0xFB3F,8},
{0xFB42,0xFB42,8},
{0xFB45,0xFB45,8},
{0xFBB2,0xFBC2,2},
{0xFBC3,0xFBD2,8},
{0xFD90,0xFD91,8},
{0xFDC8,0xFDCE,8},
{0xFDD0,0xFDEF,8},
{0xFE00,0xFE0F,2},
{0xFE10,0xFE12,16},
{0xFE13,0xFE13,18},
{0xFE14,0xFE19,16},
{0xFE1A,0xFE1F,8},
{0xFE20,0xFE2F,2},
{0xFE30,0xFE51,16},
{0xFE52,0xFE52,18},
{0xFE53,0xFE53,8},
{0xFE54,0xFE54,16},
{0xFE55,0xFE55,18},
{0xFE56,0xFE66,16},
{0xFE67,0xFE67,8},
{0xFE68,0xFE6B,16},
{0xFE6C,0xFE6F,8},
{0xFE75,0xFE75,8},
{0xFEFD,0xFEFE,8},
{0xFEFF,0xFEFF,2},
{0xFF00,0xFF00,8},
{0xFF01,0xFF06,16},
{0xFF07,0xFF07,18},
{0xFF08,0xFF0D,16},
{0xFF0E,0xFF0E,18},
{0xFF0F,0xFF19,16},
{0xFF1A,0xFF1A,18},
{0xFF1B,0xFF20,16},
{0xFF21,0xFF3A,17},
{0xFF3B,0xFF3D,16},
{0xFF3E,0xFF3E,18},
{0xFF3F,0xFF3F,16},
{0xFF40,0xFF40,18},
{0xFF41,0xFF5A,17},
{0xFF5B,0xFF6F,16},
{0xFF70,0xFF70,18},
{0xFF71,0xFF9D,16},
{0xFF9E,0xFF9F,18},
{0xFFA0,0xFFBE,16},
{0xFFBF,0xFFC1,8},
{0xFFC2,0xFFC7,16},
{0xFFC8,0xFFC9,8},
{0xFFCA,0xFFCF,16},
{0xFFD0,0xFFD1,8},
{0xFFD2,0xFFD7,16},
{0xFFD8,0xFFD9,8},
{0xFFDA,0xFFDC,16},
{0xFFDD,0xFFDF,8},
{0xFFE0,0xFFE2,16},
{0xFFE3,0xFFE3,18},
{0xFFE4,0xFFE6,16},
{0xFFE7,0xFFE7,8},
{0xFFE8,0xFFEE,16},
{0xFFEF,0xFFF8,8},
{0xFFF9,0xFFFB,2},
{0xFFFE,0xFFFF,8},
{0x1000C,0x1000C,8},
{0x10027,0x10027,8},
{0x1003B,0x1003B,8},
{0x1003E,0x1003E,8},
{0x1004E,0x1004F,8},
{0x1005E,0x1007F,8},
{0x100FB,0x100FF,8},
{0x10103,0x10106,8},
{0x10134,0x10136,8},
{0x1018F,0x1018F,8},
{0x1019D,0x1019F,8},
{0x101A1,0x101CF,8},
{0x101FD,0x101FD,2},
{0x101FE,0x1027F,8},
{0x1029D,0x1029F,8},
{0x102D1,0x102DF,8},
{0x102E0,0x102E0,2},
{0x102FC,0x102FF,8},
{0x10324,0x1032C,8},
{0x1034B,0x1034F,8},
{0x10376,0x1037A,2},
{0x1037B,0x1037F,8},
{0x1039E,0x1039E,8},
{0x103C4,0x103C7,8},
{0x103D6,0x103FF,8},
{0x10400,0x1044F,1},
{0x1049E,0x1049F,8},
{0x104AA,0x104AF,8},
{0x104B0,0x104D3,1},
{0x104D4,0x104D7,8},
{0x104D8,0x104FB,1},
{0x104FC,0x104FF,8},
{0x10528,0x1052F,8},
{0x10564,0x1056E,8},
{0x10570,0x1057A,1},
{0x1057B,0x1057B,8},
{0x1057C,0x1058A,1},
{0x1058B,0x1058B,8},
{0x1058C,0x10592,1},
{0x10593,0x10593,8},
{0x10594,0x10595,1},
{0x10596,0x10596,8},
{0x10597,0x105A1,1},
{0x105A2,0x105A2,8},
{0x105A3,0x105B1,1},
{0x105B2,0x105B2,8},
{0x105B3,0x105B9,1},
{0x105BA,0x105BA,8},
{0x105BB,0x105BC,1},
{0x105BD,0x105FF,8},
{0x10737,0x1073F,8},
{0x10756,0x1075F,8},
{0x10768,0x1077F,8},
{0x10780,0x10780,3},
{0x10781,0x10782,2},
{0x10783,0x10785,3},
{0x10786,0x10786,8},
{0x10787,0x107B0,3},
{0x107B1,0x107B1,8},
{0x107B2,0x107BA,3},
{0x107BB,0x107FF,8},
{0x10806,0x10807,8},
{0x10809,0x10809,8},
{0x10836,0x10836,8},
{0x10839,0x1083B,8},
{0x1083D,0x1083E,8},
{0x10856,0x10856,8},
{0x1089F,0x108A6,8},
{0x108B0,0x108DF,8},
{0x108F3,0x108F3,8},
{0x108F6,0x108FA,8},
{0x1091C,0x1091E,8},
{0x1093A,0x1093E,8},
{0x10940,0x1097F,8},
{0x109B8,0x109BB,8},
{0x109D0,0x109D1,8},
{0x10A01,0x10A03,2},
{0x10A04,0x10A04,8},
{0x10A05,0x10A06,2},
{0x10A07,0x10A0B,8},
{0x10A0C,0x10A0F,2},
{0x10A14,0x10A14,8},
{0x10A18,0x10A18,8},
{0x10A36,0x10A37,8},
{0x10A38,0x10A3A,2},
{0x10A3B,0x10A3E,8},
{0x10A3F,0x10A3F,2},
{0x10A49,0x10A4F,8},
{0x10A59,0x10A5F,8},
{0x10AA0,0x10ABF,8},
{0x10AE5,0x10AE6,2},
{0x10AE7,0x10AEA,8},
{0x10AF7,0x10AFF,8},
{0x10B36,0x10B38,8},
{0x10B56,0x10B57,8},
{0x10B73,0x10B77,8},
{0x10B92,0x10B98,8},
{0x10B9D,0x10BA8,8},
{0x10BB0,0x10BFF,8},
{0x10C49,0x10C7F,8},
{0x10C80,0x10CB2,1},
{0x10CB3,0x10CBF,8},
{0x10CC0,0x10CF2,1},
{0x10CF3,0x10CF9,8},
{0x10D24,0x10D27,2},
{0x10D28,0x10D2F,8},
{0x10D3A,0x10E5F,8},
{0x10E7F,0x10E7F,8},
{0x10EAA,0x10EAA,8},
{0x10EAB,0x10EAC,2},
{0x10EAE,0x10EAF,8},
{0x10EB2,0x10EFC,8},
{0x10EFD,0x10EFF,2},
{0x10F28,0x10F2F,8},
{0x10F46,0x10F50,2},
{0x10F5A,0x10F6F,8},
{0x10F82,0x10F85,2},
{0x10F8A,0x10FAF,8},
{0x10FCC,0x10FDF,8},
{0x10FF7,0x10FFF,8},
{0x11001,0x11001,2},
{0x11038,0x11046,2},
{0x1104E,0x11051,8},
{0x11070,0x11070,2},
{0x11073,0x11074,2},
{0x11076,0x1107E,8},
{0x1107F,0x11081,2},
{0x110B3,0x110B6,2},
{0x110B9,0x110BA,2},
{0x110BD,0x110BD,2},
{0x110C2,0x110C2,2},
{0x110C3,0x110CC,8},
{0x110CD,0x110CD,2},
{0x110CE,0x110CF,8},
{0x110E9,0x110EF,8},
{0x110FA,0x110FF,8},
{0x11100,0x11102,2},
{0x11127,0x1112B,2},
{0x1112D,0x11134,2},
{0x11135,0x11135,8},
{0x11148,0x1114F,8},
{0x11173,0x11173,2},
{0x11177,0x1117F,8},
{0x11180,0x11181,2},
{0x111B6,0x111BE,2},
{0x111C9,0x111CC,2},
{0x111CF,0x111CF,2},
{0x111E0,0x111E0,8},
{0x111F5,0x111FF,8},
{0x11212,0x11212,8},
{0x1122F,0x11231,2},
{0x11234,0x11234,2},
{0x11236,0x11237,2},
{0x1123E,0x1123E,2},
{0x11241,0x11241,2},
{0x11242,0x1127F,8},
{0x11287,0x11287,8},
{0x11289,0x11289,8},
{0x1128E,0x1128E,8},
{0x1129E,0x1129E,8},
{0x112AA,0x112AF,8},
{0x112DF,0x112DF,2},
{0x112E3,0x112EA,2},
{0x112EB,0x112EF,8},
{0x112FA,0x112FF,8},
{0x11300,0x11301,2},
{0x11304,0x11304,8},
{0x1130D,0x1130E,8},
{0x11311,0x11312,8},
{0x11329,0x11329,8},
{0x11331,0x11331,8},
{0x11334,0x11334,8},
{0x1133A,0x1133A,8},
{0x1133B,0x1133C,2},
{0x11340,0x11340,2},
{0x11345,0x11346,8},
{0x11349,0x1134A,8},
{0x1134E,0x1134F,8},
{0x11351,0x11356,8},
{0x11358,0x1135C,8},
{0x11364,0x11365,8},
{0x11366,0x1136C,2},
{0x1136D,0x1136F,8},
{0x11370,0x11374,2},
{0x11375,0x113FF,8},
{0x11438,0x1143F,2},
{0x11442,0x11444,2},
{0x11446,0x11446,2},
{0x1145C,0x1145C,8},
{0x1145E,0x1145E,2},
{0x11462,0x1147F,8},
{0x114B3,0x114B8,2},
{0x114BA,0x114BA,2},
{0x114BF,0x114C0,2},
{0x114C2,0x114C3,2},
{0x114C8,0x114CF,8},
{0x114DA,0x1157F,8},
{0x115B2,0x115B5,2},
{0x115B6,0x115B7,8},
{0x115BC,0x115BD,2},
{0x115BF,0x115C0,2},
{0x115DC,0x115DD,2},
{0x115DE,0x115FF,8},
{0x11633,0x1163A,2},
{0x1163D,0x1163D,2},
{0x1163F,0x11640,2},
{0x11645,0x1164F,8},
{0x1165A,0x1165F,8},
{0x1166D,0x1167F,8},
{0x116AB,0x116AB,2},
{0x116AD,0x116AD,2},
{0x116B0,0x116B5,2},
{0x116B7,0x116B7,2},
{0x116BA,0x116BF,8},
{0x116CA,0x116FF,8},
{0x1171B,0x1171C,8},
{0x1171D,0x1171F,2},
{0x11722,0x11725,2},
{0x11727,0x1172B,2},
{0x1172C,0x1172F,8},
{0x11747,0x117FF,8},
{0x1182F,0x11837,2},
{0x11839,0x1183A,2},
{0x1183C,0x1189F,8},
{0x118A0,0x118DF,1},
{0x118F3,0x118FE,8},
{0x11907,0x11908,8},
{0x1190A,0x1190B,8},
{0x11914,0x11914,8},
{0x11917,0x11917,8},
{0x11936,0x11936,8},
{0x11939,0x1193A,8},
{0x1193B,0x1193C,2},
{0x1193E,0x1193E,2},
{0x11943,0x11943,2},
{0x11947,0x1194F,8},
{0x1195A,0x1199F,8},
{0x119A8,0x119A9,8},
{0x119D4,0x119D7,2},
{0x119D8,0x119D9,8},
{0x119DA,0x119DB,2},
{0x119E0,0x119E0,2},
{0x119E5,0x119FF,8},
{0x11A01,0x11A0A,2},
{0x11A33,0x11A38,2},
{0x11A3B,0x11A3E,2},
{0x11A47,0x11A47,2},
{0x11A48,0x11A4F,8},
{0x11A51,0x11A56,2},
{0x11A59,0x11A5B,2},
{0x11A8A,0x11A96,2},
{0x11A98,0x11A99,2},
{0x11AA3,0x11AAF,8},
{0x11AF9,0x11AFF,8},
{0x11B0A,0x11BFF,8},
{0x11C09,0x11C09,8},
{0x11C30,0x11C36,2},
{0x11C37,0x11C37,8},
{0x11C38,0x11C3D,2},
{0x11C3F,0x11C3F,2},
{0x11C46,0x11C4F,8},
{0x11C6D,0x11C6F,8},
{0x11C90,0x11C91,8},
{0x11C92,0x11CA7,2},
{0x11CA8,0x11CA8,8},
{0x11CAA,0x11CB0,2},
{0x11CB2,0x11CB3,2},
{0x11CB5,0x11CB6,2},
{0x11CB7,0x11CFF,8},
{0x11D07,0x11D07,8},
{0x11D0A,0x11D0A,8},
{0x11D31,0x11D36,2},
{0x11D37,0x11D39,8},
{0x11D3A,0x11D3A,2},
{0x11D3B,0x11D3B,8},
{0x11D3C,0x11D3D,2},
{0x11D3E,0x11D3E,8},
{0x11D3F,0x11D45,2},
{0x11D47,0x11D47,2},
{0x11D48,0x11D4F,8},
{0x11D5A,0x11D5F,8},
{0x11D66,0x11D66,8},
{0x11D69,0x11D69,8},
{0x11D8F,0x11D8F,8},
{0x11D90,0x11D91,2},
{0x11D92,0x11D92,8},
{0x11D95,0x11D95,2},
{0x11D97,0x11D97,2},
{0x11D99,0x11D9F,8},
{0x11DAA,0x11EDF,8},
{0x11EF3,0x11EF4,2},
{0x11EF9,0x11EFF,8},
{0x11F00,0x11F01,2},
{0x11F11,0x11F11,8},
{0x11F36,0x11F3A,2},
{0x11F3B,0x11F3D,8},
{0x11F40,0x11F40,2},
{0x11F42,0x11F42,2},
{0x11F5A,0x11FAF,8},
{0x11FB1,0x11FBF,8},
{0x11FF2,0x11FFE,8},
{0x1239A,0x123FF,8},
{0x1246F,0x1246F,8},
{0x12475,0x1247F,8},
{0x12544,0x12F8F,8},
{0x12FF3,0x12FFF,8},
{0x13430,0x13440,2},
{0x13447,0x13455,2},
{0x13456,0x143FF,8},
{0x14647,0x167FF,8},
{0x16A39,0x16A3F,8},
{0x16A5F,0x16A5F,8},
{0x16A6A,0x16A6D,8},
{0x16ABF,0x16ABF,8},
{0x16ACA,0x16ACF,8},
{0x16AEE,0x16AEF,8},
{0x16AF0,0x16AF4,2},
{0x16AF6,0x16AFF,8},
{0x16B30,0x16B36,2},
{0x16B40,0x16B43,2},
{0x16B46,0x16B4F,8},
{0x16B5A,0x16B5A,8},
{0x16B62,0x16B62,8},
{0x16B78,0x16B7C,8},
{0x16B90,0x16E3F,8},
{0x16E40,0x16E7F,1},
{0x16E9B,0x16EFF,8},
{0x16F4B,0x16F4E,8},
{0x16F4F,0x16F4F,2},
{0x16F88,0x16F8E,8},
{0x16F8F,0x16F9F,2},
{0x16FA0,0x16FDF,8},
{0x16FE0,0x16FE1,18},
{0x16FE2,0x16FE2,16},
{0x16FE3,0x16FE4,18},
{0x16FE5,0x16FEF,8},
{0x16FF0,0x16FF1,16},
{0x16FF2,0x16FFF,8},
{0x17000,0x187F7,16},
{0x187F8,0x187FF,8},
{0x18800,0x18CD5,16},
{0x18CD6,0x18CFF,8},
{0x18D00,0x18D08,16},
{0x18D09,0x1AFEF,8},
{0x1AFF0,0x1AFF3,18},
{0x1AFF4,0x1AFF4,8},
{0x1AFF5,0x1AFFB,18},
{0x1AFFC,0x1AFFC,8},
{0x1AFFD,0x1AFFE,18},
{0x1AFFF,0x1AFFF,8},
{0x1B000,0x1B122,16},
{0x1B123,0x1B131,8},
{0x1B132,0x1B132,16},
{0x1B133,0x1B14F,8},
{0x1B150,0x1B152,16},
{0x1B153,0x1B154,8},
{0x1B155,0x1B155,16},
{0x1B156,0x1B163,8},
{0x1B164,0x1B167,16},
{0x1B168,0x1B16F,8},
{0x1B170,0x1B2FB,16},
{0x1B2FC,0x1BBFF,8},
{0x1BC6B,0x1BC6F,8},
{0x1BC7D,0x1BC7F,8},
{0x1BC89,0x1BC8F,8},
{0x1BC9A,0x1BC9B,8},
{0x1BC9D,0x1BC9E,2},
{0x1BCA0,0x1BCA3,2},
{0x1BCA4,0x1CEFF,8},
{0x1CF00,0x1CF2D,2},
{0x1CF2E,0x1CF2F,8},
{0x1CF30,0x1CF46,2},
{0x1CF47,0x1CF4F,8},
{0x1CFC4,0x1CFFF,8},
{0x1D0F6,0x1D0FF,8},
{0x1D127,0x1D128,8},
{0x1D167,0x1D169,2},
{0x1D173,0x1D182,2},
{0x1D185,0x1D18B,2},
{0x1D1AA,0x1D1AD,2},
{0x1D1EB,0x1D1FF,8},
{0x1D242,0x1D244,2},
{0x1D246,0x1D2BF,8},
{0x1D2D4,0x1D2DF,8},
{0x1D2F4,0x1D2FF,8},
{0x1D357,0x1D35F,8},
{0x1D379,0x1D3FF,8},
{0x1D400,0x1D454,1},
{0x1D455,0x1D455,8},
{0x1D456,0x1D49C,1},
{0x1D49D,0x1D49D,8},
{0x1D49E,0x1D49F,1},
{0x1D4A0,0x1D4A1,8},
{0x1D4A2,0x1D4A2,1},
{0x1D4A3,0x1D4A4,8},
{0x1D4A5,0x1D4A6,1},
{0x1D4A7,0x1D4A8,8},
{0x1D4A9,0x1D4AC,1},
{0x1D4AD,0x1D4AD,8},
{0x1D4AE,0x1D4B9,1},
{0x1D4BA,0x1D4BA,8},
{0x1D4BB,0x1D4BB,1},
{0x1D4BC,0x1D4BC,8},
{0x1D4BD,0x1D4C3,1},
{0x1D4C4,0x1D4C4,8},
{0x1D4C5,0x1D505,1},
{0x1D506,0x1D506,8},
{0x1D507,0x1D50A,1},
{0x1D50B,0x1D50C,8},
{0x1D50D,0x1D514,1},
{0x1D515,0x1D515,8},
{0x1D516,0x1D51C,1},
{0x1D51D,0x1D51D,8},
{0x1D51E,0x1D539,1},
{0x1D53A,0x1D53A,8},
{0x1D53B,0x1D53E,1},
{0x1D53F,0x1D53F,8},
{0x1D540,0x1D544,1},
{0x1D545,0x1D545,8},
{0x1D546,0x1D546,1},
{0x1D547,0x1D549,8},
{0x1D54A,0x1D550,1},
{0x1D551,0x1D551,8},
{0x1D552,0x1D6A5,1},
{0x1D6A6,0x1D6A7,8},
{0x1D6A8,0x1D6C0,1},
{0x1D6C2,0x1D6DA,1},
{0x1D6DC,0x1D6FA,1},
{0x1D6FC,0x1D714,1},
{0x1D716,0x1D734,1},
{0x1D736,0x1D74E,1},
{0x1D750,0x1D76E,1},
{0x1D770,0x1D788,1},
{0x1D78A,0x1D7A8,1},
{0x1D7AA,0x1D7C2,1},
{0x1D7C4,0x1D7CB,1},
{0x1D7CC,0x1D7CD,8},
{0x1DA00,0x1DA36,2},
{0x1DA3B,0x1DA6C,2},
{0x1DA75,0x1DA75,2},
{0x1DA84,0x1DA84,2},
{0x1DA8C,0x1DA9A,8},
{0x1DA9B,0x1DA9F,2},
{0x1DAA0,0x1DAA0,8},
{0x1DAA1,0x1DAAF,2},
{0x1DAB0,0x1DEFF,8},
{0x1DF00,0x1DF09,1},
{0x1DF0B,0x1DF1E,1},
{0x1DF1F,0x1DF24,8},
{0x1DF25,0x1DF2A,1},
{0x1DF2B,0x1DFFF,8},
{0x1E000,0x1E006,2},
{0x1E007,0x1E007,8},
{0x1E008,0x1E018,2},
{0x1E019,0x1E01A,8},
{0x1E01B,0x1E021,2},
{0x1E022,0x1E022,8},
{0x1E023,0x1E024,2},
{0x1E025,0x1E025,8},
{0x1E026,0x1E02A,2},
{0x1E02B,0x1E02F,8},
{0x1E030,0x1E06D,3},
{0x1E06E,0x1E08E,8},
{0x1E08F,0x1E08F,2},
{0x1E090,0x1E0FF,8},
{0x1E12D,0x1E12F,8},
{0x1E130,0x1E13D,2},
{0x1E13E,0x1E13F,8},
{0x1E14A,0x1E14D,8},
{0x1E150,0x1E28F,8},
{0x1E2AE,0x1E2AE,2},
{0x1E2AF,0x1E2BF,8},
{0x1E2EC,0x1E2EF,2},
{0x1E2FA,0x1E2FE,8},
{0x1E300,0x1E4CF,8},
{0x1E4EB,0x1E4EF,2},
{0x1E4FA,0x1E7DF,8},
{0x1E7E7,0x1E7E7,8},
{0x1E7EC,0x1E7EC,8},
{0x1E7EF,0x1E7EF,8},
{0x1E7FF,0x1E7FF,8},
{0x1E8C5,0x1E8C6,8},
{0x1E8D0,0x1E8D6,2},
{0x1E8D7,0x1E8FF,8},
{0x1E900,0x1E943,1},
{0x1E944,0x1E94B,2},
{0x1E94C,0x1E94F,8},
{0x1E95A,0x1E95D,8},
{0x1E960,0x1EC70,8},
{0x1ECB5,0x1ED00,8},
{0x1ED3E,0x1EDFF,8},
{0x1EE04,0x1EE04,8},
{0x1EE20,0x1EE20,8},
{0x1EE23,0x1EE23,8},
{0x1EE25,0x1EE26,8},
{0x1EE28,0x1EE28,8},
{0x1EE33,0x1EE33,8},
{0x1EE38,0x1EE38,8},
{0x1EE3A,0x1EE3A,8},
{0x1EE3C,0x1EE41,8},
{0x1EE43,0x1EE46,8},
{0x1EE48,0x1EE48,8},
{0x1EE4A,0x1EE4A,8},
{0x1EE4C,0x1EE4C,8},
{0x1EE50,0x1EE50,8},
{0x1EE53,0x1EE53,8},
{0x1EE55,0x1EE56,8},
{0x1EE58,0x1EE58,8},
{0x1EE5A,0x1EE5A,8},
{0x1EE5C,0x1EE5C,8},
{0x1EE5E,0x1EE5E,8},
{0x1EE60,0x1EE60,8},
{0x1EE63,0x1EE63,8},
{0x1EE65,0x1EE66,8},
{0x1EE6B,0x1EE6B,8},
{0x1EE73,0x1EE73,8},
{0x1EE78,0x1EE78,8},
{0x1EE7D,0x1EE7D,8},
{0x1EE7F,0x1EE7F,8},
{0x1EE8A,0x1EE8A,8},
{0x1EE9C,0x1EEA0,8},
{0x1EEA4,0x1EEA4,8},
{0x1EEAA,0x1EEAA,8},
{0x1EEBC,0x1EEEF,8},
{0x1EEF2,0x1EFFF,8},
{0x1F000,0x1F003,4},
{0x1F004,0x1F004,20},
{0x1F005,0x1F02B,4},
{0x1F02C,0x1F02F,12},
{0x1F030,0x1F093,4},
{0x1F094,0x1F09F,12},
{0x1F0A0,0x1F0AE,4},
{0x1F0AF,0x1F0B0,12},
{0x1F0B1,0x1F0BF,4},
{0x1F0C0,0x1F0C0,12},
{0x1F0C1,0x1F0CE,4},
{0x1F0CF,0x1F0CF,20},
{0x1F0D0,0x1F0D0,12},
{0x1F0D1,0x1F0F5,4},
{0x1F0F6,0x1F0FF,12},
{0x1F10D,0x1F10F,4},
{0x1F12F,0x1F12F,4},
{0x1F130,0x1F149,1},
{0x1F150,0x1F169,1},
{0x1F16C,0x1F16F,4},
{0x1F170,0x1F171,5},
{0x1F172,0x1F17D,1},
{0x1F17E,0x1F17F,5},
{0x1F180,0x1F189,1},
{0x1F18E,0x1F18E,20},
{0x1F191,0x1F19A,20},
{0x1F1AD,0x1F1AD,4},
{0x1F1AE,0x1F1E5,12},
{0x1F200,0x1F200,16},
{0x1F201,0x1F202,20},
{0x1F203,0x1F20F,12},
{0x1F210,0x1F219,16},
{0x1F21A,0x1F21A,20},
{0x1F21B,0x1F22E,16},
{0x1F22F,0x1F22F,20},
{0x1F230,0x1F231,16},
{0x1F232,0x1F23A,20},
{0x1F23B,0x1F23B,16},
{0x1F23C,0x1F23F,12},
{0x1F240,0x1F248,16},
{0x1F249,0x1F24F,12},
{0x1F250,0x1F251,20},
{0x1F252,0x1F25F,12},
{0x1F260,0x1F265,20},
{0x1F266,0x1F2FF,12},
{0x1F300,0x1F320,20},
{0x1F321,0x1F32C,4},
{0x1F32D,0x1F335,20},
{0x1F336,0x1F336,4},
{0x1F337,0x1F37C,20},
{0x1F37D,0x1F37D,4},
{0x1F37E,0x1F393,20},
{0x1F394,0x1F39F,4},
{0x1F3A0,0x1F3CA,20},
{0x1F3CB,0x1F3CE,4},
{0x1F3CF,0x1F3D3,20},
{0x1F3D4,0x1F3DF,4},
{0x1F3E0,0x1F3F0,20},
{0x1F3F1,0x1F3F3,4},
{0x1F3F4,0x1F3F4,20},
{0x1F3F5,0x1F3F7,4},
{0x1F3F8,0x1F3FA,20},
{0x1F3FB,0x1F3FF,18},
{0x1F400,0x1F43E,20},
{0x1F43F,0x1F43F,4},
{0x1F440,0x1F440,20},
{0x1F441,0x1F441,4},
{0x1F442,0x1F4FC,20},
{0x1F4FD,0x1F4FE,4},
{0x1F4FF,0x1F53D,20},
{0x1F546,0x1F54A,4},
{0x1F54B,0x1F54E,20},
{0x1F54F,0x1F54F,4},
{0x1F550,0x1F567,20},
{0x1F568,0x1F579,4},
{0x1F57A,0x1F57A,20},
{0x1F57B,0x1F594,4},
{0x1F595,0x1F596,20},
{0x1F597,0x1F5A3,4},
{0x1F5A4,0x1F5A4,20},
{0x1F5A5,0x1F5FA,4},
{0x1F5FB,0x1F64F,20},
{0x1F680,0x1F6C5,20},
{0x1F6C6,0x1F6CB,4},
{0x1F6CC,0x1F6CC,20},
{0x1F6CD,0x1F6CF,4},
{0x1F6D0,0x1F6D2,20},
{0x1F6D3,0x1F6D4,4},
{0x1F6D5,0x1F6D7,20},
{0x1F6D8,0x1F6DB,12},
{0x1F6DC,0x1F6DF,20},
{0x1F6E0,0x1F6EA,4},
{0x1F6EB,0x1F6EC,20},
{0x1F6ED,0x1F6EF,12},
{0x1F6F0,0x1F6F3,4},
{0x1F6F4,0x1F6FC,20},
{0x1F6FD,0x1F6FF,12},
{0x1F774,0x1F776,4},
{0x1F777,0x1F77A,12},
{0x1F77B,0x1F77F,4},
{0x1F7D5,0x1F7D9,4},
{0x1F7DA,0x1F7DF,12},
{0x1F7E0,0x1F7EB,20},
{0x1F7EC,0x1F7EF,12},
{0x1F7F0,0x1F7F0,20},
{0x1F7F1,0x1F7FF,12},
{0x1F80C,0x1F80F,12},
{0x1F848,0x1F84F,12},
{0x1F85A,0x1F85F,12},
{0x1F888,0x1F88F,12},
{0x1F8AE,0x1F8AF,12},
{0x1F8B0,0x1F8B1,4},
{0x1F8B2,0x1F8FF,12},
{0x1F90C,0x1F93A,20},
{0x1F93C,0x1F945,20},
{0x1F947,0x1F9FF,20},
{0x1FA00,0x1FA53,4},
{0x1FA54,0x1FA5F,12},
{0x1FA60,0x1FA6D,4},
{0x1FA6E,0x1FA6F,12},
{0x1FA70,0x1FA7C,20},
{0x1FA7D,0x1FA7F,12},
{0x1FA80,0x1FA88,20},
{0x1FA89,0x1FA8F,12},
{0x1FA90,0x1FABD,20},
{0x1FABE,0x1FABE,12},
{0x1FABF,0x1FAC5,20},
{0x1FAC6,0x1FACD,12},
{0x1FACE,0x1FADB,20},
{0x1FADC,0x1FADF,12},
{0x1FAE0,0x1FAE8,20},
{0x1FAE9,0x1FAEF,12},
{0x1FAF0,0x1FAF8,20},
{0x1FAF9,0x1FAFF,12},
{0x1FB93,0x1FB93,8},
{0x1FBCB,0x1FBEF,8},
{0x1FBFA,0x1FBFF,8},
{0x1FC00,0x1FFFD,12},
{0x1FFFE,0x1FFFF,8},
{0x20000,0x2A6DF,16},
{0x2A6E0,0x2A6FF,24},
{0x2A700,0x2B739,16},
{0x2B73A,0x2B73F,24},
{0x2B740,0x2B81D,16},
{0x2B81E,0x2B81F,24},
{0x2B820,0x2CEA1,16},
{0x2CEA2,0x2CEAF,24},
{0x2CEB0,0x2EBE0,16},
{0x2EBE1,0x2F7FF,24},
{0x2F800,0x2FA1D,16},
{0x2FA1E,0x2FFFD,24},
{0x2FFFE,0x2FFFF,8},
{0x30000,0x3134A,16},
{0x3134B,0x3134F,24},
{0x31350,0x323AF,16},
{0x323B0,0x3FFFD,24},
{0x3FFFE,0xE0000,8},
{0xE0001,0xE0001,2},
{0xE0002,0xE001F,8},
{0xE0020,0xE007F,2},
{0xE0080,0xE00FF,8},
{0xE0100,0xE01EF,2},
{0xE01F0,0xEFFFF,8},
{0xFFFFE,0xFFFFF,8},
{0x10FFFE,0x10FFFF,8},
};
static const um T_up[] = {
{0x61,0x41},
{0x62,0x42},
{0x63,0x43},
{0x64,0x44},
{0x65,0x45},
{0x66,0x46},
{0x67,0x47},
{0x68,0x48},
{0x69,0x49},
{0x6A,0x4A},
{0x6B,0x4B},
{0x6C,0x4C},
{0x6D,0x4D},
{0x6E,0x4E},
{0x6F,0x4F},
{0x70,0x50},
{0x71,0x51},
{0x72,0x52},
{0x73,0x53},
{0x74,0x54},
{0x75,0x55},
{0x76,0x56},
{0x77,0x57},
{0x78,0x58},
{0x79,0x59},
{0x7A,0x5A},
{0xB5,0x39C},
{0xE0,0xC0},
{0xE1,0xC1},
{0xE2,0xC2},
{0xE3,0xC3},
{0xE4,0xC4},
{0xE5,0xC5},
{0xE6,0xC6},
{0xE7,0xC7},
{0xE8,0xC8},
{0xE9,0xC9},
{0xEA,0xCA},
{0xEB,0xCB},
{0xEC,0xCC},
{0xED,0xCD},
{0xEE,0xCE},
{0xEF,0xCF},
{0xF0,0xD0},
{0xF1,0xD1},
{0xF2,0xD2},
{0xF3,0xD3},
{0xF4,0xD4},
{0xF5,0xD5},
{0xF6,0xD6},
{0xF8,0xD8},
{0xF9,0xD9},
{0xFA,0xDA},
{0xFB,0xDB},
{0xFC,0xDC},
{0xFD,0xDD},
{0xFE,0xDE},
{0xFF,0x178},
{0x101,0x100},
{0x103,0x102},
{0x105,0x104},
{0x107,0x106},
{0x109,0x108},
{0x10B,0x10A},
{0x10D,0x10C},
{0x10F,0x10E},
{0x111,0x110},
{0x113,0x112},
{0x115,0x114},
{0x117,0x116},
{0x119,0x118},
{0x11B,0x11A},
{0x11D,0x11C},
{0x11F,0x11E},
{0x121,0x120},
{0x123,0x122},
{0x125,0x124},
{0x127,0x126},
{0x129,0x128},
{0x12B,0x12A},
{0x12D,0x12C},
{0x12F,0x12E},
{0x131,0x49},
{0x133,0x132},
{0x135,0x134},
{0x137,0x136},
{0x13A,0x139},
{0x13C,0x13B},
{0x13E,0x13D},
{0x140,0x13F},
{0x142,0x141},
{0x144,0x143},
{0x146,0x145},
{0x148,0x147},
{0x14B,0x14A},
{0x14D,0x14C},
{0x14F,0x14E},
{0x151,0x150},
{0x153,0x152},
{0x155,0x154},
{0x157,0x156},
{0x159,0x158},
{0x15B,0x15A},
{0x15D,0x15C},
{0x15F,0x15E},
{0x161,0x160},
{0x163,0x162},
{0x165,0x164},
{0x167,0x166},
{0x169,0x168},
{0x16B,0x16A},
{0x16D,0x16C},
{0x16F,0x16E},
{0x171,0x170},
{0x173,0x172},
{0x175,0x174},
{0x177,0x176},
{0x17A,0x179},
{0x17C,0x17B},
{0x17E,0x17D},
{0x17F,0x53},
{0x180,0x243},
{0x183,0x182},
{0x185,0x184},
{0x188,0x187},
{0x18C,0x18B},
{0x192,0x191},
{0x195,0x1F6},
{0x199,0x198},
{0x19A,0x23D},
{0x19E,0x220},
{0x1A1,0x1A0},
{0x1A3,0x1A2},
{0x1A5,0x1A4},
{0x1A8,0x1A7},
{0x1AD,0x1AC},
{0x1B0,0x1AF},
{0x1B4,0x1B3},
{0x1B6,0x1B5},
{0x1B9,0x1B8},
{0x1BD,0x1BC},
{0x1BF,0x1F7},
{0x1C5,0x1C4},
{0x1C6,0x1C4},
{0x1C8,0x1C7},
{0x1C9,0x1C7},
{0x1CB,0x1CA},
{0x1CC,0x1CA},
{0x1CE,0x1CD},
{0x1D0,0x1CF},
{0x1D2,0x1D1},
{0x1D4,0x1D3},
{0x1D6,0x1D5},
{0x1D8,0x1D7},
{0x1DA,0x1D9},
{0x1DC,0x1DB},
{0x1DD,0x18E},
{0x1DF,0x1DE},
{0x1E1,0x1E0},
{0x1E3,0x1E2},
{0x1E5,0x1E4},
{0x1E7,0x1E6},
{0x1E9,0x1E8},
{0x1EB,0x1EA},
{0x1ED,0x1EC},
{0x1EF,0x1EE},
{0x1F2,0x1F1},
{0x1F3,0x1F1},
{0x1F5,0x1F4},
{0x1F9,0x1F8},
{0x1FB,0x1FA},
{0x1FD,0x1FC},
{0x1FF,0x1FE},
{0x201,0x200},
{0x203,0x202},
{0x205,0x204},
{0x207,0x206},
{0x209,0x208},
{0x20B,0x20A},
{0x20D,0x20C},
{0x20F,0x20E},
{0x211,0x210},
{0x213,0x212},
{0x215,0x214},
{0x217,0x216},
{0x219,0x218},
{0x21B,0x21A},
{0x21D,0x21C},
{0x21F,0x21E},
{0x223,0x222},
{0x225,0x224},
{0x227,0x226},
{0x229,0x228},
{0x22B,0x22A},
{0x22D,0x22C},
{0x22F,0x22E},
{0x231,0x230},
{0x233,0x232},
{0x23C,0x23B},
{0x23F,0x2C7E},
{0x240,0x2C7F},
{0x242,0x241},
{0x247,0x246},
{0x249,0x248},
{0x24B,0x24A},
{0x24D,0x24C},
{0x24F,0x24E},
{0x250,0x2C6F},
{0x251,0x2C6D},
{0x252,0x2C70},
{0x253,0x181},
{0x254,0x186},
{0x256,0x189},
{0x257,0x18A},
{0x259,0x18F},
{0x25B,0x190},
{0x25C,0xA7AB},
{0x260,0x193},
{0x261,0xA7AC},
{0x263,0x194},
{0x265,0xA78D},
{0x266,0xA7AA},
{0x268,0x197},
{0x269,0x196},
{0x26A,0xA7AE},
{0x26B,0x2C62},
{0x26C,0xA7AD},
{0x26F,0x19C},
{0x271,0x2C6E},
{0x272,0x19D},
{0x275,0x19F},
{0x27D,0x2C64},
{0x280,0x1A6},
{0x282,0xA7C5},
{0x283,0x1A9},
{0x287,0xA7B1},
{0x288,0x1AE},
{0x289,0x244},
{0x28A,0x1B1},
{0x28B,0x1B2},
{0x28C,0x245},
{0x292,0x1B7},
{0x29D,0xA7B2},
{0x29E,0xA7B0},
{0x345,0x399},
{0x371,0x370},
{0x373,0x372},
{0x377,0x376},
{0x37B,0x3FD},
{0x37C,0x3FE},
{0x37D,0x3FF},
{0x3AC,0x386},
{0x3AD,0x388},
{0x3AE,0x389},
{0x3AF,0x38A},
{0x3B1,0x391},
{0x3B2,0x392},
{0x3B3,0x393},
{0x3B4,0x394},
{0x3B5,0x395},
{0x3B6,0x396},
{0x3B7,0x397},
{0x3B8,0x398},
{0x3B9,0x399},
{0x3BA,0x39A},
{0x3BB,0x39B},
{0x3BC,0x39C},
{0x3BD,0x39D},
{0x3BE,0x39E},
{0x3BF,0x39F},
{0x3C0,0x3A0},
{0x3C1,0x3A1},
{0x3C2,0x3A3},
{0x3C3,0x3A3},
{0x3C4,0x3A4},
{0x3C5,0x3A5},
{0x3C6,0x3A6},
{0x3C7,0x3A7},
{0x3C8,0x3A8},
{0x3C9,0x3A9},
{0x3CA,0x3AA},
{0x3CB,0x3AB},
{0x3CC,0x38C},
{0x3CD,0x38E},
{0x3CE,0x38F},
{0x3D0,0x392},
{0x3D1,0x398},
{0x3D5,0x3A6},
{0x3D6,0x3A0},
{0x3D7,0x3CF},
{0x3D9,0x3D8},
{0x3DB,0x3DA},
{0x3DD,0x3DC},
{0x3DF,0x3DE},
{0x3E1,0x3E0},
{0x3E3,0x3E2},
{0x3E5,0x3E4},
{0x3E7,0x3E6},
{0x3E9,0x3E8},
{0x3EB,0x3EA},
{0x3ED,0x3EC},
{0x3EF,0x3EE},
{0x3F0,0x39A},
{0x3F1,0x3A1},
{0x3F2,0x3F9},
{0x3F3,0x37F},
{0x3F5,0x395},
{0x3F8,0x3F7},
{0x3FB,0x3FA},
{0x430,0x410},
{0x431,0x411},
{0x432,0x412},
{0x433,0x413},
{0x434,0x414},
{0x435,0x415},
{0x436,0x416},
{0x437,0x417},
{0x438,0x418},
{0x439,0x419},
{0x43A,0x41A},
{0x43B,0x41B},
{0x43C,0x41C},
{0x43D,0x41D},
{0x43E,0x41E},
{0x43F,0x41F},
{0x440,0x420},
{0x441,0x421},
{0x442,0x422},
{0x443,0x423},
{0x444,0x424},
{0x445,0x425},
{0x446,0x426},
{0x447,0x427},
{0x448,0x428},
{0x449,0x429},
{0x44A,0x42A},
{0x44B,0x42B},
{0x44C,0x42C},
{0x44D,0x42D},
{0x44E,0x42E},
{0x44F,0x42F},
{0x450,0x400},
{0x451,0x401},
{0x452,0x402},
{0x453,0x403},
{0x454,0x404},
{0x455,0x405},
{0x456,0x406},
{0x457,0x407},
{0x458,0x408},
{0x459,0x409},
{0x45A,0x40A},
{0x45B,0x40B},
{0x45C,0x40C},
{0x45D,0x40D},
{0x45E,0x40E},
{0x45F,0x40F},
{0x461,0x460},
{0x463,0x462},
{0x465,0x464},
{0x467,0x466},
{0x469,0x468},
{0x46B,0x46A},
{0x46D,0x46C},
{0x46F,0x46E},
{0x471,0x470},
{0x473,0x472},
{0x475,0x474},
{0x477,0x476},
{0x479,0x478},
{0x47B,0x47A},
{0x47D,0x47C},
{0x47F,0x47E},
{0x481,0x480},
{0x48B,0x48A},
{0x48D,0x48C},
{0x48F,0x48E},
{0x491,0x490},
{0x493,0x492},
{0x495,0x494},
{0x497,0x496},
{0x499,0x498},
{0x49B,0x49A},
{0x49D,0x49C},
{0x49F,0x49E},
{0x4A1,0x4A0},
{0x4A3,0x4A2},
{0x4A5,0x4A4},
{0x4A7,0x4A6},
{0x4A9,0x4A8},
{0x4AB,0x4AA},
{0x4AD,0x4AC},
{0x4AF,0x4AE},
{0x4B1,0x4B0},
{0x4B3,0x4B2},
{0x4B5,0x4B4},
{0x4B7,0x4B6},
{0x4B9,0x4B8},
{0x4BB,0x4BA},
{0x4BD,0x4BC},
{0x4BF,0x4BE},
{0x4C2,0x4C1},
{0x4C4,0x4C3},
{0x4C6,0x4C5},
{0x4C8,0x4C7},
{0x4CA,0x4C9},
{0x4CC,0x4CB},
{0x4CE,0x4CD},
{0x4CF,0x4C0},
{0x4D1,0x4D0},
{0x4D3,0x4D2},
{0x4D5,0x4D4},
{0x4D7,0x4D6},
{0x4D9,0x4D8},
{0x4DB,0x4DA},
{0x4DD,0x4DC},
{0x4DF,0x4DE},
{0x4E1,0x4E0},
{0x4E3,0x4E2},
{0x4E5,0x4E4},
{0x4E7,0x4E6},
{0x4E9,0x4E8},
{0x4EB,0x4EA},
{0x4ED,0x4EC},
{0x4EF,0x4EE},
{0x4F1,0x4F0},
{0x4F3,0x4F2},
{0x4F5,0x4F4},
{0x4F7,0x4F6},
{0x4F9,0x4F8},
{0x4FB,0x4FA},
{0x4FD,0x4FC},
{0x4FF,0x4FE},
{0x501,0x500},
{0x503,0x502},
{0x505,0x504},
{0x507,0x506},
{0x509,0x508},
{0x50B,0x50A},
{0x50D,0x50C},
{0x50F,0x50E},
{0x511,0x510},
{0x513,0x512},
{0x515,0x514},
{0x517,0x516},
{0x519,0x518},
{0x51B,0x51A},
{0x51D,0x51C},
{0x51F,0x51E},
{0x521,0x520},
{0x523,0x522},
{0x525,0x524},
{0x527,0x526},
{0x529,0x528},
{0x52B,0x52A},
{0x52D,0x52C},
{0x52F,0x52E},
{0x561,0x531},
{0x562,0x532},
{0x563,0x533},
{0x564,0x534},
{0x565,0x535},
{0x566,0x536},
{0x567,0x537},
{0x568,0x538},
{0x569,0x539},
{0x56A,0x53A},
{0x56B,0x53B},
{0x56C,0x53C},
{0x56D,0x53D},
{0x56E,0x53E},
{0x56F,0x53F},
{0x570,0x540},
{0x571,0x541},
{0x572,0x542},
{0x573,0x543},
{0x574,0x544},
{0x575,0x545},
{0x576,0x546},
{0x577,0x547},
{0x578,0x548},
{0x579,0x549},
{0x57A,0x54A},
{0x57B,0x54B},
{0x57C,0x54C},
{0x57D,0x54D},
{0x57E,0x54E},
{0x57F,0x54F},
{0x580,0x550},
{0x581,0x551},
{0x582,0x552},
{0x583,0x553},
{0x584,0x554},
{0x585,0x555},
{0x586,0x556},
{0x10D0,0x1C90},
{0x10D1,0x1C91},
{0x10D2,0x1C92},
{0x10D3,0x1C93},
{0x10D4,0x1C94},
{0x10D5,0x1C95},
{0x10D6,0x1C96},
{0x10D7,0x1C97},
{0x10D8,0x1C98},
{0x10D9,0x1C99},
{0x10DA,0x1C9A},
{0x10DB,0x1C9B},
{0x10DC,0x1C9C},
{0x10DD,0x1C9D},
{0x10DE,0x1C9E},
{0x10DF,0x1C9F},
{0x10E0,0x1CA0},
{0x10E1,0x1CA1},
{0x10E2,0x1CA2},
{0x10E3,0x1CA3},
{0x10E4,0x1CA4},
{0x10E5,0x1CA5},
{0x10E6,0x1CA6},
{0x10E7,0x1CA7},
{0x10E8,0x1CA8},
{0x10E9,0x1CA9},
{0x10EA,0x1CAA},
{0x10EB,0x1CAB},
{0x10EC,0x1CAC},
{0x10ED,0x1CAD},
{0x10EE,0x1CAE},
{0x10EF,0x1CAF},
{0x10F0,0x1CB0},
{0x10F1,0x1CB1},
{0x10F2,0x1CB2},
{0x10F3,0x1CB3},
{0x10F4,0x1CB4},
{0x10F5,0x1CB5},
{0x10F6,0x1CB6},
{0x10F7,0x1CB7},
{0x10F8,0x1CB8},
{0x10F9,0x1CB9},
{0x10FA,0x1CBA},
{0x10FD,0x1CBD},
{0x10FE,0x1CBE},
{0x10FF,0x1CBF},
{0x13F8,0x13F0},
{0x13F9,0x13F1},
{0x13FA,0x13F2},
{0x13FB,0x13F3},
{0x13FC,0x13F4},
{0x13FD,0x13F5},
{0x1C80,0x412},
{0x1C81,0x414},
{0x1C82,0x41E},
{0x1C83,0x421},
{0x1C84,0x422},
{0x1C85,0x422},
{0x1C86,0x42A},
{0x1C87,0x462},
{0x1C88,0xA64A},
{0x1D79,0xA77D},
{0x1D7D,0x2C63},
{0x1D8E,0xA7C6},
{0x1E01,0x1E00},
{0x1E03,0x1E02},
{0x1E05,0x1E04},
{0x1E07,0x1E06},
{0x1E09,0x1E08},
{0x1E0B,0x1E0A},
{0x1E0D,0x1E0C},
{0x1E0F,0x1E0E},
{0x1E11,0x1E10},
{0x1E13,0x1E12},
{0x1E15,0x1E14},
{0x1E17,0x1E16},
{0x1E19,0x1E18},
{0x1E1B,0x1E1A},
{0x1E1D,0x1E1C},
{0x1E1F,0x1E1E},
{0x1E21,0x1E20},
{0x1E23,0x1E22},
{0x1E25,0x1E24},
{0x1E27,0x1E26},
{0x1E29,0x1E28},
{0x1E2B,0x1E2A},
{0x1E2D,0x1E2C},
{0x1E2F,0x1E2E},
{0x1E31,0x1E30},
{0x1E33,0x1E32},
{0x1E35,0x1E34},
{0x1E37,0x1E36},
{0x1E39,0x1E38},
{0x1E3B,0x1E3A},
{0x1E3D,0x1E3C},
{0x1E3F,0x1E3E},
{0x1E41,0x1E40},
{0x1E43,0x1E42},
{0x1E45,0x1E44},
{0x1E47,0x1E46},
{0x1E49,0x1E48},
{0x1E4B,0x1E4A},
{0x1E4D,0x1E4C},
{0x1E4F,0x1E4E},
{0x1E51,0x1E50},
{0x1E53,0x1E52},
{0x1E55,0x1E54},
{0x1E57,0x1E56},
{0x1E59,0x1E58},
{0x1E5B,0x1E5A},
{0x1E5D,0x1E5C},
{0x1E5F,0x1E5E},
{0x1E61,0x1E60},
{0x1E63,0x1E62},
{0x1E65,0x1E64},
{0x1E67,0x1E66},
{0x1E69,0x1E68},
{0x1E6B,0x1E6A},
{0x1E6D,0x1E6C},
{0x1E6F,0x1E6E},
{0x1E71,0x1E70},
{0x1E73,0x1E72},
{0x1E75,0x1E74},
{0x1E77,0x1E76},
{0x1E79,0x1E78},
{0x1E7B,0x1E7A},
{0x1E7D,0x1E7C},
{0x1E7F,0x1E7E},
{0x1E81,0x1E80},
{0x1E83,0x1E82},
{0x1E85,0x1E84},
{0x1E87,0x1E86},
{0x1E89,0x1E88},
{0x1E8B,0x1E8A},
{0x1E8D,0x1E8C},
{0x1E8F,0x1E8E},
{0x1E91,0x1E90},
{0x1E93,0x1E92},
{0x1E95,0x1E94},
{0x1E9B,0x1E60},
{0x1EA1,0x1EA0},
{0x1EA3,0x1EA2},
{0x1EA5,0x1EA4},
{0x1EA7,0x1EA6},
{0x1EA9,0x1EA8},
{0x1EAB,0x1EAA},
{0x1EAD,0x1EAC},
{0x1EAF,0x1EAE},
{0x1EB1,0x1EB0},
{0x1EB3,0x1EB2},
{0x1EB5,0x1EB4},
{0x1EB7,0x1EB6},
{0x1EB9,0x1EB8},
{0x1EBB,0x1EBA},
{0x1EBD,0x1EBC},
{0x1EBF,0x1EBE},
{0x1EC1,0x1EC0},
{0x1EC3,0x1EC2},
{0x1EC5,0x1EC4},
{0x1EC7,0x1EC6},
{0x1EC9,0x1EC8},
{0x1ECB,0x1ECA},
{0x1ECD,0x1ECC},
{0x1ECF,0x1ECE},
{0x1ED1,0x1ED0},
{0x1ED3,0x1ED2},
{0x1ED5,0x1ED4},
{0x1ED7,0x1ED6},
{0x1ED9,0x1ED8},
{0x1EDB,0x1EDA},
{0x1EDD,0x1EDC},
{0x1EDF,0x1EDE},
{0x1EE1,0x1EE0},
{0x1EE3,0x1EE2},
{0x1EE5,0x1EE4},
{0x1EE7,0x1EE6},
{0x1EE9,0x1EE8},
{0x1EEB,0x1EEA},
{0x1EED,0x1EEC},
{0x1EEF,0x1EEE},
{0x1EF1,0x1EF0},
{0x1EF3,0x1EF2},
{0x1EF5,0x1EF4},
{0x1EF7,0x1EF6},
{0x1EF9,0x1EF8},
{0x1EFB,0x1EFA},
{0x1EFD,0x1EFC},
{0x1EFF,0x1EFE},
{0x1F00,0x1F08},
{0x1F01,0x1F09},
{0x1F02,0x1F0A},
{0x1F03,0x1F0B},
{0x1F04,0x1F0C},
{0x1F05,0x1F0D},
{0x1F06,0x1F0E},
{0x1F07,0x1F0F},
{0x1F10,0x1F18},
{0x1F11,0x1F19},
{0x1F12,0x1F1A},
{0x1F13,0x1F1B},
{0x1F14,0x1F1C},
{0x1F15,0x1F1D},
{0x1F20,0x1F28},
{0x1F21,0x1F29},
{0x1F22,0x1F2A},
{0x1F23,0x1F2B},
{0x1F24,0x1F2C},
{0x1F25,0x1F2D},
{0x1F26,0x1F2E},
{0x1F27,0x1F2F},
{0x1F30,0x1F38},
{0x1F31,0x1F39},
{0x1F32,0x1F3A},
{0x1F33,0x1F3B},
{0x1F34,0x1F3C},
{0x1F35,0x1F3D},
{0x1F36,0x1F3E},
{0x1F37,0x1F3F},
{0x1F40,0x1F48},
{0x1F41,0x1F49},
{0x1F42,0x1F4A},
{0x1F43,0x1F4B},
{0x1F44,0x1F4C},
{0x1F45,0x1F4D},
{0x1F51,0x1F59},
{0x1F53,0x1F5B},
{0x1F55,0x1F5D},
{0x1F57,0x1F5F},
{0x1F60,0x1F68},
{0x1F61,0x1F69},
{0x1F62,0x1F6A},
{0x1F63,0x1F6B},
{0x1F64,0x1F6C},
{0x1F65,0x1F6D},
{0x1F66,0x1F6E},
{0x1F67,0x1F6F},
{0x1F70,0x1FBA},
{0x1F71,0x1FBB},
{0x1F72,0x1FC8},
{0x1F73,0x1FC9},
{0x1F74,0x1FCA},
{0x1F75,0x1FCB},
{0x1F76,0x1FDA},
{0x1F77,0x1FDB},
{0x1F78,0x1FF8},
{0x1F79,0x1FF9},
{0x1F7A,0x1FEA},
{0x1F7B,0x1FEB},
{0x1F7C,0x1FFA},
{0x1F7D,0x1FFB},
{0x1F80,0x1F88},
{0x1F81,0x1F89},
{0x1F82,0x1F8A},
{0x1F83,0x1F8B},
{0x1F84,0x1F8C},
{0x1F85,0x1F8D},
{0x1F86,0x1F8E},
{0x1F87,0x1F8F},
{0x1F90,0x1F98},
{0x1F91,0x1F99},
{0x1F92,0x1F9A},
{0x1F93,0x1F9B},
{0x1F94,0x1F9C},
{0x1F95,0x1F9D},
{0x1F96,0x1F9E},
{0x1F97,0x1F9F},
{0x1FA0,0x1FA8},
{0x1FA1,0x1FA9},
{0x1FA2,0x1FAA},
{0x1FA3,0x1FAB},
{0x1FA4,0x1FAC},
{0x1FA5,0x1FAD},
{0x1FA6,0x1FAE},
{0x1FA7,0x1FAF},
{0x1FB0,0x1FB8},
{0x1FB1,0x1FB9},
{0x1FB3,0x1FBC},
{0x1FBE,0x399},
{0x1FC3,0x1FCC},
{0x1FD0,0x1FD8},
{0x1FD1,0x1FD9},
{0x1FE0,0x1FE8},
{0x1FE1,0x1FE9},
{0x1FE5,0x1FEC},
{0x1FF3,0x1FFC},
{0x214E,0x2132},
{0x2170,0x2160},
{0x2171,0x2161},
{0x2172,0x2162},
{0x2173,0x2163},
{0x2174,0x2164},
{0x2175,0x2165},
{0x2176,0x2166},
{0x2177,0x2167},
{0x2178,0x2168},
{0x2179,0x2169},
{0x217A,0x216A},
{0x217B,0x216B},
{0x217C,0x216C},
{0x217D,0x216D},
{0x217E,0x216E},
{0x217F,0x216F},
{0x2184,0x2183},
{0x24D0,0x24B6},
{0x24D1,0x24B7},
{0x24D2,0x24B8},
{0x24D3,0x24B9},
{0x24D4,0x24BA},
{0x24D5,0x24BB},
{0x24D6,0x24BC},
{0x24D7,0x24BD},
{0x24D8,0x24BE},
{0x24D9,0x24BF},
{0x24DA,0x24C0},
{0x24DB,0x24C1},
{0x24DC,0x24C2},
{0x24DD,0x24C3},
{0x24DE,0x24C4},
{0x24DF,0x24C5},
{0x24E0,0x24C6},
{0x24E1,0x24C7},
{0x24E2,0x24C8},
{0x24E3,0x24C9},
{0x24E4,0x24CA},
{0x24E5,0x24CB},
{0x24E6,0x24CC},
{0x24E7,0x24CD},
{0x24E8,0x24CE},
{0x24E9,0x24CF},
{0x2C30,0x2C00},
{0x2C31,0x2C01},
{0x2C32,0x2C02},
{0x2C33,0x2C03},
{0x2C34,0x2C04},
{0x2C35,0x2C05},
{0x2C36,0x2C06},
{0x2C37,0x2C07},
{0x2C38,0x2C08},
{0x2C39,0x2C09},
{0x2C3A,0x2C0A},
{0x2C3B,0x2C0B},
{0x2C3C,0x2C0C},
{0x2C3D,0x2C0D},
{0x2C3E,0x2C0E},
{0x2C3F,0x2C0F},
{0x2C40,0x2C10},
{0x2C41,0x2C11},
{0x2C42,0x2C12},
{0x2C43,0x2C13},
{0x2C44,0x2C14},
{0x2C45,0x2C15},
{0x2C46,0x2C16},
{0x2C47,0x2C17},
{0x2C48,0x2C18},
{0x2C49,0x2C19},
{0x2C4A,0x2C1A},
{0x2C4B,0x2C1B},
{0x2C4C,0x2C1C},
{0x2C4D,0x2C1D},
{0x2C4E,0x2C1E},
{0x2C4F,0x2C1F},
{0x2C50,0x2C20},
{0x2C51,0x2C21},
{0x2C52,0x2C22},
{0x2C53,0x2C23},
{0x2C54,0x2C24},
{0x2C55,0x2C25},
{0x2C56,0x2C26},
{0x2C57,0x2C27},
{0x2C58,0x2C28},
{0x2C59,0x2C29},
{0x2C5A,0x2C2A},
{0x2C5B,0x2C2B},
{0x2C5C,0x2C2C},
{0x2C5D,0x2C2D},
{0x2C5E,0x2C2E},
{0x2C5F,0x2C2F},
{0x2C61,0x2C60},
{0x2C65,0x23A},
{0x2C66,0x23E},
{0x2C68,0x2C67},
{0x2C6A,0x2C69},
{0x2C6C,0x2C6B},
{0x2C73,0x2C72},
{0x2C76,0x2C75},
{0x2C81,0x2C80},
{0x2C83,0x2C82},
{0x2C85,0x2C84},
{0x2C87,0x2C86},
{0x2C89,0x2C88},
{0x2C8B,0x2C8A},
{0x2C8D,0x2C8C},
{0x2C8F,0x2C8E},
{0x2C91,0x2C90},
{0x2C93,0x2C92},
{0x2C95,0x2C94},
{0x2C97,0x2C96},
{0x2C99,0x2C98},
{0x2C9B,0x2C9A},
{0x2C9D,0x2C9C},
{0x2C9F,0x2C9E},
{0x2CA1,0x2CA0},
{0x2CA3,0x2CA2},
{0x2CA5,0x2CA4},
{0x2CA7,0x2CA6},
{0x2CA9,0x2CA8},
{0x2CAB,0x2CAA},
{0x2CAD,0x2CAC},
{0x2CAF,0x2CAE},
{0x2CB1,0x2CB0},
{0x2CB3,0x2CB2},
{0x2CB5,0x2CB4},
{0x2CB7,0x2CB6},
{0x2CB9,0x2CB8},
{0x2CBB,0x2CBA},
{0x2CBD,0x2CBC},
{0x2CBF,0x2CBE},
{0x2CC1,0x2CC0},
{0x2CC3,0x2CC2},
{0x2CC5,0x2CC4},
{0x2CC7,0x2CC6},
{0x2CC9,0x2CC8},
{0x2CCB,0x2CCA},
{0x2CCD,0x2CCC},
{0x2CCF,0x2CCE},
{0x2CD1,0x2CD0},
{0x2CD3,0x2CD2},
{0x2CD5,0x2CD4},
{0x2CD7,0x2CD6},
{0x2CD9,0x2CD8},
{0x2CDB,0x2CDA},
{0x2CDD,0x2CDC},
{0x2CDF,0x2CDE},
{0x2CE1,0x2CE0},
{0x2CE3,0x2CE2},
{0x2CEC,0x2CEB},
{0x2CEE,0x2CED},
{0x2CF3,0x2CF2},
{0x2D00,0x10A0},
{0x2D01,0x10A1},
{0x2D02,0x10A2},
{0x2D03,0x10A3},
{0x2D04,0x10A4},
{0x2D05,0x10A5},
{0x2D06,0x10A6},
{0x2D07,0x10A7},
{0x2D08,0x10A8},
{0x2D09,0x10A9},
{0x2D0A,0x10AA},
{0x2D0B,0x10AB},
{0x2D0C,0x10AC},
{0x2D0D,0x10AD},
{0x2D0E,0x10AE},
{0x2D0F,0x10AF},
{0x2D10,0x10B0},
{0x2D11,0x10B1},
{0x2D12,0x10B2},
{0x2D13,0x10B3},
{0x2D14,0x10B4},
{0x2D15,0x10B5},
{0x2D16,0x10B6},
{0x2D17,0x10B7},
{0x2D18,0x10B8},
{0x2D19,0x10B9},
{0x2D1A,0x10BA},
{0x2D1B,0x10BB},
{0x2D1C,0x10BC},
{0x2D1D,0x10BD},
{0x2D1E,0x10BE},
{0x2D1F,0x10BF},
{0x2D20,0x10C0},
{0x2D21,0x10C1},
{0x2D22,0x10C2},
{0x2D23,0x10C3},
{0x2D24,0x10C4},
{0x2D25,0x10C5},
{0x2D27,0x10C7},
{0x2D2D,0x10CD},
{0xA641,0xA640},
{0xA643,0xA642},
{0xA645,0xA644},
{0xA647,0xA646},
{0xA649,0xA648},
{0xA64B,0xA64A},
{0xA64D,0xA64C},
{0xA64F,0xA64E},
{0xA651,0xA650},
{0xA653,0xA652},
{0xA655,0xA654},
{0xA657,0xA656},
{0xA659,0xA658},
{0xA65B,0xA65A},
{0xA65D,0xA65C},
{0xA65F,0xA65E},
{0xA661,0xA660},
{0xA663,0xA662},
{0xA665,0xA664},
{0xA667,0xA666},
{0xA669,0xA668},
{0xA66B,0xA66A},
{0xA66D,0xA66C},
{0xA681,0xA680},
{0xA683,0xA682},
{0xA685,0xA684},
{0xA687,0xA686},
{0xA689,0xA688},
{0xA68B,0xA68A},
{0xA68D,0xA68C},
{0xA68F,0xA68E},
{0xA691,0xA690},
{0xA693,0xA692},
{0xA695,0xA694},
{0xA697,0xA696},
{0xA699,0xA698},
{0xA69B,0xA69A},
{0xA723,0xA722},
{0xA725,0xA724},
{0xA727,0xA726},
{0xA729,0xA728},
{0xA72B,0xA72A},
{0xA72D,0xA72C},
{0xA72F,0xA72E},
{0xA733,0xA732},
{0xA735,0xA734},
{0xA737,0xA736},
{0xA739,0xA738},
{0xA73B,0xA73A},
{0xA73D,0xA73C},
{0xA73F,0xA73E},
{0xA741,0xA740},
{0xA743,0xA742},
{0xA745,0xA744},
{0xA747,0xA746},
{0xA749,0xA748},
{0xA74B,0xA74A},
{0xA74D,0xA74C},
{0xA74F,0xA74E},
{0xA751,0xA750},
{0xA753,0xA752},
{0xA755,0xA754},
{0xA757,0xA756},
{0xA759,0xA758},
{0xA75B,0xA75A},
{0xA75D,0xA75C},
{0xA75F,0xA75E},
{0xA761,0xA760},
{0xA763,0xA762},
{0xA765,0xA764},
{0xA767,0xA766},
{0xA769,0xA768},
{0xA76B,0xA76A},
{0xA76D,0xA76C},
{0xA76F,0xA76E},
{0xA77A,0xA779},
{0xA77C,0xA77B},
{0xA77F,0xA77E},
{0xA781,0xA780},
{0xA783,0xA782},
{0xA785,0xA784},
{0xA787,0xA786},
{0xA78C,0xA78B},
{0xA791,0xA790},
{0xA793,0xA792},
{0xA794,0xA7C4},
{0xA797,0xA796},
{0xA799,0xA798},
{0xA79B,0xA79A},
{0xA79D,0xA79C},
{0xA79F,0xA79E},
{0xA7A1,0xA7A0},
{0xA7A3,0xA7A2},
{0xA7A5,0xA7A4},
{0xA7A7,0xA7A6},
{0xA7A9,0xA7A8},
{0xA7B5,0xA7B4},
{0xA7B7,0xA7B6},
{0xA7B9,0xA7B8},
{0xA7BB,0xA7BA},
{0xA7BD,0xA7BC},
{0xA7BF,0xA7BE},
{0xA7C1,0xA7C0},
{0xA7C3,0xA7C2},
{0xA7C8,0xA7C7},
{0xA7CA,0xA7C9},
{0xA7D1,0xA7D0},
{0xA7D7,0xA7D6},
{0xA7D9,0xA7D8},
{0xA7F6,0xA7F5},
{0xAB53,0xA7B3},
{0xAB70,0x13A0},
{0xAB71,0x13A1},
{0xAB72,0x13A2},
{0xAB73,0x13A3},
{0xAB74,0x13A4},
{0xAB75,0x13A5},
{0xAB76,0x13A6},
{0xAB77,0x13A7},
{0xAB78,0x13A8},
{0xAB79,0x13A9},
{0xAB7A,0x13AA},
{0xAB7B,0x13AB},
{0xAB7C,0x13AC},
{0xAB7D,0x13AD},
{0xAB7E,0x13AE},
{0xAB7F,0x13AF},
{0xAB80,0x13B0},
{0xAB81,0x13B1},
{0xAB82,0x13B2},
{0xAB83,0x13B3},
{0xAB84,0x13B4},
{0xAB85,0x13B5},
{0xAB86,0x13B6},
{0xAB87,0x13B7},
{0xAB88,0x13B8},
{0xAB89,0x13B9},
{0xAB8A,0x13BA},
{0xAB8B,0x13BB},
{0xAB8C,0x13BC},
{0xAB8D,0x13BD},
{0xAB8E,0x13BE},
{0xAB8F,0x13BF},
{0xAB90,0x13C0},
{0xAB91,0x13C1},
{0xAB92,0x13C2},
{0xAB93,0x13C3},
{0xAB94,0x13C4},
{0xAB95,0x13C5},
{0xAB96,0x13C6},
{0xAB97,0x13C7},
{0xAB98,0x13C8},
{0xAB99,0x13C9},
{0xAB9A,0x13CA},
{0xAB9B,0x13CB},
{0xAB9C,0x13CC},
{0xAB9D,0x13CD},
{0xAB9E,0x13CE},
{0xAB9F,0x13CF},
{0xABA0,0x13D0},
{0xABA1,0x13D1},
{0xABA2,0x13D2},
{0xABA3,0x13D3},
{0xABA4,0x13D4},
{0xABA5,0x13D5},
{0xABA6,0x13D6},
{0xABA7,0x13D7},
{0xABA8,0x13D8},
{0xABA9,0x13D9},
{0xABAA,0x13DA},
{0xABAB,0x13DB},
{0xABAC,0x13DC},
{0xABAD,0x13DD},
{0xABAE,0x13DE},
{0xABAF,0x13DF},
{0xABB0,0x13E0},
{0xABB1,0x13E1},
{0xABB2,0x13E2},
{0xABB3,0x13E3},
{0xABB4,0x13E4},
{0xABB5,0x13E5},
{0xABB6,0x13E6},
{0xABB7,0x13E7},
{0xABB8,0x13E8},
{0xABB9,0x13E9},
{0xABBA,0x13EA},
{0xABBB,0x13EB},
{0xABBC,0x13EC},
{0xABBD,0x13ED},
{0xABBE,0x13EE},
{0xABBF,0x13EF},
{0xFF41,0xFF21},
{0xFF42,0xFF22},
{0xFF43,0xFF23},
{0xFF44,0xFF24},
{0xFF45,0xFF25},
{0xFF46,0xFF26},
{0xFF47,0xFF27},
{0xFF48,0xFF28},
{0xFF49,0xFF29},
{0xFF4A,0xFF2A},
{0xFF4B,0xFF2B},
{0xFF4C,0xFF2C},
{0xFF4D,0xFF2D},
{0xFF4E,0xFF2E},
{0xFF4F,0xFF2F},
{0xFF50,0xFF30},
{0xFF51,0xFF31},
{0xFF52,0xFF32},
{0xFF53,0xFF33},
{0xFF54,0xFF34},
{0xFF55,0xFF35},
{0xFF56,0xFF36},
{0xFF57,0xFF37},
{0xFF58,0xFF38},
{0xFF59,0xFF39},
{0xFF5A,0xFF3A},
{0x10428,0x10400},
{0x10429,0x10401},
{0x1042A,0x10402},
{0x1042B,0x10403},
{0x1042C,0x10404},
{0x1042D,0x10405},
{0x1042E,0x10406},
{0x1042F,0x10407},
{0x10430,0x10408},
{0x10431,0x10409},
{0x10432,0x1040A},
{0x10433,0x1040B},
{0x10434,0x1040C},
{0x10435,0x1040D},
{0x10436,0x1040E},
{0x10437,0x1040F},
{0x10438,0x10410},
{0x10439,0x10411},
{0x1043A,0x10412},
{0x1043B,0x10413},
{0x1043C,0x10414},
{0x1043D,0x10415},
{0x1043E,0x10416},
{0x1043F,0x10417},
{0x10440,0x10418},
{0x10441,0x10419},
{0x10442,0x1041A},
{0x10443,0x1041B},
{0x10444,0x1041C},
{0x10445,0x1041D},
{0x10446,0x1041E},
{0x10447,0x1041F},
{0x10448,0x10420},
{0x10449,0x10421},
{0x1044A,0x10422},
{0x1044B,0x10423},
{0x1044C,0x10424},
{0x1044D,0x10425},
{0x1044E,0x10426},
{0x1044F,0x10427},
{0x104D8,0x104B0},
{0x104D9,0x104B1},
{0x104DA,0x104B2},
{0x104DB,0x104B3},
{0x104DC,0x104B4},
{0x104DD,0x104B5},
{0x104DE,0x104B6},
{0x104DF,0x104B7},
{0x104E0,0x104B8},
{0x104E1,0x104B9},
{0x104E2,0x104BA},
{0x104E3,0x104BB},
{0x104E4,0x104BC},
{0x104E5,0x104BD},
{0x104E6,0x104BE},
{0x104E7,0x104BF},
{0x104E8,0x104C0},
{0x104E9,0x104C1},
{0x104EA,0x104C2},
{0x104EB,0x104C3},
{0x104EC,0x104C4},
{0x104ED,0x104C5},
{0x104EE,0x104C6},
{0x104EF,0x104C7},
{0x104F0,0x104C8},
{0x104F1,0x104C9},
{0x104F2,0x104CA},
{0x104F3,0x104CB},
{0x104F4,0x104CC},
{0x104F5,0x104CD},
{0x104F6,0x104CE},
{0x104F7,0x104CF},
{0x104F8,0x104D0},
{0x104F9,0x104D1},
{0x104FA,0x104D2},
{0x104FB,0x104D3},
{0x10597,0x10570},
{0x10598,0x10571},
{0x10599,0x10572},
{0x1059A,0x10573},
{0x1059B,0x10574},
{0x1059C,0x10575},
{0x1059D,0x10576},
{0x1059E,0x10577},
{0x1059F,0x10578},
{0x105A0,0x10579},
{0x105A1,0x1057A},
{0x105A3,0x1057C},
{0x105A4,0x1057D},
{0x105A5,0x1057E},
{0x105A6,0x1057F},
{0x105A7,0x10580},
{0x105A8,0x10581},
{0x105A9,0x10582},
{0x105AA,0x10583},
{0x105AB,0x10584},
{0x105AC,0x10585},
{0x105AD,0x10586},
{0x105AE,0x10587},
{0x105AF,0x10588},
{0x105B0,0x10589},
{0x105B1,0x1058A},
{0x105B3,0x1058C},
{0x105B4,0x1058D},
{0x105B5,0x1058E},
{0x105B6,0x1058F},
{0x105B7,0x10590},
{0x105B8,0x10591},
{0x105B9,0x10592},
{0x105BB,0x10594},
{0x105BC,0x10595},
{0x10CC0,0x10C80},
{0x10CC1,0x10C81},
{0x10CC2,0x10C82},
{0x10CC3,0x10C83},
{0x10CC4,0x10C84},
{0x10CC5,0x10C85},
{0x10CC6,0x10C86},
{0x10CC7,0x10C87},
{0x10CC8,0x10C88},
{0x10CC9,0x10C89},
{0x10CCA,0x10C8A},
{0x10CCB,0x10C8B},
{0x10CCC,0x10C8C},
{0x10CCD,0x10C8D},
{0x10CCE,0x10C8E},
{0x10CCF,0x10C8F},
{0x10CD0,0x10C90},
{0x10CD1,0x10C91},
{0x10CD2,0x10C92},
{0x10CD3,0x10C93},
{0x10CD4,0x10C94},
{0x10CD5,0x10C95},
{0x10CD6,0x10C96},
{0x10CD7,0x10C97},
{0x10CD8,0x10C98},
{0x10CD9,0x10C99},
{0x10CDA,0x10C9A},
{0x10CDB,0x10C9B},
{0x10CDC,0x10C9C},
{0x10CDD,0x10C9D},
{0x10CDE,0x10C9E},
{0x10CDF,0x10C9F},
{0x10CE0,0x10CA0},
{0x10CE1,0x10CA1},
{0x10CE2,0x10CA2},
{0x10CE3,0x10CA3},
{0x10CE4,0x10CA4},
{0x10CE5,0x10CA5},
{0x10CE6,0x10CA6},
{0x10CE7,0x10CA7},
{0x10CE8,0x10CA8},
{0x10CE9,0x10CA9},
{0x10CEA,0x10CAA},
{0x10CEB,0x10CAB},
{0x10CEC,0x10CAC},
{0x10CED,0x10CAD},
{0x10CEE,0x10CAE},
{0x10CEF,0x10CAF},
{0x10CF0,0x10CB0},
{0x10CF1,0x10CB1},
{0x10CF2,0x10CB2},
{0x118C0,0x118A0},
{0x118C1,0x118A1},
{0x118C2,0x118A2},
{0x118C3,0x118A3},
{0x118C4,0x118A4},
{0x118C5,0x118A5},
{0x118C6,0x118A6},
{0x118C7,0x118A7},
{0x118C8,0x118A8},
{0x118C9,0x118A9},
{0x118CA,0x118AA},
{0x118CB,0x118AB},
{0x118CC,0x118AC},
{0x118CD,0x118AD},
{0x118CE,0x118AE},
{0x118CF,0x118AF},
{0x118D0,0x118B0},
{0x118D1,0x118B1},
{0x118D2,0x118B2},
{0x118D3,0x118B3},
{0x118D4,0x118B4},
{0x118D5,0x118B5},
{0x118D6,0x118B6},
{0x118D7,0x118B7},
{0x118D8,0x118B8},
{0x118D9,0x118B9},
{0x118DA,0x118BA},
{0x118DB,0x118BB},
{0x118DC,0x118BC},
{0x118DD,0x118BD},
{0x118DE,0x118BE},
{0x118DF,0x118BF},
{0x16E60,0x16E40},
{0x16E61,0x16E41},
{0x16E62,0x16E42},
{0x16E63,0x16E43},
{0x16E64,0x16E44},
{0x16E65,0x16E45},
{0x16E66,0x16E46},
{0x16E67,0x16E47},
{0x16E68,0x16E48},
{0x16E69,0x16E49},
{0x16E6A,0x16E4A},
{0x16E6B,0x16E4B},
{0x16E6C,0x16E4C},
{0x16E6D,0x16E4D},
{0x16E6E,0x16E4E},
{0x16E6F,0x16E4F},
{0x16E70,0x16E50},
{0x16E71,0x16E51},
{0x16E72,0x16E52},
{0x16E73,0x16E53},
{0x16E74,0x16E54},
{0x16E75,0x16E55},
{0x16E76,0x16E56},
{0x16E77,0x16E57},
{0x16E78,0x16E58},
{0x16E79,0x16E59},
{0x16E7A,0x16E5A},
{0x16E7B,0x16E5B},
{0x16E7C,0x16E5C},
{0x16E7D,0x16E5D},
{0x16E7E,0x16E5E},
{0x16E7F,0x16E5F},
{0x1E922,0x1E900},
{0x1E923,0x1E901},
{0x1E924,0x1E902},
{0x1E925,0x1E903},
{0x1E926,0x1E904},
{0x1E927,0x1E905},
{0x1E928,0x1E906},
{0x1E929,0x1E907},
{0x1E92A,0x1E908},
{0x1E92B,0x1E909},
{0x1E92C,0x1E90A},
{0x1E92D,0x1E90B},
{0x1E92E,0x1E90C},
{0x1E92F,0x1E90D},
{0x1E930,0x1E90E},
{0x1E931,0x1E90F},
{0x1E932,0x1E910},
{0x1E933,0x1E911},
{0x1E934,0x1E912},
{0x1E935,0x1E913},
{0x1E936,0x1E914},
{0x1E937,0x1E915},
{0x1E938,0x1E916},
{0x1E939,0x1E917},
{0x1E93A,0x1E918},
{0x1E93B,0x1E919},
{0x1E93C,0x1E91A},
{0x1E93D,0x1E91B},
{0x1E93E,0x1E91C},
{0x1E93F,0x1E91D},
{0x1E940,0x1E91E},
{0x1E941,0x1E91F},
{0x1E942,0x1E920},
{0x1E943,0x1E921},
};
static const um T_lo[] = {
{0x41,0x61},
{0x42,0x62},
{0x43,0x63},
{0x44,0x64},
{0x45,0x65},
{0x46,0x66},
{0x47,0x67},
{0x48,0x68},
{0x49,0x69},
{0x4A,0x6A},
{0x4B,0x6B},
{0x4C,0x6C},
{0x4D,0x6D},
{0x4E,0x6E},
{0x4F,0x6F},
{0x50,0x70},
{0x51,0x71},
{0x52,0x72},
{0x53,0x73},
{0x54,0x74},
{0x55,0x75},
{0x56,0x76},
{0x57,0x77},
{0x58,0x78},
{0x59,0x79},
{0x5A,0x7A},
{0xC0,0xE0},
{0xC1,0xE1},
{0xC2,0xE2},
{0xC3,0xE3},
{0xC4,0xE4},
{0xC5,0xE5},
{0xC6,0xE6},
{0xC7,0xE7},
{0xC8,0xE8},
{0xC9,0xE9},
{0xCA,0xEA},
{0xCB,0xEB},
{0xCC,0xEC},
{0xCD,0xED},
{0xCE,0xEE},
{0xCF,0xEF},
{0xD0,0xF0},
{0xD1,0xF1},
{0xD2,0xF2},
{0xD3,0xF3},
{0xD4,0xF4},
{0xD5,0xF5},
{0xD6,0xF6},
{0xD8,0xF8},
{0xD9,0xF9},
{0xDA,0xFA},
{0xDB,0xFB},
{0xDC,0xFC},
{0xDD,0xFD},
{0xDE,0xFE},
{0x100,0x101},
{0x102,0x103},
{0x104,0x105},
{0x106,0x107},
{0x108,0x109},
{0x10A,0x10B},
{0x10C,0x10D},
{0x10E,0x10F},
{0x110,0x111},
{0x112,0x113},
{0x114,0x115},
{0x116,0x117},
{0x118,0x119},
{0x11A,0x11B},
{0x11C,0x11D},
{0x11E,0x11F},
{0x120,0x121},
{0x122,0x123},
{0x124,0x125},
{0x126,0x127},
{0x128,0x129},
{0x12A,0x12B},
{0x12C,0x12D},
{0x12E,0x12F},
{0x130,0x69},
{0x132,0x133},
{0x134,0x135},
{0x136,0x137},
{0x139,0x13A},
{0x13B,0x13C},
{0x13D,0x13E},
{0x13F,0x140},
{0x141,0x142},
{0x143,0x144},
{0x145,0x146},
{0x147,0x148},
{0x14A,0x14B},
{0x14C,0x14D},
{0x14E,0x14F},
{0x150,0x151},
{0x152,0x153},
{0x154,0x155},
{0x156,0x157},
{0x158,0x159},
{0x15A,0x15B},
{0x15C,0x15D},
{0x15E,0x15F},
{0x160,0x161},
{0x162,0x163},
{0x164,0x165},
{0x166,0x167},
{0x168,0x169},
{0x16A,0x16B},
{0x16C,0x16D},
{0x16E,0x16F},
{0x170,0x171},
{0x172,0x173},
{0x174,0x175},
{0x176,0x177},
{0x178,0xFF},
{0x179,0x17A},
{0x17B,0x17C},
{0x17D,0x17E},
{0x181,0x253},
{0x182,0x183},
{0x184,0x185},
{0x186,0x254},
{0x187,0x188},
{0x189,0x256},
{0x18A,0x257},
{0x18B,0x18C},
{0x18E,0x1DD},
{0x18F,0x259},
{0x190,0x25B},
{0x191,0x192},
{0x193,0x260},
{0x194,0x263},
{0x196,0x269},
{0x197,0x268},
{0x198,0x199},
{0x19C,0x26F},
{0x19D,0x272},
{0x19F,0x275},
{0x1A0,0x1A1},
{0x1A2,0x1A3},
{0x1A4,0x1A5},
{0x1A6,0x280},
{0x1A7,0x1A8},
{0x1A9,0x283},
{0x1AC,0x1AD},
{0x1AE,0x288},
{0x1AF,0x1B0},
{0x1B1,0x28A},
{0x1B2,0x28B},
{0x1B3,0x1B4},
{0x1B5,0x1B6},
{0x1B7,0x292},
{0x1B8,0x1B9},
{0x1BC,0x1BD},
{0x1C4,0x1C6},
{0x1C5,0x1C6},
{0x1C7,0x1C9},
{0x1C8,0x1C9},
{0x1CA,0x1CC},
{0x1CB,0x1CC},
{0x1CD,0x1CE},
{0x1CF,0x1D0},
{0x1D1,0x1D2},
{0x1D3,0x1D4},
{0x1D5,0x1D6},
{0x1D7,0x1D8},
{0x1D9,0x1DA},
{0x1DB,0x1DC},
{0x1DE,0x1DF},
{0x1E0,0x1E1},
{0x1E2,0x1E3},
{0x1E4,0x1E5},
{0x1E6,0x1E7},
{0x1E8,0x1E9},
{0x1EA,0x1EB},
{0x1EC,0x1ED},
{0x1EE,0x1EF},
{0x1F1,0x1F3},
{0x1F2,0x1F3},
{0x1F4,0x1F5},
{0x1F6,0x195},
{0x1F7,0x1BF},
{0x1F8,0x1F9},
{0x1FA,0x1FB},
{0x1FC,0x1FD},
{0x1FE,0x1FF},
{0x200,0x201},
{0x202,0x203},
{0x204,0x205},
{0x206,0x207},
{0x208,0x209},
{0x20A,0x20B},
{0x20C,0x20D},
{0x20E,0x20F},
{0x210,0x211},
{0x212,0x213},
{0x214,0x215},
{0x216,0x217},
{0x218,0x219},
{0x21A,0x21B},
{0x21C,0x21D},
{0x21E,0x21F},
{0x220,0x19E},
{0x222,0x223},
{0x224,0x225},
{0x226,0x227},
{0x228,0x229},
{0x22A,0x22B},
{0x22C,0x22D},
{0x22E,0x22F},
{0x230,0x231},
{0x232,0x233},
{0x23A,0x2C65},
{0x23B,0x23C},
{0x23D,0x19A},
{0x23E,0x2C66},
{0x241,0x242},
{0x243,0x180},
{0x244,0x289},
{0x245,0x28C},
{0x246,0x247},
{0x248,0x249},
{0x24A,0x24B},
{0x24C,0x24D},
{0x24E,0x24F},
{0x370,0x371},
{0x372,0x373},
{0x376,0x377},
{0x37F,0x3F3},
{0x386,0x3AC},
{0x388,0x3AD},
{0x389,0x3AE},
{0x38A,0x3AF},
{0x38C,0x3CC},
{0x38E,0x3CD},
{0x38F,0x3CE},
{0x391,0x3B1},
{0x392,0x3B2},
{0x393,0x3B3},
{0x394,0x3B4},
{0x395,0x3B5},
{0x396,0x3B6},
{0x397,0x3B7},
{0x398,0x3B8},
{0x399,0x3B9},
{0x39A,0x3BA},
{0x39B,0x3BB},
{0x39C,0x3BC},
{0x39D,0x3BD},
{0x39E,0x3BE},
{0x39F,0x3BF},
{0x3A0,0x3C0},
{0x3A1,0x3C1},
{0x3A3,0x3C3},
{0x3A4,0x3C4},
{0x3A5,0x3C5},
{0x3A6,0x3C6},
{0x3A7,0x3C7},
{0x3A8,0x3C8},
{0x3A9,0x3C9},
{0x3AA,0x3CA},
{0x3AB,0x3CB},
{0x3CF,0x3D7},
{0x3D8,0x3D9},
{0x3DA,0x3DB},
{0x3DC,0x3DD},
{0x3DE,0x3DF},
{0x3E0,0x3E1},
{0x3E2,0x3E3},
{0x3E4,0x3E5},
{0x3E6,0x3E7},
{0x3E8,0x3E9},
{0x3EA,0x3EB},
{0x3EC,0x3ED},
{0x3EE,0x3EF},
{0x3F4,0x3B8},
{0x3F7,0x3F8},
{0x3F9,0x3F2},
{0x3FA,0x3FB},
{0x3FD,0x37B},
{0x3FE,0x37C},
{0x3FF,0x37D},
{0x400,0x450},
{0x401,0x451},
{0x402,0x452},
{0x403,0x453},
{0x404,0x454},
{0x405,0x455},
{0x406,0x456},
{0x407,0x457},
{0x408,0x458},
{0x409,0x459},
{0x40A,0x45A},
{0x40B,0x45B},
{0x40C,0x45C},
{0x40D,0x45D},
{0x40E,0x45E},
{0x40F,0x45F},
{0x410,0x430},
{0x411,0x431},
{0x412,0x432},
{0x413,0x433},
{0x414,0x434},
{0x415,0x435},
{0x416,0x436},
{0x417,0x437},
{0x418,0x438},
{0x419,0x439},
{0x41A,0x43A},
{0x41B,0x43B},
{0x41C,0x43C},
{0x41D,0x43D},
{0x41E,0x43E},
{0x41F,0x43F},
{0x420,0x440},
{0x421,0x441},
{0x422,0x442},
{0x423,0x443},
{0x424,0x444},
{0x425,0x445},
{0x426,0x446},
{0x427,0x447},
{0x428,0x448},
{0x429,0x449},
{0x42A,0x44A},
{0x42B,0x44B},
{0x42C,0x44C},
{0x42D,0x44D},
{0x42E,0x44E},
{0x42F,0x44F},
{0x460,0x461},
{0x462,0x463},
{0x464,0x465},
{0x466,0x467},
{0x468,0x469},
{0x46A,0x46B},
{0x46C,0x46D},
{0x46E,0x46F},
{0x470,0x471},
{0x472,0x473},
{0x474,0x475},
{0x476,0x477},
{0x478,0x479},
{0x47A,0x47B},
{0x47C,0x47D},
{0x47E,0x47F},
{0x480,0x481},
{0x48A,0x48B},
{0x48C,0x48D},
{0x48E,0x48F},
{0x490,0x491},
{0x492,0x493},
{0x494,0x495},
{0x496,0x497},
{0x498,0x499},
{0x49A,0x49B},
{0x49C,0x49D},
{0x49E,0x49F},
{0x4A0,0x4A1},
{0x4A2,0x4A3},
{0x4A4,0x4A5},
{0x4A6,0x4A7},
{0x4A8,0x4A9},
{0x4AA,0x4AB},
{0x4AC,0x4AD},
{0x4AE,0x4AF},
{0x4B0,0x4B1},
{0x4B2,0x4B3},
{0x4B4,0x4B5},
{0x4B6,0x4B7},
{0x4B8,0x4B9},
{0x4BA,0x4BB},
{0x4BC,0x4BD},
{0x4BE,0x4BF},
{0x4C0,0x4CF},
{0x4C1,0x4C2},
{0x4C3,0x4C4},
{0x4C5,0x4C6},
{0x4C7,0x4C8},
{0x4C9,0x4CA},
{0x4CB,0x4CC},
{0x4CD,0x4CE},
{0x4D0,0x4D1},
{0x4D2,0x4D3},
{0x4D4,0x4D5},
{0x4D6,0x4D7},
{0x4D8,0x4D9},
{0x4DA,0x4DB},
{0x4DC,0x4DD},
{0x4DE,0x4DF},
{0x4E0,0x4E1},
{0x4E2,0x4E3},
{0x4E4,0x4E5},
{0x4E6,0x4E7},
{0x4E8,0x4E9},
{0x4EA,0x4EB},
{0x4EC,0x4ED},
{0x4EE,0x4EF},
{0x4F0,0x4F1},
{0x4F2,0x4F3},
{0x4F4,0x4F5},
{0x4F6,0x4F7},
{0x4F8,0x4F9},
{0x4FA,0x4FB},
{0x4FC,0x4FD},
{0x4FE,0x4FF},
{0x500,0x501},
{0x502,0x503},
{0x504,0x505},
{0x506,0x507},
{0x508,0x509},
{0x50A,0x50B},
{0x50C,0x50D},
{0x50E,0x50F},
{0x510,0x511},
{0x512,0x513},
{0x514,0x515},
{0x516,0x517},
{0x518,0x519},
{0x51A,0x51B},
{0x51C,0x51D},
{0x51E,0x51F},
{0x520,0x521},
{0x522,0x523},
{0x524,0x525},
{0x526,0x527},
{0x528,0x529},
{0x52A,0x52B},
{0x52C,0x52D},
{0x52E,0x52F},
{0x531,0x561},
{0x532,0x562},
{0x533,0x563},
{0x534,0x564},
{0x535,0x565},
{0x536,0x566},
{0x537,0x567},
{0x538,0x568},
{0x539,0x569},
{0x53A,0x56A},
{0x53B,0x56B},
{0x53C,0x56C},
{0x53D,0x56D},
{0x53E,0x56E},
{0x53F,0x56F},
{0x540,0x570},
{0x541,0x571},
{0x542,0x572},
{0x543,0x573},
{0x544,0x574},
{0x545,0x575},
{0x546,0x576},
{0x547,0x577},
{0x548,0x578},
{0x549,0x579},
{0x54A,0x57A},
{0x54B,0x57B},
{0x54C,0x57C},
{0x54D,0x57D},
{0x54E,0x57E},
{0x54F,0x57F},
{0x550,0x580},
{0x551,0x581},
{0x552,0x582},
{0x553,0x583},
{0x554,0x584},
{0x555,0x585},
{0x556,0x586},
{0x10A0,0x2D00},
{0x10A1,0x2D01},
{0x10A2,0x2D02},
{0x10A3,0x2D03},
{0x10A4,0x2D04},
{0x10A5,0x2D05},
{0x10A6,0x2D06},
{0x10A7,0x2D07},
{0x10A8,0x2D08},
{0x10A9,0x2D09},
{0x10AA,0x2D0A},
{0x10AB,0x2D0B},
{0x10AC,0x2D0C},
{0x10AD,0x2D0D},
{0x10AE,0x2D0E},
{0x10AF,0x2D0F},
{0x10B0,0x2D10},
{0x10B1,0x2D11},
{0x10B2,0x2D12},
{0x10B3,0x2D13},
{0x10B4,0x2D14},
{0x10B5,0x2D15},
{0x10B6,0x2D16},
{0x10B7,0x2D17},
{0x10B8,0x2D18},
{0x10B9,0x2D19},
{0x10BA,0x2D1A},
{0x10BB,0x2D1B},
{0x10BC,0x2D1C},
{0x10BD,0x2D1D},
{0x10BE,0x2D1E},
{0x10BF,0x2D1F},
{0x10C0,0x2D20},
{0x10C1,0x2D21},
{0x10C2,0x2D22},
{0x10C3,0x2D23},
{0x10C4,0x2D24},
{0x10C5,0x2D25},
{0x10C7,0x2D27},
{0x10CD,0x2D2D},
{0x13A0,0xAB70},
{0x13A1,0xAB71},
{0x13A2,0xAB72},
{0x13A3,0xAB73},
{0x13A4,0xAB74},
{0x13A5,0xAB75},
{0x13A6,0xAB76},
{0x13A7,0xAB77},
{0x13A8,0xAB78},
{0x13A9,0xAB79},
{0x13AA,0xAB7A},
{0x13AB,0xAB7B},
{0x13AC,0xAB7C},
{0x13AD,0xAB7D},
{0x13AE,0xAB7E},
{0x13AF,0xAB7F},
{0x13B0,0xAB80},
{0x13B1,0xAB81},
{0x13B2,0xAB82},
{0x13B3,0xAB83},
{0x13B4,0xAB84},
{0x13B5,0xAB85},
{0x13B6,0xAB86},
{0x13B7,0xAB87},
{0x13B8,0xAB88},
{0x13B9,0xAB89},
{0x13BA,0xAB8A},
{0x13BB,0xAB8B},
{0x13BC,0xAB8C},
{0x13BD,0xAB8D},
{0x13BE,0xAB8E},
{0x13BF,0xAB8F},
{0x13C0,0xAB90},
{0x13C1,0xAB91},
{0x13C2,0xAB92},
{0x13C3,0xAB93},
{0x13C4,0xAB94},
{0x13C5,0xAB95},
{0x13C6,0xAB96},
{0x13C7,0xAB97},
{0x13C8,0xAB98},
{0x13C9,0xAB99},
{0x13CA,0xAB9A},
{0x13CB,0xAB9B},
{0x13CC,0xAB9C},
{0x13CD,0xAB9D},
{0x13CE,0xAB9E},
{0x13CF,0xAB9F},
{0x13D0,0xABA0},
{0x13D1,0xABA1},
{0x13D2,0xABA2},
{0x13D3,0xABA3},
{0x13D4,0xABA4},
{0x13D5,0xABA5},
{0x13D6,0xABA6},
{0x13D7,0xABA7},
{0x13D8,0xABA8},
{0x13D9,0xABA9},
{0x13DA,0xABAA},
{0x13DB,0xABAB},
{0x13DC,0xABAC},
{0x13DD,0xABAD},
{0x13DE,0xABAE},
{0x13DF,0xABAF},
{0x13E0,0xABB0},
{0x13E1,0xABB1},
{0x13E2,0xABB2},
{0x13E3,0xABB3},
{0x13E4,0xABB4},
{0x13E5,0xABB5},
{0x13E6,0xABB6},
{0x13E7,0xABB7},
{0x13E8,0xABB8},
{0x13E9,0xABB9},
{0x13EA,0xABBA},
{0x13EB,0xABBB},
{0x13EC,0xABBC},
{0x13ED,0xABBD},
{0x13EE,0xABBE},
{0x13EF,0xABBF},
{0x13F0,0x13F8},
{0x13F1,0x13F9},
{0x13F2,0x13FA},
{0x13F3,0x13FB},
{0x13F4,0x13FC},
{0x13F5,0x13FD},
{0x1C90,0x10D0},
{0x1C91,0x10D1},
{0x1C92,0x10D2},
{0x1C93,0x10D3},
{0x1C94,0x10D4},
{0x1C95,0x10D5},
{0x1C96,0x10D6},
{0x1C97,0x10D7},
{0x1C98,0x10D8},
{0x1C99,0x10D9},
{0x1C9A,0x10DA},
{0x1C9B,0x10DB},
{0x1C9C,0x10DC},
{0x1C9D,0x10DD},
{0x1C9E,0x10DE},
{0x1C9F,0x10DF},
{0x1CA0,0x10E0},
{0x1CA1,0x10E1},
{0x1CA2,0x10E2},
{0x1CA3,0x10E3},
{0x1CA4,0x10E4},
{0x1CA5,0x10E5},
{0x1CA6,0x10E6},
{0x1CA7,0x10E7},
{0x1CA8,0x10E8},
{0x1CA9,0x10E9},
{0x1CAA,0x10EA},
{0x1CAB,0x10EB},
{0x1CAC,0x10EC},
{0x1CAD,0x10ED},
{0x1CAE,0x10EE},
{0x1CAF,0x10EF},
{0x1CB0,0x10F0},
{0x1CB1,0x10F1},
{0x1CB2,0x10F2},
{0x1CB3,0x10F3},
{0x1CB4,0x10F4},
{0x1CB5,0x10F5},
{0x1CB6,0x10F6},
{0x1CB7,0x10F7},
{0x1CB8,0x10F8},
{0x1CB9,0x10F9},
{0x1CBA,0x10FA},
{0x1CBD,0x10FD},
{0x1CBE,0x10FE},
{0x1CBF,0x10FF},
{0x1E00,0x1E01},
{0x1E02,0x1E03},
{0x1E04,0x1E05},
{0x1E06,0x1E07},
{0x1E08,0x1E09},
{0x1E0A,0x1E0B},
{0x1E0C,0x1E0D},
{0x1E0E,0x1E0F},
{0x1E10,0x1E11},
{0x1E12,0x1E13},
{0x1E14,0x1E15},
{0x1E16,0x1E17},
{0x1E18,0x1E19},
{0x1E1A,0x1E1B},
{0x1E1C,0x1E1D},
{0x1E1E,0x1E1F},
{0x1E20,0x1E21},
{0x1E22,0x1E23},
{0x1E24,0x1E25},
{0x1E26,0x1E27},
{0x1E28,0x1E29},
{0x1E2A,0x1E2B},
{0x1E2C,0x1E2D},
{0x1E2E,0x1E2F},
{0x1E30,0x1E31},
{0x1E32,0x1E33},
{0x1E34,0x1E35},
{0x1E36,0x1E37},
{0x1E38,0x1E39},
{0x1E3A,0x1E3B},
{0x1E3C,0x1E3D},
{0x1E3E,0x1E3F},
{0x1E40,0x1E41},
{0x1E42,0x1E43},
{0x1E44,0x1E45},
{0x1E46,0x1E47},
{0x1E48,0x1E49},
{0x1E4A,0x1E4B},
{0x1E4C,0x1E4D},
{0x1E4E,0x1E4F},
{0x1E50,0x1E51},
{0x1E52,0x1E53},
{0x1E54,0x1E55},
{0x1E56,0x1E57},
{0x1E58,0x1E59},
{0x1E5A,0x1E5B},
{0x1E5C,0x1E5D},
{0x1E5E,0x1E5F},
{0x1E60,0x1E61},
{0x1E62,0x1E63},
{0x1E64,0x1E65},
{0x1E66,0x1E67},
{0x1E68,0x1E69},
{0x1E6A,0x1E6B},
{0x1E6C,0x1E6D},
{0x1E6E,0x1E6F},
{0x1E70,0x1E71},
{0x1E72,0x1E73},
{0x1E74,0x1E75},
{0x1E76,0x1E77},
{0x1E78,0x1E79},
{0x1E7A,0x1E7B},
{0x1E7C,0x1E7D},
{0x1E7E,0x1E7F},
{0x1E80,0x1E81},
{0x1E82,0x1E83},
{0x1E84,0x1E85},
{0x1E86,0x1E87},
{0x1E88,0x1E89},
{0x1E8A,0x1E8B},
{0x1E8C,0x1E8D},
{0x1E8E,0x1E8F},
{0x1E90,0x1E91},
{0x1E92,0x1E93},
{0x1E94,0x1E95},
{0x1E9E,0xDF},
{0x1EA0,0x1EA1},
{0x1EA2,0x1EA3},
{0x1EA4,0x1EA5},
{0x1EA6,0x1EA7},
{0x1EA8,0x1EA9},
{0x1EAA,0x1EAB},
{0x1EAC,0x1EAD},
{0x1EAE,0x1EAF},
{0x1EB0,0x1EB1},
{0x1EB2,0x1EB3},
{0x1EB4,0x1EB5},
{0x1EB6,0x1EB7},
{0x1EB8,0x1EB9},
{0x1EBA,0x1EBB},
{0x1EBC,0x1EBD},
{0x1EBE,0x1EBF},
{0x1EC0,0x1EC1},
{0x1EC2,0x1EC3},
{0x1EC4,0x1EC5},
{0x1EC6,0x1EC7},
{0x1EC8,0x1EC9},
{0x1ECA,0x1ECB},
{0x1ECC,0x1ECD},
{0x1ECE,0x1ECF},
{0x1ED0,0x1ED1},
{0x1ED2,0x1ED3},
{0x1ED4,0x1ED5},
{0x1ED6,0x1ED7},
{0x1ED8,0x1ED9},
{0x1EDA,0x1EDB},
{0x1EDC,0x1EDD},
{0x1EDE,0x1EDF},
{0x1EE0,0x1EE1},
{0x1EE2,0x1EE3},
{0x1EE4,0x1EE5},
{0x1EE6,0x1EE7},
{0x1EE8,0x1EE9},
{0x1EEA,0x1EEB},
{0x1EEC,0x1EED},
{0x1EEE,0x1EEF},
{0x1EF0,0x1EF1},
{0x1EF2,0x1EF3},
{0x1EF4,0x1EF5},
{0x1EF6,0x1EF7},
{0x1EF8,0x1EF9},
{0x1EFA,0x1EFB},
{0x1EFC,0x1EFD},
{0x1EFE,0x1EFF},
{0x1F08,0x1F00},
{0x1F09,0x1F01},
{0x1F0A,0x1F02},
{0x1F0B,0x1F03},
{0x1F0C,0x1F04},
{0x1F0D,0x1F05},
{0x1F0E,0x1F06},
{0x1F0F,0x1F07},
{0x1F18,0x1F10},
{0x1F19,0x1F11},
{0x1F1A,0x1F12},
{0x1F1B,0x1F13},
{0x1F1C,0x1F14},
{0x1F1D,0x1F15},
{0x1F28,0x1F20},
{0x1F29,0x1F21},
{0x1F2A,0x1F22},
{0x1F2B,0x1F23},
{0x1F2C,0x1F24},
{0x1F2D,0x1F25},
{0x1F2E,0x1F26},
{0x1F2F,0x1F27},
{0x1F38,0x1F30},
{0x1F39,0x1F31},
{0x1F3A,0x1F32},
{0x1F3B,0x1F33},
{0x1F3C,0x1F34},
{0x1F3D,0x1F35},
{0x1F3E,0x1F36},
{0x1F3F,0x1F37},
{0x1F48,0x1F40},
{0x1F49,0x1F41},
{0x1F4A,0x1F42},
{0x1F4B,0x1F43},
{0x1F4C,0x1F44},
{0x1F4D,0x1F45},
{0x1F59,0x1F51},
{0x1F5B,0x1F53},
{0x1F5D,0x1F55},
{0x1F5F,0x1F57},
{0x1F68,0x1F60},
{0x1F69,0x1F61},
{0x1F6A,0x1F62},
{0x1F6B,0x1F63},
{0x1F6C,0x1F64},
{0x1F6D,0x1F65},
{0x1F6E,0x1F66},
{0x1F6F,0x1F67},
{0x1F88,0x1F80},
{0x1F89,0x1F81},
{0x1F8A,0x1F82},
{0x1F8B,0x1F83},
{0x1F8C,0x1F84},
{0x1F8D,0x1F85},
{0x1F8E,0x1F86},
{0x1F8F,0x1F87},
{0x1F98,0x1F90},
{0x1F99,0x1F91},
{0x1F9A,0x1F92},
{0x1F9B,0x1F93},
{0x1F9C,0x1F94},
{0x1F9D,0x1F95},
{0x1F9E,0x1F96},
{0x1F9F,0x1F97},
{0x1FA8,0x1FA0},
{0x1FA9,0x1FA1},
{0x1FAA,0x1FA2},
{0x1FAB,0x1FA3},
{0x1FAC,0x1FA4},
{0x1FAD,0x1FA5},
{0x1FAE,0x1FA6},
{0x1FAF,0x1FA7},
{0x1FB8,0x1FB0},
{0x1FB9,0x1FB1},
{0x1FBA,0x1F70},
{0x1FBB,0x1F71},
{0x1FBC,0x1FB3},
{0x1FC8,0x1F72},
{0x1FC9,0x1F73},
{0x1FCA,0x1F74},
{0x1FCB,0x1F75},
{0x1FCC,0x1FC3},
{0x1FD8,0x1FD0},
{0x1FD9,0x1FD1},
{0x1FDA,0x1F76},
{0x1FDB,0x1F77},
{0x1FE8,0x1FE0},
{0x1FE9,0x1FE1},
{0x1FEA,0x1F7A},
{0x1FEB,0x1F7B},
{0x1FEC,0x1FE5},
{0x1FF8,0x1F78},
{0x1FF9,0x1F79},
{0x1FFA,0x1F7C},
{0x1FFB,0x1F7D},
{0x1FFC,0x1FF3},
{0x2126,0x3C9},
{0x212A,0x6B},
{0x212B,0xE5},
{0x2132,0x214E},
{0x2160,0x2170},
{0x2161,0x2171},
{0x2162,0x2172},
{0x2163,0x2173},
{0x2164,0x2174},
{0x2165,0x2175},
{0x2166,0x2176},
{0x2167,0x2177},
{0x2168,0x2178},
{0x2169,0x2179},
{0x216A,0x217A},
{0x216B,0x217B},
{0x216C,0x217C},
{0x216D,0x217D},
{0x216E,0x217E},
{0x216F,0x217F},
{0x2183,0x2184},
{0x24B6,0x24D0},
{0x24B7,0x24D1},
{0x24B8,0x24D2},
{0x24B9,0x24D3},
{0x24BA,0x24D4},
{0x24BB,0x24D5},
{0x24BC,0x24D6},
{0x24BD,0x24D7},
{0x24BE,0x24D8},
{0x24BF,0x24D9},
{0x24C0,0x24DA},
{0x24C1,0x24DB},
{0x24C2,0x24DC},
{0x24C3,0x24DD},
{0x24C4,0x24DE},
{0x24C5,0x24DF},
{0x24C6,0x24E0},
{0x24C7,0x24E1},
{0x24C8,0x24E2},
{0x24C9,0x24E3},
{0x24CA,0x24E4},
{0x24CB,0x24E5},
{0x24CC,0x24E6},
{0x24CD,0x24E7},
{0x24CE,0x24E8},
{0x24CF,0x24E9},
{0x2C00,0x2C30},
{0x2C01,0x2C31},
{0x2C02,0x2C32},
{0x2C03,0x2C33},
{0x2C04,0x2C34},
{0x2C05,0x2C35},
{0x2C06,0x2C36},
{0x2C07,0x2C37},
{0x2C08,0x2C38},
{0x2C09,0x2C39},
{0x2C0A,0x2C3A},
{0x2C0B,0x2C3B},
{0x2C0C,0x2C3C},
{0x2C0D,0x2C3D},
{0x2C0E,0x2C3E},
{0x2C0F,0x2C3F},
{0x2C10,0x2C40},
{0x2C11,0x2C41},
{0x2C12,0x2C42},
{0x2C13,0x2C43},
{0x2C14,0x2C44},
{0x2C15,0x2C45},
{0x2C16,0x2C46},
{0x2C17,0x2C47},
{0x2C18,0x2C48},
{0x2C19,0x2C49},
{0x2C1A,0x2C4A},
{0x2C1B,0x2C4B},
{0x2C1C,0x2C4C},
{0x2C1D,0x2C4D},
{0x2C1E,0x2C4E},
{0x2C1F,0x2C4F},
{0x2C20,0x2C50},
{0x2C21,0x2C51},
{0x2C22,0x2C52},
{0x2C23,0x2C53},
{0x2C24,0x2C54},
{0x2C25,0x2C55},
{0x2C26,0x2C56},
{0x2C27,0x2C57},
{0x2C28,0x2C58},
{0x2C29,0x2C59},
{0x2C2A,0x2C5A},
{0x2C2B,0x2C5B},
{0x2C2C,0x2C5C},
{0x2C2D,0x2C5D},
{0x2C2E,0x2C5E},
{0x2C2F,0x2C5F},
{0x2C60,0x2C61},
{0x2C62,0x26B},
{0x2C63,0x1D7D},
{0x2C64,0x27D},
{0x2C67,0x2C68},
{0x2C69,0x2C6A},
{0x2C6B,0x2C6C},
{0x2C6D,0x251},
{0x2C6E,0x271},
{0x2C6F,0x250},
{0x2C70,0x252},
{0x2C72,0x2C73},
{0x2C75,0x2C76},
{0x2C7E,0x23F},
{0x2C7F,0x240},
{0x2C80,0x2C81},
{0x2C82,0x2C83},
{0x2C84,0x2C85},
{0x2C86,0x2C87},
{0x2C88,0x2C89},
{0x2C8A,0x2C8B},
{0x2C8C,0x2C8D},
{0x2C8E,0x2C8F},
{0x2C90,0x2C91},
{0x2C92,0x2C93},
{0x2C94,0x2C95},
{0x2C96,0x2C97},
{0x2C98,0x2C99},
{0x2C9A,0x2C9B},
{0x2C9C,0x2C9D},
{0x2C9E,0x2C9F},
{0x2CA0,0x2CA1},
{0x2CA2,0x2CA3},
{0x2CA4,0x2CA5},
{0x2CA6,0x2CA7},
{0x2CA8,0x2CA9},
{0x2CAA,0x2CAB},
{0x2CAC,0x2CAD},
{0x2CAE,0x2CAF},
{0x2CB0,0x2CB1},
{0x2CB2,0x2CB3},
{0x2CB4,0x2CB5},
{0x2CB6,0x2CB7},
{0x2CB8,0x2CB9},
{0x2CBA,0x2CBB},
{0x2CBC,0x2CBD},
{0x2CBE,0x2CBF},
{0x2CC0,0x2CC1},
{0x2CC2,0x2CC3},
{0x2CC4,0x2CC5},
{0x2CC6,0x2CC7},
{0x2CC8,0x2CC9},
{0x2CCA,0x2CCB},
{0x2CCC,0x2CCD},
{0x2CCE,0x2CCF},
{0x2CD0,0x2CD1},
{0x2CD2,0x2CD3},
{0x2CD4,0x2CD5},
{0x2CD6,0x2CD7},
{0x2CD8,0x2CD9},
{0x2CDA,0x2CDB},
{0x2CDC,0x2CDD},
{0x2CDE,0x2CDF},
{0x2CE0,0x2CE1},
{0x2CE2,0x2CE3},
{0x2CEB,0x2CEC},
{0x2CED,0x2CEE},
{0x2CF2,0x2CF3},
{0xA640,0xA641},
{0xA642,0xA643},
{0xA644,0xA645},
{0xA646,0xA647},
{0xA648,0xA649},
{0xA64A,0xA64B},
{0xA64C,0xA64D},
{0xA64E,0xA64F},
{0xA650,0xA651},
{0xA652,0xA653},
{0xA654,0xA655},
{0xA656,0xA657},
{0xA658,0xA659},
{0xA65A,0xA65B},
{0xA65C,0xA65D},
{0xA65E,0xA65F},
{0xA660,0xA661},
{0xA662,0xA663},
{0xA664,0xA665},
{0xA666,0xA667},
{0xA668,0xA669},
{0xA66A,0xA66B},
{0xA66C,0xA66D},
{0xA680,0xA681},
{0xA682,0xA683},
{0xA684,0xA685},
{0xA686,0xA687},
{0xA688,0xA689},
{0xA68A,0xA68B},
{0xA68C,0xA68D},
{0xA68E,0xA68F},
{0xA690,0xA691},
{0xA692,0xA693},
{0xA694,0xA695},
{0xA696,0xA697},
{0xA698,0xA699},
{0xA69A,0xA69B},
{0xA722,0xA723},
{0xA724,0xA725},
{0xA726,0xA727},
{0xA728,0xA729},
{0xA72A,0xA72B},
{0xA72C,0xA72D},
{0xA72E,0xA72F},
{0xA732,0xA733},
{0xA734,0xA735},
{0xA736,0xA737},
{0xA738,0xA739},
{0xA73A,0xA73B},
{0xA73C,0xA73D},
{0xA73E,0xA73F},
{0xA740,0xA741},
{0xA742,0xA743},
{0xA744,0xA745},
{0xA746,0xA747},
{0xA748,0xA749},
{0xA74A,0xA74B},
{0xA74C,0xA74D},
{0xA74E,0xA74F},
{0xA750,0xA751},
{0xA752,0xA753},
{0xA754,0xA755},
{0xA756,0xA757},
{0xA758,0xA759},
{0xA75A,0xA75B},
{0xA75C,0xA75D},
{0xA75E,0xA75F},
{0xA760,0xA761},
{0xA762,0xA763},
{0xA764,0xA765},
{0xA766,0xA767},
{0xA768,0xA769},
{0xA76A,0xA76B},
{0xA76C,0xA76D},
{0xA76E,0xA76F},
{0xA779,0xA77A},
{0xA77B,0xA77C},
{0xA77D,0x1D79},
{0xA77E,0xA77F},
{0xA780,0xA781},
{0xA782,0xA783},
{0xA784,0xA785},
{0xA786,0xA787},
{0xA78B,0xA78C},
{0xA78D,0x265},
{0xA790,0xA791},
{0xA792,0xA793},
{0xA796,0xA797},
{0xA798,0xA799},
{0xA79A,0xA79B},
{0xA79C,0xA79D},
{0xA79E,0xA79F},
{0xA7A0,0xA7A1},
{0xA7A2,0xA7A3},
{0xA7A4,0xA7A5},
{0xA7A6,0xA7A7},
{0xA7A8,0xA7A9},
{0xA7AA,0x266},
{0xA7AB,0x25C},
{0xA7AC,0x261},
{0xA7AD,0x26C},
{0xA7AE,0x26A},
{0xA7B0,0x29E},
{0xA7B1,0x287},
{0xA7B2,0x29D},
{0xA7B3,0xAB53},
{0xA7B4,0xA7B5},
{0xA7B6,0xA7B7},
{0xA7B8,0xA7B9},
{0xA7BA,0xA7BB},
{0xA7BC,0xA7BD},
{0xA7BE,0xA7BF},
{0xA7C0,0xA7C1},
{0xA7C2,0xA7C3},
{0xA7C4,0xA794},
{0xA7C5,0x282},
{0xA7C6,0x1D8E},
{0xA7C7,0xA7C8},
{0xA7C9,0xA7CA},
{0xA7D0,0xA7D1},
{0xA7D6,0xA7D7},
{0xA7D8,0xA7D9},
{0xA7F5,0xA7F6},
{0xFF21,0xFF41},
{0xFF22,0xFF42},
{0xFF23,0xFF43},
{0xFF24,0xFF44},
{0xFF25,0xFF45},
{0xFF26,0xFF46},
{0xFF27,0xFF47},
{0xFF28,0xFF48},
{0xFF29,0xFF49},
{0xFF2A,0xFF4A},
{0xFF2B,0xFF4B},
{0xFF2C,0xFF4C},
{0xFF2D,0xFF4D},
{0xFF2E,0xFF4E},
{0xFF2F,0xFF4F},
{0xFF30,0xFF50},
{0xFF31,0xFF51},
{0xFF32,0xFF52},
{0xFF33,0xFF53},
{0xFF34,0xFF54},
{0xFF35,0xFF55},
{0xFF36,0xFF56},
{0xFF37,0xFF57},
{0xFF38,0xFF58},
{0xFF39,0xFF59},
{0xFF3A,0xFF5A},
{0x10400,0x10428},
{0x10401,0x10429},
{0x10402,0x1042A},
{0x10403,0x1042B},
{0x10404,0x1042C},
{0x10405,0x1042D},
{0x10406,0x1042E},
{0x10407,0x1042F},
{0x10408,0x10430},
{0x10409,0x10431},
{0x1040A,0x10432},
{0x1040B,0x10433},
{0x1040C,0x10434},
{0x1040D,0x10435},
{0x1040E,0x10436},
{0x1040F,0x10437},
{0x10410,0x10438},
{0x10411,0x10439},
{0x10412,0x1043A},
{0x10413,0x1043B},
{0x10414,0x1043C},
{0x10415,0x1043D},
{0x10416,0x1043E},
{0x10417,0x1043F},
{0x10418,0x10440},
{0x10419,0x10441},
{0x1041A,0x10442},
{0x1041B,0x10443},
{0x1041C,0x10444},
{0x1041D,0x10445},
{0x1041E,0x10446},
{0x1041F,0x10447},
{0x10420,0x10448},
{0x10421,0x10449},
{0x10422,0x1044A},
{0x10423,0x1044B},
{0x10424,0x1044C},
{0x10425,0x1044D},
{0x10426,0x1044E},
{0x10427,0x1044F},
{0x104B0,0x104D8},
{0x104B1,0x104D9},
{0x104B2,0x104DA},
{0x104B3,0x104DB},
{0x104B4,0x104DC},
{0x104B5,0x104DD},
{0x104B6,0x104DE},
{0x104B7,0x104DF},
{0x104B8,0x104E0},
{0x104B9,0x104E1},
{0x104BA,0x104E2},
{0x104BB,0x104E3},
{0x104BC,0x104E4},
{0x104BD,0x104E5},
{0x104BE,0x104E6},
{0x104BF,0x104E7},
{0x104C0,0x104E8},
{0x104C1,0x104E9},
{0x104C2,0x104EA},
{0x104C3,0x104EB},
{0x104C4,0x104EC},
{0x104C5,0x104ED},
{0x104C6,0x104EE},
{0x104C7,0x104EF},
{0x104C8,0x104F0},
{0x104C9,0x104F1},
{0x104CA,0x104F2},
{0x104CB,0x104F3},
{0x104CC,0x104F4},
{0x104CD,0x104F5},
{0x104CE,0x104F6},
{0x104CF,0x104F7},
{0x104D0,0x104F8},
{0x104D1,0x104F9},
{0x104D2,0x104FA},
{0x104D3,0x104FB},
{0x10570,0x10597},
{0x10571,0x10598},
{0x10572,0x10599},
{0x10573,0x1059A},
{0x10574,0x1059B},
{0x10575,0x1059C},
{0x10576,0x1059D},
{0x10577,0x1059E},
{0x10578,0x1059F},
{0x10579,0x105A0},
{0x1057A,0x105A1},
{0x1057C,0x105A3},
{0x1057D,0x105A4},
{0x1057E,0x105A5},
{0x1057F,0x105A6},
{0x10580,0x105A7},
{0x10581,0x105A8},
{0x10582,0x105A9},
{0x10583,0x105AA},
{0x10584,0x105AB},
{0x10585,0x105AC},
{0x10586,0x105AD},
{0x10587,0x105AE},
{0x10588,0x105AF},
{0x10589,0x105B0},
{0x1058A,0x105B1},
{0x1058C,0x105B3},
{0x1058D,0x105B4},
{0x1058E,0x105B5},
{0x1058F,0x105B6},
{0x10590,0x105B7},
{0x10591,0x105B8},
{0x10592,0x105B9},
{0x10594,0x105BB},
{0x10595,0x105BC},
{0x10C80,0x10CC0},
{0x10C81,0x10CC1},
{0x10C82,0x10CC2},
{0x10C83,0x10CC3},
{0x10C84,0x10CC4},
{0x10C85,0x10CC5},
{0x10C86,0x10CC6},
{0x10C87,0x10CC7},
{0x10C88,0x10CC8},
{0x10C89,0x10CC9},
{0x10C8A,0x10CCA},
{0x10C8B,0x10CCB},
{0x10C8C,0x10CCC},
{0x10C8D,0x10CCD},
{0x10C8E,0x10CCE},
{0x10C8F,0x10CCF},
{0x10C90,0x10CD0},
{0x10C91,0x10CD1},
{0x10C92,0x10CD2},
{0x10C93,0x10CD3},
{0x10C94,0x10CD4},
{0x10C95,0x10CD5},
{0x10C96,0x10CD6},
{0x10C97,0x10CD7},
{0x10C98,0x10CD8},
{0x10C99,0x10CD9},
{0x10C9A,0x10CDA},
{0x10C9B,0x10CDB},
{0x10C9C,0x10CDC},
{0x10C9D,0x10CDD},
{0x10C9E,0x10CDE},
{0x10C9F,0x10CDF},
{0x10CA0,0x10CE0},
{0x10CA1,0x10CE1},
{0x10CA2,0x10CE2},
{0x10CA3,0x10CE3},
{0x10CA4,0x10CE4},
{0x10CA5,0x10CE5},
{0x10CA6,0x10CE6},
{0x10CA7,0x10CE7},
{0x10CA8,0x10CE8},
{0x10CA9,0x10CE9},
{0x10CAA,0x10CEA},
{0x10CAB,0x10CEB},
{0x10CAC,0x10CEC},
{0x10CAD,0x10CED},
{0x10CAE,0x10CEE},
{0x10CAF,0x10CEF},
{0x10CB0,0x10CF0},
{0x10CB1,0x10CF1},
{0x10CB2,0x10CF2},
{0x118A0,0x118C0},
{0x118A1,0x118C1},
{0x118A2,0x118C2},
{0x118A3,0x118C3},
{0x118A4,0x118C4},
{0x118A5,0x118C5},
{0x118A6,0x118C6},
{0x118A7,0x118C7},
{0x118A8,0x118C8},
{0x118A9,0x118C9},
{0x118AA,0x118CA},
{0x118AB,0x118CB},
{0x118AC,0x118CC},
{0x118AD,0x118CD},
{0x118AE,0x118CE},
{0x118AF,0x118CF},
{0x118B0,0x118D0},
{0x118B1,0x118D1},
{0x118B2,0x118D2},
{0x118B3,0x118D3},
{0x118B4,0x118D4},
{0x118B5,0x118D5},
{0x118B6,0x118D6},
{0x118B7,0x118D7},
{0x118B8,0x118D8},
{0x118B9,0x118D9},
{0x118BA,0x118DA},
{0x118BB,0x118DB},
{0x118BC,0x118DC},
{0x118BD,0x118DD},
{0x118BE,0x118DE},
{0x118BF,0x118DF},
{0x16E40,0x16E60},
{0x16E41,0x16E61},
{0x16E42,0x16E62},
{0x16E43,0x16E63},
{0x16E44,0x16E64},
{0x16E45,0x16E65},
{0x16E46,0x16E66},
{0x16E47,0x16E67},
{0x16E48,0x16E68},
{0x16E49,0x16E69},
{0x16E4A,0x16E6A},
{0x16E4B,0x16E6B},
{0x16E4C,0x16E6C},
{0x16E4D,0x16E6D},
{0x16E4E,0x16E6E},
{0x16E4F,0x16E6F},
{0x16E50,0x16E70},
{0x16E51,0x16E71},
{0x16E52,0x16E72},
{0x16E53,0x16E73},
{0x16E54,0x16E74},
{0x16E55,0x16E75},
{0x16E56,0x16E76},
{0x16E57,0x16E77},
{0x16E58,0x16E78},
{0x16E59,0x16E79},
{0x16E5A,0x16E7A},
{0x16E5B,0x16E7B},
{0x16E5C,0x16E7C},
{0x16E5D,0x16E7D},
{0x16E5E,0x16E7E},
{0x16E5F,0x16E7F},
{0x1E900,0x1E922},
{0x1E901,0x1E923},
{0x1E902,0x1E924},
{0x1E903,0x1E925},
{0x1E904,0x1E926},
{0x1E905,0x1E927},
{0x1E906,0x1E928},
{0x1E907,0x1E929},
{0x1E908,0x1E92A},
{0x1E909,0x1E92B},
{0x1E90A,0x1E92C},
{0x1E90B,0x1E92D},
{0x1E90C,0x1E92E},
{0x1E90D,0x1E92F},
{0x1E90E,0x1E930},
{0x1E90F,0x1E931},
{0x1E910,0x1E932},
{0x1E911,0x1E933},
{0x1E912,0x1E934},
{0x1E913,0x1E935},
{0x1E914,0x1E936},
{0x1E915,0x1E937},
{0x1E916,0x1E938},
{0x1E917,0x1E939},
{0x1E918,0x1E93A},
{0x1E919,0x1E93B},
{0x1E91A,0x1E93C},
{0x1E91B,0x1E93D},
{0x1E91C,0x1E93E},
{0x1E91D,0x1E93F},
{0x1E91E,0x1E940},
{0x1E91F,0x1E941},
{0x1E920,0x1E942},
{0x1E921,0x1E943},
};
static const um T_ti[] = {
{0x61,0x41},
{0x62,0x42},
{0x63,0x43},
{0x64,0x44},
{0x65,0x45},
{0x66,0x46},
{0x67,0x47},
{0x68,0x48},
{0x69,0x49},
{0x6A,0x4A},
{0x6B,0x4B},
{0x6C,0x4C},
{0x6D,0x4D},
{0x6E,0x4E},
{0x6F,0x4F},
{0x70,0x50},
{0x71,0x51},
{0x72,0x52},
{0x73,0x53},
{0x74,0x54},
{0x75,0x55},
{0x76,0x56},
{0x77,0x57},
{0x78,0x58},
{0x79,0x59},
{0x7A,0x5A},
{0xB5,0x39C},
{0xE0,0xC0},
{0xE1,0xC1},
{0xE2,0xC2},
{0xE3,0xC3},
{0xE4,0xC4},
{0xE5,0xC5},
{0xE6,0xC6},
{0xE7,0xC7},
{0xE8,0xC8},
{0xE9,0xC9},
{0xEA,0xCA},
{0xEB,0xCB},
{0xEC,0xCC},
{0xED,0xCD},
{0xEE,0xCE},
{0xEF,0xCF},
{0xF0,0xD0},
{0xF1,0xD1},
{0xF2,0xD2},
{0xF3,0xD3},
{0xF4,0xD4},
{0xF5,0xD5},
{0xF6,0xD6},
{0xF8,0xD8},
{0xF9,0xD9},
{0xFA,0xDA},
{0xFB,0xDB},
{0xFC,0xDC},
{0xFD,0xDD},
{0xFE,0xDE},
{0xFF,0x178},
{0x101,0x100},
{0x103,0x102},
{0x105,0x104},
{0x107,0x106},
{0x109,0x108},
{0x10B,0x10A},
{0x10D,0x10C},
{0x10F,0x10E},
{0x111,0x110},
{0x113,0x112},
{0x115,0x114},
{0x117,0x116},
{0x119,0x118},
{0x11B,0x11A},
{0x11D,0x11C},
{0x11F,0x11E},
{0x121,0x120},
{0x123,0x122},
{0x125,0x124},
{0x127,0x126},
{0x129,0x128},
{0x12B,0x12A},
{0x12D,0x12C},
{0x12F,0x12E},
{0x131,0x49},
{0x133,0x132},
{0x135,0x134},
{0x137,0x136},
{0x13A,0x139},
{0x13C,0x13B},
{0x13E,0x13D},
{0x140,0x13F},
{0x142,0x141},
{0x144,0x143},
{0x146,0x145},
{0x148,0x147},
{0x14B,0x14A},
{0x14D,0x14C},
{0x14F,0x14E},
{0x151,0x150},
{0x153,0x152},
{0x155,0x154},
{0x157,0x156},
{0x159,0x158},
{0x15B,0x15A},
{0x15D,0x15C},
{0x15F,0x15E},
{0x161,0x160},
{0x163,0x162},
{0x165,0x164},
{0x167,0x166},
{0x169,0x168},
{0x16B,0x16A},
{0x16D,0x16C},
{0x16F,0x16E},
{0x171,0x170},
{0x173,0x172},
{0x175,0x174},
{0x177,0x176},
{0x17A,0x179},
{0x17C,0x17B},
{0x17E,0x17D},
{0x17F,0x53},
{0x180,0x243},
{0x183,0x182},
{0x185,0x184},
{0x188,0x187},
{0x18C,0x18B},
{0x192,0x191},
{0x195,0x1F6},
{0x199,0x198},
{0x19A,0x23D},
{0x19E,0x220},
{0x1A1,0x1A0},
{0x1A3,0x1A2},
{0x1A5,0x1A4},
{0x1A8,0x1A7},
{0x1AD,0x1AC},
{0x1B0,0x1AF},
{0x1B4,0x1B3},
{0x1B6,0x1B5},
{0x1B9,0x1B8},
{0x1BD,0x1BC},
{0x1BF,0x1F7},
{0x1C4,0x1C5},
{0x1C6,0x1C5},
{0x1C7,0x1C8},
{0x1C9,0x1C8},
{0x1CA,0x1CB},
{0x1CC,0x1CB},
{0x1CE,0x1CD},
{0x1D0,0x1CF},
{0x1D2,0x1D1},
{0x1D4,0x1D3},
{0x1D6,0x1D5},
{0x1D8,0x1D7},
{0x1DA,0x1D9},
{0x1DC,0x1DB},
{0x1DD,0x18E},
{0x1DF,0x1DE},
{0x1E1,0x1E0},
{0x1E3,0x1E2},
{0x1E5,0x1E4},
{0x1E7,0x1E6},
{0x1E9,0x1E8},
{0x1EB,0x1EA},
{0x1ED,0x1EC},
{0x1EF,0x1EE},
{0x1F1,0x1F2},
{0x1F3,0x1F2},
{0x1F5,0x1F4},
{0x1F9,0x1F8},
{0x1FB,0x1FA},
{0x1FD,0x1FC},
{0x1FF,0x1FE},
{0x201,0x200},
{0x203,0x202},
{0x205,0x204},
{0x207,0x206},
{0x209,0x208},
{0x20B,0x20A},
{0x20D,0x20C},
{0x20F,0x20E},
{0x211,0x210},
{0x213,0x212},
{0x215,0x214},
{0x217,0x216},
{0x219,0x218},
{0x21B,0x21A},
{0x21D,0x21C},
{0x21F,0x21E},
{0x223,0x222},
{0x225,0x224},
{0x227,0x226},
{0x229,0x228},
{0x22B,0x22A},
{0x22D,0x22C},
{0x22F,0x22E},
{0x231,0x230},
{0x233,0x232},
{0x23C,0x23B},
{0x23F,0x2C7E},
{0x240,0x2C7F},
{0x242,0x241},
{0x247,0x246},
{0x249,0x248},
{0x24B,0x24A},
{0x24D,0x24C},
{0x24F,0x24E},
{0x250,0x2C6F},
{0x251,0x2C6D},
{0x252,0x2C70},
{0x253,0x181},
{0x254,0x186},
{0x256,0x189},
{0x257,0x18A},
{0x259,0x18F},
{0x25B,0x190},
{0x25C,0xA7AB},
{0x260,0x193},
{0x261,0xA7AC},
{0x263,0x194},
{0x265,0xA78D},
{0x266,0xA7AA},
{0x268,0x197},
{0x269,0x196},
{0x26A,0xA7AE},
{0x26B,0x2C62},
{0x26C,0xA7AD},
{0x26F,0x19C},
{0x271,0x2C6E},
{0x272,0x19D},
{0x275,0x19F},
{0x27D,0x2C64},
{0x280,0x1A6},
{0x282,0xA7C5},
{0x283,0x1A9},
{0x287,0xA7B1},
{0x288,0x1AE},
{0x289,0x244},
{0x28A,0x1B1},
{0x28B,0x1B2},
{0x28C,0x245},
{0x292,0x1B7},
{0x29D,0xA7B2},
{0x29E,0xA7B0},
{0x345,0x399},
{0x371,0x370},
{0x373,0x372},
{0x377,0x376},
{0x37B,0x3FD},
{0x37C,0x3FE},
{0x37D,0x3FF},
{0x3AC,0x386},
{0x3AD,0x388},
{0x3AE,0x389},
{0x3AF,0x38A},
{0x3B1,0x391},
{0x3B2,0x392},
{0x3B3,0x393},
{0x3B4,0x394},
{0x3B5,0x395},
{0x3B6,0x396},
{0x3B7,0x397},
{0x3B8,0x398},
{0x3B9,0x399},
{0x3BA,0x39A},
{0x3BB,0x39B},
{0x3BC,0x39C},
{0x3BD,0x39D},
{0x3BE,0x39E},
{0x3BF,0x39F},
{0x3C0,0x3A0},
{0x3C1,0x3A1},
{0x3C2,0x3A3},
{0x3C3,0x3A3},
{0x3C4,0x3A4},
{0x3C5,0x3A5},
{0x3C6,0x3A6},
{0x3C7,0x3A7},
{0x3C8,0x3A8},
{0x3C9,0x3A9},
{0x3CA,0x3AA},
{0x3CB,0x3AB},
{0x3CC,0x38C},
{0x3CD,0x38E},
{0x3CE,0x38F},
{0x3D0,0x392},
{0x3D1,0x398},
{0x3D5,0x3A6},
{0x3D6,0x3A0},
{0x3D7,0x3CF},
{0x3D9,0x3D8},
{0x3DB,0x3DA},
{0x3DD,0x3DC},
{0x3DF,0x3DE},
{0x3E1,0x3E0},
{0x3E3,0x3E2},
{0x3E5,0x3E4},
{0x3E7,0x3E6},
{0x3E9,0x3E8},
{0x3EB,0x3EA},
{0x3ED,0x3EC},
{0x3EF,0x3EE},
{0x3F0,0x39A},
{0x3F1,0x3A1},
{0x3F2,0x3F9},
{0x3F3,0x37F},
{0x3F5,0x395},
{0x3F8,0x3F7},
{0x3FB,0x3FA},
{0x430,0x410},
{0x431,0x411},
{0x432,0x412},
{0x433,0x413},
{0x434,0x414},
{0x435,0x415},
{0x436,0x416},
{0x437,0x417},
{0x438,0x418},
{0x439,0x419},
{0x43A,0x41A},
{0x43B,0x41B},
{0x43C,0x41C},
{0x43D,0x41D},
{0x43E,0x41E},
{0x43F,0x41F},
{0x440,0x420},
{0x441,0x421},
{0x442,0x422},
{0x443,0x423},
{0x444,0x424},
{0x445,0x425},
{0x446,0x426},
{0x447,0x427},
{0x448,0x428},
{0x449,0x429},
{0x44A,0x42A},
{0x44B,0x42B},
{0x44C,0x42C},
{0x44D,0x42D},
{0x44E,0x42E},
{0x44F,0x42F},
{0x450,0x400},
{0x451,0x401},
{0x452,0x402},
{0x453,0x403},
{0x454,0x404},
{0x455,0x405},
{0x456,0x406},
{0x457,0x407},
{0x458,0x408},
{0x459,0x409},
{0x45A,0x40A},
{0x45B,0x40B},
{0x45C,0x40C},
{0x45D,0x40D},
{0x45E,0x40E},
{0x45F,0x40F},
{0x461,0x460},
{0x463,0x462},
{0x465,0x464},
{0x467,0x466},
{0x469,0x468},
{0x46B,0x46A},
{0x46D,0x46C},
{0x46F,0x46E},
{0x471,0x470},
{0x473,0x472},
{0x475,0x474},
{0x477,0x476},
{0x479,0x478},
{0x47B,0x47A},
{0x47D,0x47C},
{0x47F,0x47E},
{0x481,0x480},
{0x48B,0x48A},
{0x48D,0x48C},
{0x48F,0x48E},
{0x491,0x490},
{0x493,0x492},
{0x495,0x494},
{0x497,0x496},
{0x499,0x498},
{0x49B,0x49A},
{0x49D,0x49C},
{0x49F,0x49E},
{0x4A1,0x4A0},
{0x4A3,0x4A2},
{0x4A5,0x4A4},
{0x4A7,0x4A6},
{0x4A9,0x4A8},
{0x4AB,0x4AA},
{0x4AD,0x4AC},
{0x4AF,0x4AE},
{0x4B1,0x4B0},
{0x4B3,0x4B2},
{0x4B5,0x4B4},
{0x4B7,0x4B6},
{0x4B9,0x4B8},
{0x4BB,0x4BA},
{0x4BD,0x4BC},
{0x4BF,0x4BE},
{0x4C2,0x4C1},
{0x4C4,0x4C3},
{0x4C6,0x4C5},
{0x4C8,0x4C7},
{0x4CA,0x4C9},
{0x4CC,0x4CB},
{0x4CE,0x4CD},
{0x4CF,0x4C0},
{0x4D1,0x4D0},
{0x4D3,0x4D2},
{0x4D5,0x4D4},
{0x4D7,0x4D6},
{0x4D9,0x4D8},
{0x4DB,0x4DA},
{0x4DD,0x4DC},
{0x4DF,0x4DE},
{0x4E1,0x4E0},
{0x4E3,0x4E2},
{0x4E5,0x4E4},
{0x4E7,0x4E6},
{0x4E9,0x4E8},
{0x4EB,0x4EA},
{0x4ED,0x4EC},
{0x4EF,0x4EE},
{0x4F1,0x4F0},
{0x4F3,0x4F2},
{0x4F5,0x4F4},
{0x4F7,0x4F6},
{0x4F9,0x4F8},
{0x4FB,0x4FA},
{0x4FD,0x4FC},
{0x4FF,0x4FE},
{0x501,0x500},
{0x503,0x502},
{0x505,0x504},
{0x507,0x506},
{0x509,0x508},
{0x50B,0x50A},
{0x50D,0x50C},
{0x50F,0x50E},
{0x511,0x510},
{0x513,0x512},
{0x515,0x514},
{0x517,0x516},
{0x519,0x518},
{0x51B,0x51A},
{0x51D,0x51C},
{0x51F,0x51E},
{0x521,0x520},
{0x523,0x522},
{0x525,0x524},
{0x527,0x526},
{0x529,0x528},
{0x52B,0x52A},
{0x52D,0x52C},
{0x52F,0x52E},
{0x561,0x531},
{0x562,0x532},
{0x563,0x533},
{0x564,0x534},
{0x565,0x535},
{0x566,0x536},
{0x567,0x537},
{0x568,0x538},
{0x569,0x539},
{0x56A,0x53A},
{0x56B,0x53B},
{0x56C,0x53C},
{0x56D,0x53D},
{0x56E,0x53E},
{0x56F,0x53F},
{0x570,0x540},
{0x571,0x541},
{0x572,0x542},
{0x573,0x543},
{0x574,0x544},
{0x575,0x545},
{0x576,0x546},
{0x577,0x547},
{0x578,0x548},
{0x579,0x549},
{0x57A,0x54A},
{0x57B,0x54B},
{0x57C,0x54C},
{0x57D,0x54D},
{0x57E,0x54E},
{0x57F,0x54F},
{0x580,0x550},
{0x581,0x551},
{0x582,0x552},
{0x583,0x553},
{0x584,0x554},
{0x585,0x555},
{0x586,0x556},
{0x13F8,0x13F0},
{0x13F9,0x13F1},
{0x13FA,0x13F2},
{0x13FB,0x13F3},
{0x13FC,0x13F4},
{0x13FD,0x13F5},
{0x1C80,0x412},
{0x1C81,0x414},
{0x1C82,0x41E},
{0x1C83,0x421},
{0x1C84,0x422},
{0x1C85,0x422},
{0x1C86,0x42A},
{0x1C87,0x462},
{0x1C88,0xA64A},
{0x1D79,0xA77D},
{0x1D7D,0x2C63},
{0x1D8E,0xA7C6},
{0x1E01,0x1E00},
{0x1E03,0x1E02},
{0x1E05,0x1E04},
{0x1E07,0x1E06},
{0x1E09,0x1E08},
{0x1E0B,0x1E0A},
{0x1E0D,0x1E0C},
{0x1E0F,0x1E0E},
{0x1E11,0x1E10},
{0x1E13,0x1E12},
{0x1E15,0x1E14},
{0x1E17,0x1E16},
{0x1E19,0x1E18},
{0x1E1B,0x1E1A},
{0x1E1D,0x1E1C},
{0x1E1F,0x1E1E},
{0x1E21,0x1E20},
{0x1E23,0x1E22},
{0x1E25,0x1E24},
{0x1E27,0x1E26},
{0x1E29,0x1E28},
{0x1E2B,0x1E2A},
{0x1E2D,0x1E2C},
{0x1E2F,0x1E2E},
{0x1E31,0x1E30},
{0x1E33,0x1E32},
{0x1E35,0x1E34},
{0x1E37,0x1E36},
{0x1E39,0x1E38},
{0x1E3B,0x1E3A},
{0x1E3D,0x1E3C},
{0x1E3F,0x1E3E},
{0x1E41,0x1E40},
{0x1E43,0x1E42},
{0x1E45,0x1E44},
{0x1E47,0x1E46},
{0x1E49,0x1E48},
{0x1E4B,0x1E4A},
{0x1E4D,0x1E4C},
{0x1E4F,0x1E4E},
{0x1E51,0x1E50},
{0x1E53,0x1E52},
{0x1E55,0x1E54},
{0x1E57,0x1E56},
{0x1E59,0x1E58},
{0x1E5B,0x1E5A},
{0x1E5D,0x1E5C},
{0x1E5F,0x1E5E},
{0x1E61,0x1E60},
{0x1E63,0x1E62},
{0x1E65,0x1E64},
{0x1E67,0x1E66},
{0x1E69,0x1E68},
{0x1E6B,0x1E6A},
{0x1E6D,0x1E6C},
{0x1E6F,0x1E6E},
{0x1E71,0x1E70},
{0x1E73,0x1E72},
{0x1E75,0x1E74},
{0x1E77,0x1E76},
{0x1E79,0x1E78},
{0x1E7B,0x1E7A},
{0x1E7D,0x1E7C},
{0x1E7F,0x1E7E},
{0x1E81,0x1E80},
{0x1E83,0x1E82},
{0x1E85,0x1E84},
{0x1E87,0x1E86},
{0x1E89,0x1E88},
{0x1E8B,0x1E8A},
{0x1E8D,0x1E8C},
{0x1E8F,0x1E8E},
{0x1E91,0x1E90},
{0x1E93,0x1E92},
{0x1E95,0x1E94},
{0x1E9B,0x1E60},
{0x1EA1,0x1EA0},
{0x1EA3,0x1EA2},
{0x1EA5,0x1EA4},
{0x1EA7,0x1EA6},
{0x1EA9,0x1EA8},
{0x1EAB,0x1EAA},
{0x1EAD,0x1EAC},
{0x1EAF,0x1EAE},
{0x1EB1,0x1EB0},
{0x1EB3,0x1EB2},
{0x1EB5,0x1EB4},
{0x1EB7,0x1EB6},
{0x1EB9,0x1EB8},
{0x1EBB,0x1EBA},
{0x1EBD,0x1EBC},
{0x1EBF,0x1EBE},
{0x1EC1,0x1EC0},
{0x1EC3,0x1EC2},
{0x1EC5,0x1EC4},
{0x1EC7,0x1EC6},
{0x1EC9,0x1EC8},
{0x1ECB,0x1ECA},
{0x1ECD,0x1ECC},
{0x1ECF,0x1ECE},
{0x1ED1,0x1ED0},
{0x1ED3,0x1ED2},
{0x1ED5,0x1ED4},
{0x1ED7,0x1ED6},
{0x1ED9,0x1ED8},
{0x1EDB,0x1EDA},
{0x1EDD,0x1EDC},
{0x1EDF,0x1EDE},
{0x1EE1,0x1EE0},
{0x1EE3,0x1EE2},
{0x1EE5,0x1EE4},
{0x1EE7,0x1EE6},
{0x1EE9,0x1EE8},
{0x1EEB,0x1EEA},
{0x1EED,0x1EEC},
{0x1EEF,0x1EEE},
{0x1EF1,0x1EF0},
{0x1EF3,0x1EF2},
{0x1EF5,0x1EF4},
{0x1EF7,0x1EF6},
{0x1EF9,0x1EF8},
{0x1EFB,0x1EFA},
{0x1EFD,0x1EFC},
{0x1EFF,0x1EFE},
{0x1F00,0x1F08},
{0x1F01,0x1F09},
{0x1F02,0x1F0A},
{0x1F03,0x1F0B},
{0x1F04,0x1F0C},
{0x1F05,0x1F0D},
{0x1F06,0x1F0E},
{0x1F07,0x1F0F},
{0x1F10,0x1F18},
{0x1F11,0x1F19},
{0x1F12,0x1F1A},
{0x1F13,0x1F1B},
{0x1F14,0x1F1C},
{0x1F15,0x1F1D},
{0x1F20,0x1F28},
{0x1F21,0x1F29},
{0x1F22,0x1F2A},
{0x1F23,0x1F2B},
{0x1F24,0x1F2C},
{0x1F25,0x1F2D},
{0x1F26,0x1F2E},
{0x1F27,0x1F2F},
{0x1F30,0x1F38},
{0x1F31,0x1F39},
{0x1F32,0x1F3A},
{0x1F33,0x1F3B},
{0x1F34,0x1F3C},
{0x1F35,0x1F3D},
{0x1F36,0x1F3E},
{0x1F37,0x1F3F},
{0x1F40,0x1F48},
{0x1F41,0x1F49},
{0x1F42,0x1F4A},
{0x1F43,0x1F4B},
{0x1F44,0x1F4C},
{0x1F45,0x1F4D},
{0x1F51,0x1F59},
{0x1F53,0x1F5B},
{0x1F55,0x1F5D},
{0x1F57,0x1F5F},
{0x1F60,0x1F68},
{0x1F61,0x1F69},
{0x1F62,0x1F6A},
{0x1F63,0x1F6B},
{0x1F64,0x1F6C},
{0x1F65,0x1F6D},
{0x1F66,0x1F6E},
{0x1F67,0x1F6F},
{0x1F70,0x1FBA},
{0x1F71,0x1FBB},
{0x1F72,0x1FC8},
{0x1F73,0x1FC9},
{0x1F74,0x1FCA},
{0x1F75,0x1FCB},
{0x1F76,0x1FDA},
{0x1F77,0x1FDB},
{0x1F78,0x1FF8},
{0x1F79,0x1FF9},
{0x1F7A,0x1FEA},
{0x1F7B,0x1FEB},
{0x1F7C,0x1FFA},
{0x1F7D,0x1FFB},
{0x1F80,0x1F88},
{0x1F81,0x1F89},
{0x1F82,0x1F8A},
{0x1F83,0x1F8B},
{0x1F84,0x1F8C},
{0x1F85,0x1F8D},
{0x1F86,0x1F8E},
{0x1F87,0x1F8F},
{0x1F90,0x1F98},
{0x1F91,0x1F99},
{0x1F92,0x1F9A},
{0x1F93,0x1F9B},
{0x1F94,0x1F9C},
{0x1F95,0x1F9D},
{0x1F96,0x1F9E},
{0x1F97,0x1F9F},
{0x1FA0,0x1FA8},
{0x1FA1,0x1FA9},
{0x1FA2,0x1FAA},
{0x1FA3,0x1FAB},
{0x1FA4,0x1FAC},
{0x1FA5,0x1FAD},
{0x1FA6,0x1FAE},
{0x1FA7,0x1FAF},
{0x1FB0,0x1FB8},
{0x1FB1,0x1FB9},
{0x1FB3,0x1FBC},
{0x1FBE,0x399},
{0x1FC3,0x1FCC},
{0x1FD0,0x1FD8},
{0x1FD1,0x1FD9},
{0x1FE0,0x1FE8},
{0x1FE1,0x1FE9},
{0x1FE5,0x1FEC},
{0x1FF3,0x1FFC},
{0x214E,0x2132},
{0x2170,0x2160},
{0x2171,0x2161},
{0x2172,0x2162},
{0x2173,0x2163},
{0x2174,0x2164},
{0x2175,0x2165},
{0x2176,0x2166},
{0x2177,0x2167},
{0x2178,0x2168},
{0x2179,0x2169},
{0x217A,0x216A},
{0x217B,0x216B},
{0x217C,0x216C},
{0x217D,0x216D},
{0x217E,0x216E},
{0x217F,0x216F},
{0x2184,0x2183},
{0x24D0,0x24B6},
{0x24D1,0x24B7},
{0x24D2,0x24B8},
{0x24D3,0x24B9},
{0x24D4,0x24BA},
{0x24D5,0x24BB},
{0x24D6,0x24BC},
{0x24D7,0x24BD},
{0x24D8,0x24BE},
{0x24D9,0x24BF},
{0x24DA,0x24C0},
{0x24DB,0x24C1},
{0x24DC,0x24C2},
{0x24DD,0x24C3},
{0x24DE,0x24C4},
{0x24DF,0x24C5},
{0x24E0,0x24C6},
{0x24E1,0x24C7},
{0x24E2,0x24C8},
{0x24E3,0x24C9},
{0x24E4,0x24CA},
{0x24E5,0x24CB},
{0x24E6,0x24CC},
{0x24E7,0x24CD},
{0x24E8,0x24CE},
{0x24E9,0x24CF},
{0x2C30,0x2C00},
{0x2C31,0x2C01},
{0x2C32,0x2C02},
{0x2C33,0x2C03},
{0x2C34,0x2C04},
{0x2C35,0x2C05},
{0x2C36,0x2C06},
{0x2C37,0x2C07},
{0x2C38,0x2C08},
{0x2C39,0x2C09},
{0x2C3A,0x2C0A},
{0x2C3B,0x2C0B},
{0x2C3C,0x2C0C},
{0x2C3D,0x2C0D},
{0x2C3E,0x2C0E},
{0x2C3F,0x2C0F},
{0x2C40,0x2C10},
{0x2C41,0x2C11},
{0x2C42,0x2C12},
{0x2C43,0x2C13},
{0x2C44,0x2C14},
{0x2C45,0x2C15},
{0x2C46,0x2C16},
{0x2C47,0x2C17},
{0x2C48,0x2C18},
{0x2C49,0x2C19},
{0x2C4A,0x2C1A},
{0x2C4B,0x2C1B},
{0x2C4C,0x2C1C},
{0x2C4D,0x2C1D},
{0x2C4E,0x2C1E},
{0x2C4F,0x2C1F},
{0x2C50,0x2C20},
{0x2C51,0x2C21},
{0x2C52,0x2C22},
{0x2C53,0x2C23},
{0x2C54,0x2C24},
{0x2C55,0x2C25},
{0x2C56,0x2C26},
{0x2C57,0x2C27},
{0x2C58,0x2C28},
{0x2C59,0x2C29},
{0x2C5A,0x2C2A},
{0x2C5B,0x2C2B},
{0x2C5C,0x2C2C},
{0x2C5D,0x2C2D},
{0x2C5E,0x2C2E},
{0x2C5F,0x2C2F},
{0x2C61,0x2C60},
{0x2C65,0x23A},
{0x2C66,0x23E},
{0x2C68,0x2C67},
{0x2C6A,0x2C69},
{0x2C6C,0x2C6B},
{0x2C73,0x2C72},
{0x2C76,0x2C75},
{0x2C81,0x2C80},
{0x2C83,0x2C82},
{0x2C85,0x2C84},
{0x2C87,0x2C86},
{0x2C89,0x2C88},
{0x2C8B,0x2C8A},
{0x2C8D,0x2C8C},
{0x2C8F,0x2C8E},
{0x2C91,0x2C90},
{0x2C93,0x2C92},
{0x2C95,0x2C94},
{0x2C97,0x2C96},
{0x2C99,0x2C98},
{0x2C9B,0x2C9A},
{0x2C9D,0x2C9C},
{0x2C9F,0x2C9E},
{0x2CA1,0x2CA0},
{0x2CA3,0x2CA2},
{0x2CA5,0x2CA4},
{0x2CA7,0x2CA6},
{0x2CA9,0x2CA8},
{0x2CAB,0x2CAA},
{0x2CAD,0x2CAC},
{0x2CAF,0x2CAE},
{0x2CB1,0x2CB0},
{0x2CB3,0x2CB2},
{0x2CB5,0x2CB4},
{0x2CB7,0x2CB6},
{0x2CB9,0x2CB8},
{0x2CBB,0x2CBA},
{0x2CBD,0x2CBC},
{0x2CBF,0x2CBE},
{0x2CC1,0x2CC0},
{0x2CC3,0x2CC2},
{0x2CC5,0x2CC4},
{0x2CC7,0x2CC6},
{0x2CC9,0x2CC8},
{0x2CCB,0x2CCA},
{0x2CCD,0x2CCC},
{0x2CCF,0x2CCE},
{0x2CD1,0x2CD0},
{0x2CD3,0x2CD2},
{0x2CD5,0x2CD4},
{0x2CD7,0x2CD6},
{0x2CD9,0x2CD8},
{0x2CDB,0x2CDA},
{0x2CDD,0x2CDC},
{0x2CDF,0x2CDE},
{0x2CE1,0x2CE0},
{0x2CE3,0x2CE2},
{0x2CEC,0x2CEB},
{0x2CEE,0x2CED},
{0x2CF3,0x2CF2},
{0x2D00,0x10A0},
{0x2D01,0x10A1},
{0x2D02,0x10A2},
{0x2D03,0x10A3},
{0x2D04,0x10A4},
{0x2D05,0x10A5},
{0x2D06,0x10A6},
{0x2D07,0x10A7},
{0x2D08,0x10A8},
{0x2D09,0x10A9},
{0x2D0A,0x10AA},
{0x2D0B,0x10AB},
{0x2D0C,0x10AC},
{0x2D0D,0x10AD},
{0x2D0E,0x10AE},
{0x2D0F,0x10AF},
{0x2D10,0x10B0},
{0x2D11,0x10B1},
{0x2D12,0x10B2},
{0x2D13,0x10B3},
{0x2D14,0x10B4},
{0x2D15,0x10B5},
{0x2D16,0x10B6},
{0x2D17,0x10B7},
{0x2D18,0x10B8},
{0x2D19,0x10B9},
{0x2D1A,0x10BA},
{0x2D1B,0x10BB},
{0x2D1C,0x10BC},
{0x2D1D,0x10BD},
{0x2D1E,0x10BE},
{0x2D1F,0x10BF},
{0x2D20,0x10C0},
{0x2D21,0x10C1},
{0x2D22,0x10C2},
{0x2D23,0x10C3},
{0x2D24,0x10C4},
{0x2D25,0x10C5},
{0x2D27,0x10C7},
{0x2D2D,0x10CD},
{0xA641,0xA640},
{0xA643,0xA642},
{0xA645,0xA644},
{0xA647,0xA646},
{0xA649,0xA648},
{0xA64B,0xA64A},
{0xA64D,0xA64C},
{0xA64F,0xA64E},
{0xA651,0xA650},
{0xA653,0xA652},
{0xA655,0xA654},
{0xA657,0xA656},
{0xA659,0xA658},
{0xA65B,0xA65A},
{0xA65D,0xA65C},
{0xA65F,0xA65E},
{0xA661,0xA660},
{0xA663,0xA662},
{0xA665,0xA664},
{0xA667,0xA666},
{0xA669,0xA668},
{0xA66B,0xA66A},
{0xA66D,0xA66C},
{0xA681,0xA680},
{0xA683,0xA682},
{0xA685,0xA684},
{0xA687,0xA686},
{0xA689,0xA688},
{0xA68B,0xA68A},
{0xA68D,0xA68C},
{0xA68F,0xA68E},
{0xA691,0xA690},
{0xA693,0xA692},
{0xA695,0xA694},
{0xA697,0xA696},
{0xA699,0xA698},
{0xA69B,0xA69A},
{0xA723,0xA722},
{0xA725,0xA724},
{0xA727,0xA726},
{0xA729,0xA728},
{0xA72B,0xA72A},
{0xA72D,0xA72C},
{0xA72F,0xA72E},
{0xA733,0xA732},
{0xA735,0xA734},
{0xA737,0xA736},
{0xA739,0xA738},
{0xA73B,0xA73A},
{0xA73D,0xA73C},
{0xA73F,0xA73E},
{0xA741,0xA740},
{0xA743,0xA742},
{0xA745,0xA744},
{0xA747,0xA746},
{0xA749,0xA748},
{0xA74B,0xA74A},
{0xA74D,0xA74C},
{0xA74F,0xA74E},
{0xA751,0xA750},
{0xA753,0xA752},
{0xA755,0xA754},
{0xA757,0xA756},
{0xA759,0xA758},
{0xA75B,0xA75A},
{0xA75D,0xA75C},
{0xA75F,0xA75E},
{0xA761,0xA760},
{0xA763,0xA762},
{0xA765,0xA764},
{0xA767,0xA766},
{0xA769,0xA768},
{0xA76B,0xA76A},
{0xA76D,0xA76C},
{0xA76F,0xA76E},
{0xA77A,0xA779},
{0xA77C,0xA77B},
{0xA77F,0xA77E},
{0xA781,0xA780},
{0xA783,0xA782},
{0xA785,0xA784},
{0xA787,0xA786},
{0xA78C,0xA78B},
{0xA791,0xA790},
{0xA793,0xA792},
{0xA794,0xA7C4},
{0xA797,0xA796},
{0xA799,0xA798},
{0xA79B,0xA79A},
{0xA79D,0xA79C},
{0xA79F,0xA79E},
{0xA7A1,0xA7A0},
{0xA7A3,0xA7A2},
{0xA7A5,0xA7A4},
{0xA7A7,0xA7A6},
{0xA7A9,0xA7A8},
{0xA7B5,0xA7B4},
{0xA7B7,0xA7B6},
{0xA7B9,0xA7B8},
{0xA7BB,0xA7BA},
{0xA7BD,0xA7BC},
{0xA7BF,0xA7BE},
{0xA7C1,0xA7C0},
{0xA7C3,0xA7C2},
{0xA7C8,0xA7C7},
{0xA7CA,0xA7C9},
{0xA7D1,0xA7D0},
{0xA7D7,0xA7D6},
{0xA7D9,0xA7D8},
{0xA7F6,0xA7F5},
{0xAB53,0xA7B3},
{0xAB70,0x13A0},
{0xAB71,0x13A1},
{0xAB72,0x13A2},
{0xAB73,0x13A3},
{0xAB74,0x13A4},
{0xAB75,0x13A5},
{0xAB76,0x13A6},
{0xAB77,0x13A7},
{0xAB78,0x13A8},
{0xAB79,0x13A9},
{0xAB7A,0x13AA},
{0xAB7B,0x13AB},
{0xAB7C,0x13AC},
{0xAB7D,0x13AD},
{0xAB7E,0x13AE},
{0xAB7F,0x13AF},
{0xAB80,0x13B0},
{0xAB81,0x13B1},
{0xAB82,0x13B2},
{0xAB83,0x13B3},
{0xAB84,0x13B4},
{0xAB85,0x13B5},
{0xAB86,0x13B6},
{0xAB87,0x13B7},
{0xAB88,0x13B8},
{0xAB89,0x13B9},
{0xAB8A,0x13BA},
{0xAB8B,0x13BB},
{0xAB8C,0x13BC},
{0xAB8D,0x13BD},
{0xAB8E,0x13BE},
{0xAB8F,0x13BF},
{0xAB90,0x13C0},
{0xAB91,0x13C1},
{0xAB92,0x13C2},
{0xAB93,0x13C3},
{0xAB94,0x13C4},
{0xAB95,0x13C5},
{0xAB96,0x13C6},
{0xAB97,0x13C7},
{0xAB98,0x13C8},
{0xAB99,0x13C9},
{0xAB9A,0x13CA},
{0xAB9B,0x13CB},
{0xAB9C,0x13CC},
{0xAB9D,0x13CD},
{0xAB9E,0x13CE},
{0xAB9F,0x13CF},
{0xABA0,0x13D0},
{0xABA1,0x13D1},
{0xABA2,0x13D2},
{0xABA3,0x13D3},
{0xABA4,0x13D4},
{0xABA5,0x13D5},
{0xABA6,0x13D6},
{0xABA7,0x13D7},
{0xABA8,0x13D8},
{0xABA9,0x13D9},
{0xABAA,0x13DA},
{0xABAB,0x13DB},
{0xABAC,0x13DC},
{0xABAD,0x13DD},
{0xABAE,0x13DE},
{0xABAF,0x13DF},
{0xABB0,0x13E0},
{0xABB1,0x13E1},
{0xABB2,0x13E2},
{0xABB3,0x13E3},
{0xABB4,0x13E4},
{0xABB5,0x13E5},
{0xABB6,0x13E6},
{0xABB7,0x13E7},
{0xABB8,0x13E8},
{0xABB9,0x13E9},
{0xABBA,0x13EA},
{0xABBB,0x13EB},
{0xABBC,0x13EC},
{0xABBD,0x13ED},
{0xABBE,0x13EE},
{0xABBF,0x13EF},
{0xFF41,0xFF21},
{0xFF42,0xFF22},
{0xFF43,0xFF23},
{0xFF44,0xFF24},
{0xFF45,0xFF25},
{0xFF46,0xFF26},
{0xFF47,0xFF27},
{0xFF48,0xFF28},
{0xFF49,0xFF29},
{0xFF4A,0xFF2A},
{0xFF4B,0xFF2B},
{0xFF4C,0xFF2C},
{0xFF4D,0xFF2D},
{0xFF4E,0xFF2E},
{0xFF4F,0xFF2F},
{0xFF50,0xFF30},
{0xFF51,0xFF31},
{0xFF52,0xFF32},
{0xFF53,0xFF33},
{0xFF54,0xFF34},
{0xFF55,0xFF35},
{0xFF56,0xFF36},
{0xFF57,0xFF37},
{0xFF58,0xFF38},
{0xFF59,0xFF39},
{0xFF5A,0xFF3A},
{0x10428,0x10400},
{0x10429,0x10401},
{0x1042A,0x10402},
{0x1042B,0x10403},
{0x1042C,0x10404},
{0x1042D,0x10405},
{0x1042E,0x10406},
{0x1042F,0x10407},
{0x10430,0x10408},
{0x10431,0x10409},
{0x10432,0x1040A},
{0x10433,0x1040B},
{0x10434,0x1040C},
{0x10435,0x1040D},
{0x10436,0x1040E},
{0x10437,0x1040F},
{0x10438,0x10410},
{0x10439,0x10411},
{0x1043A,0x10412},
{0x1043B,0x10413},
{0x1043C,0x10414},
{0x1043D,0x10415},
{0x1043E,0x10416},
{0x1043F,0x10417},
{0x10440,0x10418},
{0x10441,0x10419},
{0x10442,0x1041A},
{0x10443,0x1041B},
{0x10444,0x1041C},
{0x10445,0x1041D},
{0x10446,0x1041E},
{0x10447,0x1041F},
{0x10448,0x10420},
{0x10449,0x10421},
{0x1044A,0x10422},
{0x1044B,0x10423},
{0x1044C,0x10424},
{0x1044D,0x10425},
{0x1044E,0x10426},
{0x1044F,0x10427},
{0x104D8,0x104B0},
{0x104D9,0x104B1},
{0x104DA,0x104B2},
{0x104DB,0x104B3},
{0x104DC,0x104B4},
{0x104DD,0x104B5},
{0x104DE,0x104B6},
{0x104DF,0x104B7},
{0x104E0,0x104B8},
{0x104E1,0x104B9},
{0x104E2,0x104BA},
{0x104E3,0x104BB},
{0x104E4,0x104BC},
{0x104E5,0x104BD},
{0x104E6,0x104BE},
{0x104E7,0x104BF},
{0x104E8,0x104C0},
{0x104E9,0x104C1},
{0x104EA,0x104C2},
{0x104EB,0x104C3},
{0x104EC,0x104C4},
{0x104ED,0x104C5},
{0x104EE,0x104C6},
{0x104EF,0x104C7},
{0x104F0,0x104C8},
{0x104F1,0x104C9},
{0x104F2,0x104CA},
{0x104F3,0x104CB},
{0x104F4,0x104CC},
{0x104F5,0x104CD},
{0x104F6,0x104CE},
{0x104F7,0x104CF},
{0x104F8,0x104D0},
{0x104F9,0x104D1},
{0x104FA,0x104D2},
{0x104FB,0x104D3},
{0x10597,0x10570},
{0x10598,0x10571},
{0x10599,0x10572},
{0x1059A,0x10573},
{0x1059B,0x10574},
{0x1059C,0x10575},
{0x1059D,0x10576},
{0x1059E,0x10577},
{0x1059F,0x10578},
{0x105A0,0x10579},
{0x105A1,0x1057A},
{0x105A3,0x1057C},
{0x105A4,0x1057D},
{0x105A5,0x1057E},
{0x105A6,0x1057F},
{0x105A7,0x10580},
{0x105A8,0x10581},
{0x105A9,0x10582},
{0x105AA,0x10583},
{0x105AB,0x10584},
{0x105AC,0x10585},
{0x105AD,0x10586},
{0x105AE,0x10587},
{0x105AF,0x10588},
{0x105B0,0x10589},
{0x105B1,0x1058A},
{0x105B3,0x1058C},
{0x105B4,0x1058D},
{0x105B5,0x1058E},
{0x105B6,0x1058F},
{0x105B7,0x10590},
{0x105B8,0x10591},
{0x105B9,0x10592},
{0x105BB,0x10594},
{0x105BC,0x10595},
{0x10CC0,0x10C80},
{0x10CC1,0x10C81},
{0x10CC2,0x10C82},
{0x10CC3,0x10C83},
{0x10CC4,0x10C84},
{0x10CC5,0x10C85},
{0x10CC6,0x10C86},
{0x10CC7,0x10C87},
{0x10CC8,0x10C88},
{0x10CC9,0x10C89},
{0x10CCA,0x10C8A},
{0x10CCB,0x10C8B},
{0x10CCC,0x10C8C},
{0x10CCD,0x10C8D},
{0x10CCE,0x10C8E},
{0x10CCF,0x10C8F},
{0x10CD0,0x10C90},
{0x10CD1,0x10C91},
{0x10CD2,0x10C92},
{0x10CD3,0x10C93},
{0x10CD4,0x10C94},
{0x10CD5,0x10C95},
{0x10CD6,0x10C96},
{0x10CD7,0x10C97},
{0x10CD8,0x10C98},
{0x10CD9,0x10C99},
{0x10CDA,0x10C9A},
{0x10CDB,0x10C9B},
{0x10CDC,0x10C9C},
{0x10CDD,0x10C9D},
{0x10CDE,0x10C9E},
{0x10CDF,0x10C9F},
{0x10CE0,0x10CA0},
{0x10CE1,0x10CA1},
{0x10CE2,0x10CA2},
{0x10CE3,0x10CA3},
{0x10CE4,0x10CA4},
{0x10CE5,0x10CA5},
{0x10CE6,0x10CA6},
{0x10CE7,0x10CA7},
{0x10CE8,0x10CA8},
{0x10CE9,0x10CA9},
{0x10CEA,0x10CAA},
{0x10CEB,0x10CAB},
{0x10CEC,0x10CAC},
{0x10CED,0x10CAD},
{0x10CEE,0x10CAE},
{0x10CEF,0x10CAF},
{0x10CF0,0x10CB0},
{0x10CF1,0x10CB1},
{0x10CF2,0x10CB2},
{0x118C0,0x118A0},
{0x118C1,0x118A1},
{0x118C2,0x118A2},
{0x118C3,0x118A3},
{0x118C4,0x118A4},
{0x118C5,0x118A5},
{0x118C6,0x118A6},
{0x118C7,0x118A7},
{0x118C8,0x118A8},
{0x118C9,0x118A9},
{0x118CA,0x118AA},
{0x118CB,0x118AB},
{0x118CC,0x118AC},
{0x118CD,0x118AD},
{0x118CE,0x118AE},
{0x118CF,0x118AF},
{0x118D0,0x118B0},
{0x118D1,0x118B1},
{0x118D2,0x118B2},
{0x118D3,0x118B3},
{0x118D4,0x118B4},
{0x118D5,0x118B5},
{0x118D6,0x118B6},
{0x118D7,0x118B7},
{0x118D8,0x118B8},
{0x118D9,0x118B9},
{0x118DA,0x118BA},
{0x118DB,0x118BB},
{0x118DC,0x118BC},
{0x118DD,0x118BD},
{0x118DE,0x118BE},
{0x118DF,0x118BF},
{0x16E60,0x16E40},
{0x16E61,0x16E41},
{0x16E62,0x16E42},
{0x16E63,0x16E43},
{0x16E64,0x16E44},
{0x16E65,0x16E45},
{0x16E66,0x16E46},
{0x16E67,0x16E47},
{0x16E68,0x16E48},
{0x16E69,0x16E49},
{0x16E6A,0x16E4A},
{0x16E6B,0x16E4B},
{0x16E6C,0x16E4C},
{0x16E6D,0x16E4D},
{0x16E6E,0x16E4E},
{0x16E6F,0x16E4F},
{0x16E70,0x16E50},
{0x16E71,0x16E51},
{0x16E72,0x16E52},
{0x16E73,0x16E53},
{0x16E74,0x16E54},
{0x16E75,0x16E55},
{0x16E76,0x16E56},
{0x16E77,0x16E57},
{0x16E78,0x16E58},
{0x16E79,0x16E59},
{0x16E7A,0x16E5A},
{0x16E7B,0x16E5B},
{0x16E7C,0x16E5C},
{0x16E7D,0x16E5D},
{0x16E7E,0x16E5E},
{0x16E7F,0x16E5F},
{0x1E922,0x1E900},
{0x1E923,0x1E901},
{0x1E924,0x1E902},
{0x1E925,0x1E903},
{0x1E926,0x1E904},
{0x1E927,0x1E905},
{0x1E928,0x1E906},
{0x1E929,0x1E907},
{0x1E92A,0x1E908},
{0x1E92B,0x1E909},
{0x1E92C,0x1E90A},
{0x1E92D,0x1E90B},
{0x1E92E,0x1E90C},
{0x1E92F,0x1E90D},
{0x1E930,0x1E90E},
{0x1E931,0x1E90F},
{0x1E932,0x1E910},
{0x1E933,0x1E911},
{0x1E934,0x1E912},
{0x1E935,0x1E913},
{0x1E936,0x1E914},
{0x1E937,0x1E915},
{0x1E938,0x1E916},
{0x1E939,0x1E917},
{0x1E93A,0x1E918},
{0x1E93B,0x1E919},
{0x1E93C,0x1E91A},
{0x1E93D,0x1E91B},
{0x1E93E,0x1E91C},
{0x1E93F,0x1E91D},
{0x1E940,0x1E91E},
{0x1E941,0x1E91F},
{0x1E942,0x1E920},
{0x1E943,0x1E921},
};
static const um T_mi[] = {
{0x28,0x29},
{0x29,0x28},
{0x3C,0x3E},
{0x3E,0x3C},
{0x5B,0x5D},
{0x5D,0x5B},
{0x7B,0x7D},
{0x7D,0x7B},
{0xAB,0xBB},
{0xBB,0xAB},
{0xF3A,0xF3B},
{0xF3B,0xF3A},
{0xF3C,0xF3D},
{0xF3D,0xF3C},
{0x169B,0x169C},
{0x169C,0x169B},
{0x2039,0x203A},
{0x203A,0x2039},
{0x2045,0x2046},
{0x2046,0x2045},
{0x207D,0x207E},
{0x207E,0x207D},
{0x208D,0x208E},
{0x208E,0x208D},
{0x2208,0x220B},
{0x2209,0x220C},
{0x220A,0x220D},
{0x220B,0x2208},
{0x220C,0x2209},
{0x220D,0x220A},
{0x2215,0x29F5},
{0x221F,0x2BFE},
{0x2220,0x29A3},
{0x2221,0x299B},
{0x2222,0x29A0},
{0x2224,0x2AEE},
{0x223C,0x223D},
{0x223D,0x223C},
{0x2243,0x22CD},
{0x2245,0x224C},
{0x224C,0x2245},
{0x2252,0x2253},
{0x2253,0x2252},
{0x2254,0x2255},
{0x2255,0x2254},
{0x2264,0x2265},
{0x2265,0x2264},
{0x2266,0x2267},
{0x2267,0x2266},
{0x2268,0x2269},
{0x2269,0x2268},
{0x226A,0x226B},
{0x226B,0x226A},
{0x226E,0x226F},
{0x226F,0x226E},
{0x2270,0x2271},
{0x2271,0x2270},
{0x2272,0x2273},
{0x2273,0x2272},
{0x2274,0x2275},
{0x2275,0x2274},
{0x2276,0x2277},
{0x2277,0x2276},
{0x2278,0x2279},
{0x2279,0x2278},
{0x227A,0x227B},
{0x227B,0x227A},
{0x227C,0x227D},
{0x227D,0x227C},
{0x227E,0x227F},
{0x227F,0x227E},
{0x2280,0x2281},
{0x2281,0x2280},
{0x2282,0x2283},
{0x2283,0x2282},
{0x2284,0x2285},
{0x2285,0x2284},
{0x2286,0x2287},
{0x2287,0x2286},
{0x2288,0x2289},
{0x2289,0x2288},
{0x228A,0x228B},
{0x228B,0x228A},
{0x228F,0x2290},
{0x2290,0x228F},
{0x2291,0x2292},
{0x2292,0x2291},
{0x2298,0x29B8},
{0x22A2,0x22A3},
{0x22A3,0x22A2},
{0x22A6,0x2ADE},
{0x22A8,0x2AE4},
{0x22A9,0x2AE3},
{0x22AB,0x2AE5},
{0x22B0,0x22B1},
{0x22B1,0x22B0},
{0x22B2,0x22B3},
{0x22B3,0x22B2},
{0x22B4,0x22B5},
{0x22B5,0x22B4},
{0x22B6,0x22B7},
{0x22B7,0x22B6},
{0x22B8,0x27DC},
{0x22C9,0x22CA},
{0x22CA,0x22C9},
{0x22CB,0x22CC},
{0x22CC,0x22CB},
{0x22CD,0x2243},
{0x22D0,0x22D1},
{0x22D1,0x22D0},
{0x22D6,0x22D7},
{0x22D7,0x22D6},
{0x22D8,0x22D9},
{0x22D9,0x22D8},
{0x22DA,0x22DB},
{0x22DB,0x22DA},
{0x22DC,0x22DD},
{0x22DD,0x22DC},
{0x22DE,0x22DF},
{0x22DF,0x22DE},
{0x22E0,0x22E1},
{0x22E1,0x22E0},
{0x22E2,0x22E3},
{0x22E3,0x22E2},
{0x22E4,0x22E5},
{0x22E5,0x22E4},
{0x22E6,0x22E7},
{0x22E7,0x22E6},
{0x22E8,0x22E9},
{0x22E9,0x22E8},
{0x22EA,0x22EB},
{0x22EB,0x22EA},
{0x22EC,0x22ED},
{0x22ED,0x22EC},
{0x22F0,0x22F1},
{0x22F1,0x22F0},
{0x22F2,0x22FA},
{0x22F3,0x22FB},
{0x22F4,0x22FC},
{0x22F6,0x22FD},
{0x22F7,0x22FE},
{0x22FA,0x22F2},
{0x22FB,0x22F3},
{0x22FC,0x22F4},
{0x22FD,0x22F6},
{0x22FE,0x22F7},
{0x2308,0x2309},
{0x2309,0x2308},
{0x230A,0x230B},
{0x230B,0x230A},
{0x2329,0x232A},
{0x232A,0x2329},
{0x2768,0x2769},
{0x2769,0x2768},
{0x276A,0x276B},
{0x276B,0x276A},
{0x276C,0x276D},
{0x276D,0x276C},
{0x276E,0x276F},
{0x276F,0x276E},
{0x2770,0x2771},
{0x2771,0x2770},
{0x2772,0x2773},
{0x2773,0x2772},
{0x2774,0x2775},
{0x2775,0x2774},
{0x27C3,0x27C4},
{0x27C4,0x27C3},
{0x27C5,0x27C6},
{0x27C6,0x27C5},
{0x27C8,0x27C9},
{0x27C9,0x27C8},
{0x27CB,0x27CD},
{0x27CD,0x27CB},
{0x27D5,0x27D6},
{0x27D6,0x27D5},
{0x27DC,0x22B8},
{0x27DD,0x27DE},
{0x27DE,0x27DD},
{0x27E2,0x27E3},
{0x27E3,0x27E2},
{0x27E4,0x27E5},
{0x27E5,0x27E4},
{0x27E6,0x27E7},
{0x27E7,0x27E6},
{0x27E8,0x27E9},
{0x27E9,0x27E8},
{0x27EA,0x27EB},
{0x27EB,0x27EA},
{0x27EC,0x27ED},
{0x27ED,0x27EC},
{0x27EE,0x27EF},
{0x27EF,0x27EE},
{0x2983,0x2984},
{0x2984,0x2983},
{0x2985,0x2986},
{0x2986,0x2985},
{0x2987,0x2988},
{0x2988,0x2987},
{0x2989,0x298A},
{0x298A,0x2989},
{0x298B,0x298C},
{0x298C,0x298B},
{0x298D,0x2990},
{0x298E,0x298F},
{0x298F,0x298E},
{0x2990,0x298D},
{0x2991,0x2992},
{0x2992,0x2991},
{0x2993,0x2994},
{0x2994,0x2993},
{0x2995,0x2996},
{0x2996,0x2995},
{0x2997,0x2998},
{0x2998,0x2997},
{0x299B,0x2221},
{0x29A0,0x2222},
{0x29A3,0x2220},
{0x29A4,0x29A5},
{0x29A5,0x29A4},
{0x29A8,0x29A9},
{0x29A9,0x29A8},
{0x29AA,0x29AB},
{0x29AB,0x29AA},
{0x29AC,0x29AD},
{0x29AD,0x29AC},
{0x29AE,0x29AF},
{0x29AF,0x29AE},
{0x29B8,0x2298},
{0x29C0,0x29C1},
{0x29C1,0x29C0},
{0x29C4,0x29C5},
{0x29C5,0x29C4},
{0x29CF,0x29D0},
{0x29D0,0x29CF},
{0x29D1,0x29D2},
{0x29D2,0x29D1},
{0x29D4,0x29D5},
{0x29D5,0x29D4},
{0x29D8,0x29D9},
{0x29D9,0x29D8},
{0x29DA,0x29DB},
{0x29DB,0x29DA},
{0x29E8,0x29E9},
{0x29E9,0x29E8},
{0x29F5,0x2215},
{0x29F8,0x29F9},
{0x29F9,0x29F8},
{0x29FC,0x29FD},
{0x29FD,0x29FC},
{0x2A2B,0x2A2C},
{0x2A2C,0x2A2B},
{0x2A2D,0x2A2E},
{0x2A2E,0x2A2D},
{0x2A34,0x2A35},
{0x2A35,0x2A34},
{0x2A3C,0x2A3D},
{0x2A3D,0x2A3C},
{0x2A64,0x2A65},
{0x2A65,0x2A64},
{0x2A79,0x2A7A},
{0x2A7A,0x2A79},
{0x2A7B,0x2A7C},
{0x2A7C,0x2A7B},
{0x2A7D,0x2A7E},
{0x2A7E,0x2A7D},
{0x2A7F,0x2A80},
{0x2A80,0x2A7F},
{0x2A81,0x2A82},
{0x2A82,0x2A81},
{0x2A83,0x2A84},
{0x2A84,0x2A83},
{0x2A85,0x2A86},
{0x2A86,0x2A85},
{0x2A87,0x2A88},
{0x2A88,0x2A87},
{0x2A89,0x2A8A},
{0x2A8A,0x2A89},
{0x2A8B,0x2A8C},
{0x2A8C,0x2A8B},
{0x2A8D,0x2A8E},
{0x2A8E,0x2A8D},
{0x2A8F,0x2A90},
{0x2A90,0x2A8F},
{0x2A91,0x2A92},
{0x2A92,0x2A91},
{0x2A93,0x2A94},
{0x2A94,0x2A93},
{0x2A95,0x2A96},
{0x2A96,0x2A95},
{0x2A97,0x2A98},
{0x2A98,0x2A97},
{0x2A99,0x2A9A},
{0x2A9A,0x2A99},
{0x2A9B,0x2A9C},
{0x2A9C,0x2A9B},
{0x2A9D,0x2A9E},
{0x2A9E,0x2A9D},
{0x2A9F,0x2AA0},
{0x2AA0,0x2A9F},
{0x2AA1,0x2AA2},
{0x2AA2,0x2AA1},
{0x2AA6,0x2AA7},
{0x2AA7,0x2AA6},
{0x2AA8,0x2AA9},
{0x2AA9,0x2AA8},
{0x2AAA,0x2AAB},
{0x2AAB,0x2AAA},
{0x2AAC,0x2AAD},
{0x2AAD,0x2AAC},
{0x2AAF,0x2AB0},
{0x2AB0,0x2AAF},
{0x2AB1,0x2AB2},
{0x2AB2,0x2AB1},
{0x2AB3,0x2AB4},
{0x2AB4,0x2AB3},
{0x2AB5,0x2AB6},
{0x2AB6,0x2AB5},
{0x2AB7,0x2AB8},
{0x2AB8,0x2AB7},
{0x2AB9,0x2ABA},
{0x2ABA,0x2AB9},
{0x2ABB,0x2ABC},
{0x2ABC,0x2ABB},
{0x2ABD,0x2ABE},
{0x2ABE,0x2ABD},
{0x2ABF,0x2AC0},
{0x2AC0,0x2ABF},
{0x2AC1,0x2AC2},
{0x2AC2,0x2AC1},
{0x2AC3,0x2AC4},
{0x2AC4,0x2AC3},
{0x2AC5,0x2AC6},
{0x2AC6,0x2AC5},
{0x2AC7,0x2AC8},
{0x2AC8,0x2AC7},
{0x2AC9,0x2ACA},
{0x2ACA,0x2AC9},
{0x2ACB,0x2ACC},
{0x2ACC,0x2ACB},
{0x2ACD,0x2ACE},
{0x2ACE,0x2ACD},
{0x2ACF,0x2AD0},
{0x2AD0,0x2ACF},
{0x2AD1,0x2AD2},
{0x2AD2,0x2AD1},
{0x2AD3,0x2AD4},
{0x2AD4,0x2AD3},
{0x2AD5,0x2AD6},
{0x2AD6,0x2AD5},
{0x2ADE,0x22A6},
{0x2AE3,0x22A9},
{0x2AE4,0x22A8},
{0x2AE5,0x22AB},
{0x2AEC,0x2AED},
{0x2AED,0x2AEC},
{0x2AEE,0x2224},
{0x2AF7,0x2AF8},
{0x2AF8,0x2AF7},
{0x2AF9,0x2AFA},
{0x2AFA,0x2AF9},
{0x2BFE,0x221F},
{0x2E02,0x2E03},
{0x2E03,0x2E02},
{0x2E04,0x2E05},
{0x2E05,0x2E04},
{0x2E09,0x2E0A},
{0x2E0A,0x2E09},
{0x2E0C,0x2E0D},
{0x2E0D,0x2E0C},
{0x2E1C,0x2E1D},
{0x2E1D,0x2E1C},
{0x2E20,0x2E21},
{0x2E21,0x2E20},
{0x2E22,0x2E23},
{0x2E23,0x2E22},
{0x2E24,0x2E25},
{0x2E25,0x2E24},
{0x2E26,0x2E27},
{0x2E27,0x2E26},
{0x2E28,0x2E29},
{0x2E29,0x2E28},
{0x2E55,0x2E56},
{0x2E56,0x2E55},
{0x2E57,0x2E58},
{0x2E58,0x2E57},
{0x2E59,0x2E5A},
{0x2E5A,0x2E59},
{0x2E5B,0x2E5C},
{0x2E5C,0x2E5B},
{0x3008,0x3009},
{0x3009,0x3008},
{0x300A,0x300B},
{0x300B,0x300A},
{0x300C,0x300D},
{0x300D,0x300C},
{0x300E,0x300F},
{0x300F,0x300E},
{0x3010,0x3011},
{0x3011,0x3010},
{0x3014,0x3015},
{0x3015,0x3014},
{0x3016,0x3017},
{0x3017,0x3016},
{0x3018,0x3019},
{0x3019,0x3018},
{0x301A,0x301B},
{0x301B,0x301A},
{0xFE59,0xFE5A},
{0xFE5A,0xFE59},
{0xFE5B,0xFE5C},
{0xFE5C,0xFE5B},
{0xFE5D,0xFE5E},
{0xFE5E,0xFE5D},
{0xFE64,0xFE65},
{0xFE65,0xFE64},
{0xFF08,0xFF09},
{0xFF09,0xFF08},
{0xFF1C,0xFF1E},
{0xFF1E,0xFF1C},
{0xFF3B,0xFF3D},
{0xFF3D,0xFF3B},
{0xFF5B,0xFF5D},
{0xFF5D,0xFF5B},
{0xFF5F,0xFF60},
{0xFF60,0xFF5F},
{0xFF62,0xFF63},
{0xFF63,0xFF62},
};
static const um T_brk[] = {
{0x28,0x1000028},
{0x29,0x2000028},
{0x5B,0x100005B},
{0x5D,0x200005B},
{0x7B,0x100007B},
{0x7D,0x200007B},
{0xF3A,0x1000F3A},
{0xF3B,0x2000F3A},
{0xF3C,0x1000F3C},
{0xF3D,0x2000F3C},
{0x169B,0x100169B},
{0x169C,0x200169B},
{0x2045,0x1002045},
{0x2046,0x2002045},
{0x207D,0x100207D},
{0x207E,0x200207D},
{0x208D,0x100208D},
{0x208E,0x200208D},
{0x2308,0x1002308},
{0x2309,0x2002308},
{0x230A,0x100230A},
{0x230B,0x200230A},
{0x2329,0x1003008},
{0x232A,0x2003008},
{0x2768,0x1002768},
{0x2769,0x2002768},
{0x276A,0x100276A},
{0x276B,0x200276A},
{0x276C,0x100276C},
{0x276D,0x200276C},
{0x276E,0x100276E},
{0x276F,0x200276E},
{0x2770,0x1002770},
{0x2771,0x2002770},
{0x2772,0x1002772},
{0x2773,0x2002772},
{0x2774,0x1002774},
{0x2775,0x2002774},
{0x27C5,0x10027C5},
{0x27C6,0x20027C5},
{0x27E6,0x10027E6},
{0x27E7,0x20027E6},
{0x27E8,0x10027E8},
{0x27E9,0x20027E8},
{0x27EA,0x10027EA},
{0x27EB,0x20027EA},
{0x27EC,0x10027EC},
{0x27ED,0x20027EC},
{0x27EE,0x10027EE},
{0x27EF,0x20027EE},
{0x2983,0x1002983},
{0x2984,0x2002983},
{0x2985,0x1002985},
{0x2986,0x2002985},
{0x2987,0x1002987},
{0x2988,0x2002987},
{0x2989,0x1002989},
{0x298A,0x2002989},
{0x298B,0x100298B},
{0x298C,0x200298B},
{0x298D,0x100298D},
{0x298E,0x200298F},
{0x298F,0x100298F},
{0x2990,0x200298D},
{0x2991,0x1002991},
{0x2992,0x2002991},
{0x2993,0x1002993},
{0x2994,0x2002993},
{0x2995,0x1002995},
{0x2996,0x2002995},
{0x2997,0x1002997},
{0x2998,0x2002997},
{0x29D8,0x10029D8},
{0x29D9,0x20029D8},
{0x29DA,0x10029DA},
{0x29DB,0x20029DA},
{0x29FC,0x10029FC},
{0x29FD,0x20029FC},
{0x2E22,0x1002E22},
{0x2E23,0x2002E22},
{0x2E24,0x1002E24},
{0x2E25,0x2002E24},
{0x2E26,0x1002E26},
{0x2E27,0x2002E26},
{0x2E28,0x1002E28},
{0x2E29,0x2002E28},
{0x2E55,0x1002E55},
{0x2E56,0x2002E55},
{0x2E57,0x1002E57},
{0x2E58,0x2002E57},
{0x2E59,0x1002E59},
{0x2E5A,0x2002E59},
{0x2E5B,0x1002E5B},
{0x2E5C,0x2002E5B},
{0x3008,0x1003008},
{0x3009,0x2003008},
{0x300A,0x100300A},
{0x300B,0x200300A},
{0x300C,0x100300C},
{0x300D,0x200300C},
{0x300E,0x100300E},
{0x300F,0x200300E},
{0x3010,0x1003010},
{0x3011,0x2003010},
{0x3014,0x1003014},
{0x3015,0x2003014},
{0x3016,0x1003016},
{0x3017,0x2003016},
{0x3018,0x1003018},
{0x3019,0x2003018},
{0x301A,0x100301A},
{0x301B,0x200301A},
{0xFE59,0x100FE59},
{0xFE5A,0x200FE59},
{0xFE5B,0x100FE5B},
{0xFE5C,0x200FE5B},
{0xFE5D,0x100FE5D},
{0xFE5E,0x200FE5D},
{0xFF08,0x100FF08},
{0xFF09,0x200FF08},
{0xFF3B,0x100FF3B},
{0xFF3D,0x200FF3B},
{0xFF5B,0x100FF5B},
{0xFF5D,0x200FF5B},
{0xFF5F,0x100FF5F},
{0xFF60,0x200FF5F},
{0xFF62,0x100FF62},
{0xFF63,0x200FF62},
};
static const us T_sl[] = {
{0xDF,1,{0xDF}},
{0x130,2,{0x69,0x307}},
{0x149,1,{0x149}},
{0x1F0,1,{0x1F0}},
{0x390,1,{0x390}},
{0x3B0,1,{0x3B0}},
{0x587,1,{0x587}},
{0x1E96,1,{0x1E96}},
{0x1E97,1,{0x1E97}},
{0x1E98,1,{0x1E98}},
{0x1E99,1,{0x1E99}},
{0x1E9A,1,{0x1E9A}},
{0x1F50,1,{0x1F50}},
{0x1F52,1,{0x1F52}},
{0x1F54,1,{0x1F54}},
{0x1F56,1,{0x1F56}},
{0x1F80,1,{0x1F80}},
{0x1F81,1,{0x1F81}},
{0x1F82,1,{0x1F82}},
{0x1F83,1,{0x1F83}},
{0x1F84,1,{0x1F84}},
{0x1F85,1,{0x1F85}},
{0x1F86,1,{0x1F86}},
{0x1F87,1,{0x1F87}},
{0x1F88,1,{0x1F80}},
{0x1F89,1,{0x1F81}},
{0x1F8A,1,{0x1F82}},
{0x1F8B,1,{0x1F83}},
{0x1F8C,1,{0x1F84}},
{0x1F8D,1,{0x1F85}},
{0x1F8E,1,{0x1F86}},
{0x1F8F,1,{0x1F87}},
{0x1F90,1,{0x1F90}},
{0x1F91,1,{0x1F91}},
{0x1F92,1,{0x1F92}},
{0x1F93,1,{0x1F93}},
{0x1F94,1,{0x1F94}},
{0x1F95,1,{0x1F95}},
{0x1F96,1,{0x1F96}},
{0x1F97,1,{0x1F97}},
{0x1F98,1,{0x1F90}},
{0x1F99,1,{0x1F91}},
{0x1F9A,1,{0x1F92}},
{0x1F9B,1,{0x1F93}},
{0x1F9C,1,{0x1F94}},
{0x1F9D,1,{0x1F95}},
{0x1F9E,1,{0x1F96}},
{0x1F9F,1,{0x1F97}},
{0x1FA0,1,{0x1FA0}},
{0x1FA1,1,{0x1FA1}},
{0x1FA2,1,{0x1FA2}},
{0x1FA3,1,{0x1FA3}},
{0x1FA4,1,{0x1FA4}},
{0x1FA5,1,{0x1FA5}},
{0x1FA6,1,{0x1FA6}},
{0x1FA7,1,{0x1FA7}},
{0x1FA8,1,{0x1FA0}},
{0x1FA9,1,{0x1FA1}},
{0x1FAA,1,{0x1FA2}},
{0x1FAB,1,{0x1FA3}},
{0x1FAC,1,{0x1FA4}},
{0x1FAD,1,{0x1FA5}},
{0x1FAE,1,{0x1FA6}},
{0x1FAF,1,{0x1FA7}},
{0x1FB2,1,{0x1FB2}},
{0x1FB3,1,{0x1FB3}},
{0x1FB4,1,{0x1FB4}},
{0x1FB6,1,{0x1FB6}},
{0x1FB7,1,{0x1FB7}},
{0x1FBC,1,{0x1FB3}},
{0x1FC2,1,{0x1FC2}},
{0x1FC3,1,{0x1FC3}},
{0x1FC4,1,{0x1FC4}},
{0x1FC6,1,{0x1FC6}},
{0x1FC7,1,{0x1FC7}},
{0x1FCC,1,{0x1FC3}},
{0x1FD2,1,{0x1FD2}},
{0x1FD3,1,{0x1FD3}},
{0x1FD6,1,{0x1FD6}},
{0x1FD7,1,{0x1FD7}},
{0x1FE2,1,{0x1FE2}},
{0x1FE3,1,{0x1FE3}},
{0x1FE4,1,{0x1FE4}},
{0x1FE6,1,{0x1FE6}},
{0x1FE7,1,{0x1FE7}},
{0x1FF2,1,{0x1FF2}},
{0x1FF3,1,{0x1FF3}},
{0x1FF4,1,{0x1FF4}},
{0x1FF6,1,{0x1FF6}},
{0x1FF7,1,{0x1FF7}},
{0x1FFC,1,{0x1FF3}},
{0xFB00,1,{0xFB00}},
{0xFB01,1,{0xFB01}},
{0xFB02,1,{0xFB02}},
{0xFB03,1,{0xFB03}},
{0xFB04,1,{0xFB04}},
{0xFB05,1,{0xFB05}},
{0xFB06,1,{0xFB06}},
{0xFB13,1,{0xFB13}},
{0xFB14,1,{0xFB14}},
{0xFB15,1,{0xFB15}},
{0xFB16,1,{0xFB16}},
{0xFB17,1,{0xFB17}},
};
static const us T_st[] = {
{0xDF,2,{0x53,0x73}},
{0x130,1,{0x130}},
{0x149,2,{0x2BC,0x4E}},
{0x1F0,2,{0x4A,0x30C}},
{0x390,3,{0x399,0x308,0x301}},
{0x3B0,3,{0x3A5,0x308,0x301}},
{0x587,2,{0x535,0x582}},
{0x1E96,2,{0x48,0x331}},
{0x1E97,2,{0x54,0x308}},
{0x1E98,2,{0x57,0x30A}},
{0x1E99,2,{0x59,0x30A}},
{0x1E9A,2,{0x41,0x2BE}},
{0x1F50,2,{0x3A5,0x313}},
{0x1F52,3,{0x3A5,0x313,0x300}},
{0x1F54,3,{0x3A5,0x313,0x301}},
{0x1F56,3,{0x3A5,0x313,0x342}},
{0x1F80,1,{0x1F88}},
{0x1F81,1,{0x1F89}},
{0x1F82,1,{0x1F8A}},
{0x1F83,1,{0x1F8B}},
{0x1F84,1,{0x1F8C}},
{0x1F85,1,{0x1F8D}},
{0x1F86,1,{0x1F8E}},
{0x1F87,1,{0x1F8F}},
{0x1F88,1,{0x1F88}},
{0x1F89,1,{0x1F89}},
{0x1F8A,1,{0x1F8A}},
{0x1F8B,1,{0x1F8B}},
{0x1F8C,1,{0x1F8C}},
{0x1F8D,1,{0x1F8D}},
{0x1F8E,1,{0x1F8E}},
{0x1F8F,1,{0x1F8F}},
{0x1F90,1,{0x1F98}},
{0x1F91,1,{0x1F99}},
{0x1F92,1,{0x1F9A}},
{0x1F93,1,{0x1F9B}},
{0x1F94,1,{0x1F9C}},
{0x1F95,1,{0x1F9D}},
{0x1F96,1,{0x1F9E}},
{0x1F97,1,{0x1F9F}},
{0x1F98,1,{0x1F98}},
{0x1F99,1,{0x1F99}},
{0x1F9A,1,{0x1F9A}},
{0x1F9B,1,{0x1F9B}},
{0x1F9C,1,{0x1F9C}},
{0x1F9D,1,{0x1F9D}},
{0x1F9E,1,{0x1F9E}},
{0x1F9F,1,{0x1F9F}},
{0x1FA0,1,{0x1FA8}},
{0x1FA1,1,{0x1FA9}},
{0x1FA2,1,{0x1FAA}},
{0x1FA3,1,{0x1FAB}},
{0x1FA4,1,{0x1FAC}},
{0x1FA5,1,{0x1FAD}},
{0x1FA6,1,{0x1FAE}},
{0x1FA7,1,{0x1FAF}},
{0x1FA8,1,{0x1FA8}},
{0x1FA9,1,{0x1FA9}},
{0x1FAA,1,{0x1FAA}},
{0x1FAB,1,{0x1FAB}},
{0x1FAC,1,{0x1FAC}},
{0x1FAD,1,{0x1FAD}},
{0x1FAE,1,{0x1FAE}},
{0x1FAF,1,{0x1FAF}},
{0x1FB2,2,{0x1FBA,0x345}},
{0x1FB3,1,{0x1FBC}},
{0x1FB4,2,{0x386,0x345}},
{0x1FB6,2,{0x391,0x342}},
{0x1FB7,3,{0x391,0x342,0x345}},
{0x1FBC,1,{0x1FBC}},
{0x1FC2,2,{0x1FCA,0x345}},
{0x1FC3,1,{0x1FCC}},
{0x1FC4,2,{0x389,0x345}},
{0x1FC6,2,{0x397,0x342}},
{0x1FC7,3,{0x397,0x342,0x345}},
{0x1FCC,1,{0x1FCC}},
{0x1FD2,3,{0x399,0x308,0x300}},
{0x1FD3,3,{0x399,0x308,0x301}},
{0x1FD6,2,{0x399,0x342}},
{0x1FD7,3,{0x399,0x308,0x342}},
{0x1FE2,3,{0x3A5,0x308,0x300}},
{0x1FE3,3,{0x3A5,0x308,0x301}},
{0x1FE4,2,{0x3A1,0x313}},
{0x1FE6,2,{0x3A5,0x342}},
{0x1FE7,3,{0x3A5,0x308,0x342}},
{0x1FF2,2,{0x1FFA,0x345}},
{0x1FF3,1,{0x1FFC}},
{0x1FF4,2,{0x38F,0x345}},
{0x1FF6,2,{0x3A9,0x342}},
{0x1FF7,3,{0x3A9,0x342,0x345}},
{0x1FFC,1,{0x1FFC}},
{0xFB00,2,{0x46,0x66}},
{0xFB01,2,{0x46,0x69}},
{0xFB02,2,{0x46,0x6C}},
{0xFB03,3,{0x46,0x66,0x69}},
{0xFB04,3,{0x46,0x66,0x6C}},
{0xFB05,2,{0x53,0x74}},
{0xFB06,2,{0x53,0x74}},
{0xFB13,2,{0x544,0x576}},
{0xFB14,2,{0x544,0x565}},
{0xFB15,2,{0x544,0x56B}},
{0xFB16,2,{0x54E,0x576}},
{0xFB17,2,{0x544,0x56D}},
};
static const us T_su[] = {
{0xDF,2,{0x53,0x53}},
{0x130,1,{0x130}},
{0x149,2,{0x2BC,0x4E}},
{0x1F0,2,{0x4A,0x30C}},
{0x390,3,{0x399,0x308,0x301}},
{0x3B0,3,{0x3A5,0x308,0x301}},
{0x587,2,{0x535,0x552}},
{0x1E96,2,{0x48,0x331}},
{0x1E97,2,{0x54,0x308}},
{0x1E98,2,{0x57,0x30A}},
{0x1E99,2,{0x59,0x30A}},
{0x1E9A,2,{0x41,0x2BE}},
{0x1F50,2,{0x3A5,0x313}},
{0x1F52,3,{0x3A5,0x313,0x300}},
{0x1F54,3,{0x3A5,0x313,0x301}},
{0x1F56,3,{0x3A5,0x313,0x342}},
{0x1F80,2,{0x1F08,0x399}},
{0x1F81,2,{0x1F09,0x399}},
{0x1F82,2,{0x1F0A,0x399}},
{0x1F83,2,{0x1F0B,0x399}},
{0x1F84,2,{0x1F0C,0x399}},
{0x1F85,2,{0x1F0D,0x399}},
{0x1F86,2,{0x1F0E,0x399}},
{0x1F87,2,{0x1F0F,0x399}},
{0x1F88,2,{0x1F08,0x399}},
{0x1F89,2,{0x1F09,0x399}},
{0x1F8A,2,{0x1F0A,0x399}},
{0x1F8B,2,{0x1F0B,0x399}},
{0x1F8C,2,{0x1F0C,0x399}},
{0x1F8D,2,{0x1F0D,0x399}},
{0x1F8E,2,{0x1F0E,0x399}},
{0x1F8F,2,{0x1F0F,0x399}},
{0x1F90,2,{0x1F28,0x399}},
{0x1F91,2,{0x1F29,0x399}},
{0x1F92,2,{0x1F2A,0x399}},
{0x1F93,2,{0x1F2B,0x399}},
{0x1F94,2,{0x1F2C,0x399}},
{0x1F95,2,{0x1F2D,0x399}},
{0x1F96,2,{0x1F2E,0x399}},
{0x1F97,2,{0x1F2F,0x399}},
{0x1F98,2,{0x1F28,0x399}},
{0x1F99,2,{0x1F29,0x399}},
{0x1F9A,2,{0x1F2A,0x399}},
{0x1F9B,2,{0x1F2B,0x399}},
{0x1F9C,2,{0x1F2C,0x399}},
{0x1F9D,2,{0x1F2D,0x399}},
{0x1F9E,2,{0x1F2E,0x399}},
{0x1F9F,2,{0x1F2F,0x399}},
{0x1FA0,2,{0x1F68,0x399}},
{0x1FA1,2,{0x1F69,0x399}},
{0x1FA2,2,{0x1F6A,0x399}},
{0x1FA3,2,{0x1F6B,0x399}},
{0x1FA4,2,{0x1F6C,0x399}},
{0x1FA5,2,{0x1F6D,0x399}},
{0x1FA6,2,{0x1F6E,0x399}},
{0x1FA7,2,{0x1F6F,0x399}},
{0x1FA8,2,{0x1F68,0x399}},
{0x1FA9,2,{0x1F69,0x399}},
{0x1FAA,2,{0x1F6A,0x399}},
{0x1FAB,2,{0x1F6B,0x399}},
{0x1FAC,2,{0x1F6C,0x399}},
{0x1FAD,2,{0x1F6D,0x399}},
{0x1FAE,2,{0x1F6E,0x399}},
{0x1FAF,2,{0x1F6F,0x399}},
{0x1FB2,2,{0x1FBA,0x399}},
{0x1FB3,2,{0x391,0x399}},
{0x1FB4,2,{0x386,0x399}},
{0x1FB6,2,{0x391,0x342}},
{0x1FB7,3,{0x391,0x342,0x399}},
{0x1FBC,2,{0x391,0x399}},
{0x1FC2,2,{0x1FCA,0x399}},
{0x1FC3,2,{0x397,0x399}},
{0x1FC4,2,{0x389,0x399}},
{0x1FC6,2,{0x397,0x342}},
{0x1FC7,3,{0x397,0x342,0x399}},
{0x1FCC,2,{0x397,0x399}},
{0x1FD2,3,{0x399,0x308,0x300}},
{0x1FD3,3,{0x399,0x308,0x301}},
{0x1FD6,2,{0x399,0x342}},
{0x1FD7,3,{0x399,0x308,0x342}},
{0x1FE2,3,{0x3A5,0x308,0x300}},
{0x1FE3,3,{0x3A5,0x308,0x301}},
{0x1FE4,2,{0x3A1,0x313}},
{0x1FE6,2,{0x3A5,0x342}},
{0x1FE7,3,{0x3A5,0x308,0x342}},
{0x1FF2,2,{0x1FFA,0x399}},
{0x1FF3,2,{0x3A9,0x399}},
{0x1FF4,2,{0x38F,0x399}},
{0x1FF6,2,{0x3A9,0x342}},
{0x1FF7,3,{0x3A9,0x342,0x399}},
{0x1FFC,2,{0x3A9,0x399}},
{0xFB00,2,{0x46,0x46}},
{0xFB01,2,{0x46,0x49}},
{0xFB02,2,{0x46,0x4C}},
{0xFB03,3,{0x46,0x46,0x49}},
{0xFB04,3,{0x46,0x46,0x4C}},
{0xFB05,2,{0x53,0x54}},
{0xFB06,2,{0x53,0x54}},
{0xFB13,2,{0x544,0x546}},
{0xFB14,2,{0x544,0x535}},
{0xFB15,2,{0x544,0x53B}},
{0xFB16,2,{0x54E,0x546}},
{0xFB17,2,{0x544,0x53D}},
};
