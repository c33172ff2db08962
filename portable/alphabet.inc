/* one code point of every combination of property values, and some with special mappings (UCD 15.0) */
static const uint_least32_t alphabet[] = {
0x0,0x9,0xA,0xB,0xC,0xD,0x1C,0x1F,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,
0x28,0x29,0x2B,0x2C,0x2D,0x2E,0x2F,0x30,0x3A,0x3B,0x41,0x5B,0x5C,0x5D,0x5E,0x5F,
0x61,0x7C,0x7D,0x85,0xA0,0xA1,0xA9,0xAB,0xAD,0xB2,0xB4,0xB7,0xDF,0x130,0x131,0x1BB,
0x1C5,0x2B0,0x2B9,0x2BB,0x2C2,0x2C8,0x2DF,0x300,0x345,0x34F,0x378,0x3A3,0x3B0,0x3C2,0x3C3,0x482,
0x55A,0x55D,0x55F,0x589,0x58A,0x590,0x5BE,0x5C0,0x5C6,0x5D0,0x5F3,0x5F4,0x600,0x608,0x60B,0x60D,
0x61B,0x61C,0x61D,0x620,0x640,0x660,0x66C,0x700,0x70E,0x70F,0x7C0,0x7F4,0x7F8,0x7FE,0x837,0x888,
0x903,0x964,0x966,0x9BE,0x9F9,0xC77,0xCBF,0xD4E,0xE01,0xE33,0xE46,0xE5A,0xF08,0xF0D,0xF3A,0xF7F,
0x102B,0x10D0,0x1100,0x1160,0x11A8,0x1362,0x1680,0x17D6,0x1802,0x1806,0x180E,0x1E99,0x1F56,0x1F84,0x1F89,0x1F8E,
0x1F93,0x1F98,0x1F9D,0x1FA2,0x1FA7,0x1FAC,0x1FB3,0x1FC2,0x1FCC,0x1FE2,0x1FF2,0x1FFC,0x2007,0x200B,0x200C,0x200D,
0x200E,0x200F,0x2011,0x2013,0x2014,0x2018,0x2024,0x2025,0x2027,0x2028,0x2029,0x202A,0x202B,0x202C,0x202D,0x202E,
0x202F,0x2035,0x203C,0x203D,0x2044,0x2045,0x2060,0x2061,0x2065,0x2066,0x2067,0x2068,0x2069,0x206A,0x207A,0x20A9,
0x20C1,0x2139,0x224C,0x2289,0x22E0,0x2308,0x231A,0x2329,0x232A,0x23E9,0x23F1,0x24C2,0x261D,0x26AC,0x270A,0x2762,
0x2763,0x2768,0x276E,0x2770,0x2774,0x27E8,0x27EE,0x2987,0x298A,0x298D,0x2993,0x29D8,0x29D9,0x2A8D,0x2AB9,0x2AFA,
0x2E22,0x2E28,0x2E3A,0x2E3C,0x2E59,0x2E80,0x3000,0x3001,0x3002,0x3005,0x3006,0x3009,0x300A,0x3010,0x3014,0x3018,
0x301C,0x302A,0x302E,0x3031,0x3035,0x303C,0x303F,0x3041,0x309B,0x309D,0x30A0,0x30A1,0x30A2,0x30FC,0x3105,0x3190,
0x3297,0x32D0,0xA789,0xAC00,0xAC01,0xD800,0xDFFF,0xFA6E,0xFB04,0xFB15,0xFDD0,0xFE10,0xFE12,0xFE13,0xFE14,0xFE15,
0xFE19,0xFE31,0xFE33,0xFE50,0xFE52,0xFE54,0xFE55,0xFE56,0xFE5B,0xFE5F,0xFE62,0xFE63,0xFE6A,0xFF07,0xFF0F,0xFF10,
0xFF21,0xFF3B,0xFF3E,0xFF41,0xFF62,0xFF9E,0xFFE8,0xFFF9,0xFFFC,0x10140,0x10A56,0x10AF6,0x10C80,0x10CC0,0x10E60,0x110BD,
0x11F45,0x13258,0x1325B,0x13430,0x13437,0x13438,0x16FE4,0x16FF0,0x18B00,0x1AFF0,0x1E95E,0x1F02C,0x1F18E,0x1F1E6,0x1F3FB,0x1F600,
0x1F679,0x10FFFF,0x110000,0xFFFFFFFF,
};
enum { NALPHA = 308 };
