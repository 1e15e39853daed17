// Case pairs of the Latin blocks (U+0041..U+024F) from the Unicode Character Database, and code points in them
// whose folding the properties leave open.
#pragma once
#include <cstdint>
static const struct { uint16_t up, low; } casePairs[] = {
    {0x41,0x61}, {0x42,0x62}, {0x43,0x63}, {0x44,0x64}, {0x45,0x65}, {0x46,0x66}, {0x47,0x67}, {0x48,0x68}, {0x49,0x69}, {0x4a,0x6a},
    {0x4b,0x6b}, {0x4c,0x6c}, {0x4d,0x6d}, {0x4e,0x6e}, {0x4f,0x6f}, {0x50,0x70}, {0x51,0x71}, {0x52,0x72}, {0x53,0x73}, {0x54,0x74},
    {0x55,0x75}, {0x56,0x76}, {0x57,0x77}, {0x58,0x78}, {0x59,0x79}, {0x5a,0x7a}, {0xc0,0xe0}, {0xc1,0xe1}, {0xc2,0xe2}, {0xc3,0xe3},
    {0xc4,0xe4}, {0xc5,0xe5}, {0xc6,0xe6}, {0xc7,0xe7}, {0xc8,0xe8}, {0xc9,0xe9}, {0xca,0xea}, {0xcb,0xeb}, {0xcc,0xec}, {0xcd,0xed},
    {0xce,0xee}, {0xcf,0xef}, {0xd0,0xf0}, {0xd1,0xf1}, {0xd2,0xf2}, {0xd3,0xf3}, {0xd4,0xf4}, {0xd5,0xf5}, {0xd6,0xf6}, {0xd8,0xf8},
    {0xd9,0xf9}, {0xda,0xfa}, {0xdb,0xfb}, {0xdc,0xfc}, {0xdd,0xfd}, {0xde,0xfe}, {0x100,0x101}, {0x102,0x103}, {0x104,0x105}, {0x106,0x107},
    {0x108,0x109}, {0x10a,0x10b}, {0x10c,0x10d}, {0x10e,0x10f}, {0x110,0x111}, {0x112,0x113}, {0x114,0x115}, {0x116,0x117}, {0x118,0x119}, {0x11a,0x11b},
    {0x11c,0x11d}, {0x11e,0x11f}, {0x120,0x121}, {0x122,0x123}, {0x124,0x125}, {0x126,0x127}, {0x128,0x129}, {0x12a,0x12b}, {0x12c,0x12d}, {0x12e,0x12f},
    {0x132,0x133}, {0x134,0x135}, {0x136,0x137}, {0x139,0x13a}, {0x13b,0x13c}, {0x13d,0x13e}, {0x13f,0x140}, {0x141,0x142}, {0x143,0x144}, {0x145,0x146},
    {0x147,0x148}, {0x14a,0x14b}, {0x14c,0x14d}, {0x14e,0x14f}, {0x150,0x151}, {0x152,0x153}, {0x154,0x155}, {0x156,0x157}, {0x158,0x159}, {0x15a,0x15b},
    {0x15c,0x15d}, {0x15e,0x15f}, {0x160,0x161}, {0x162,0x163}, {0x164,0x165}, {0x166,0x167}, {0x168,0x169}, {0x16a,0x16b}, {0x16c,0x16d}, {0x16e,0x16f},
    {0x170,0x171}, {0x172,0x173}, {0x174,0x175}, {0x176,0x177}, {0x178,0xff}, {0x179,0x17a}, {0x17b,0x17c}, {0x17d,0x17e}, {0x182,0x183}, {0x184,0x185},
    {0x187,0x188}, {0x18b,0x18c}, {0x18e,0x1dd}, {0x191,0x192}, {0x198,0x199}, {0x1a0,0x1a1}, {0x1a2,0x1a3}, {0x1a4,0x1a5}, {0x1a7,0x1a8}, {0x1ac,0x1ad},
    {0x1af,0x1b0}, {0x1b3,0x1b4}, {0x1b5,0x1b6}, {0x1b7,0x292}, {0x1b8,0x1b9}, {0x1bc,0x1bd}, {0x1c4,0x1c6}, {0x1c5,0x1c6}, {0x1c7,0x1c9}, {0x1c8,0x1c9},
    {0x1ca,0x1cc}, {0x1cb,0x1cc}, {0x1cd,0x1ce}, {0x1cf,0x1d0}, {0x1d1,0x1d2}, {0x1d3,0x1d4}, {0x1d5,0x1d6}, {0x1d7,0x1d8}, {0x1d9,0x1da}, {0x1db,0x1dc},
    {0x1de,0x1df}, {0x1e0,0x1e1}, {0x1e2,0x1e3}, {0x1e4,0x1e5}, {0x1e6,0x1e7}, {0x1e8,0x1e9}, {0x1ea,0x1eb}, {0x1ec,0x1ed}, {0x1ee,0x1ef}, {0x1f1,0x1f3},
    {0x1f2,0x1f3}, {0x1f4,0x1f5}, {0x1f7,0x1bf}, {0x1f8,0x1f9}, {0x1fa,0x1fb}, {0x1fc,0x1fd}, {0x1fe,0x1ff}, {0x200,0x201}, {0x202,0x203}, {0x204,0x205},
    {0x206,0x207}, {0x208,0x209}, {0x20a,0x20b}, {0x20c,0x20d}, {0x20e,0x20f}, {0x210,0x211}, {0x212,0x213}, {0x214,0x215}, {0x216,0x217}, {0x218,0x219},
    {0x21a,0x21b}, {0x21c,0x21d}, {0x21e,0x21f}, {0x220,0x19e}, {0x222,0x223}, {0x224,0x225}, {0x226,0x227}, {0x228,0x229}, {0x22a,0x22b}, {0x22c,0x22d},
    {0x22e,0x22f}, {0x230,0x231}, {0x232,0x233}, {0x23b,0x23c}, {0x23d,0x19a}, {0x241,0x242}, {0x243,0x180}, {0x246,0x247}, {0x248,0x249}, {0x24a,0x24b},
    {0x24c,0x24d}, {0x24e,0x24f},
};
static const uint16_t caseOdd[] = {0xb5, 0xdf, 0x130, 0x149, 0x17f, 0x181, 0x186, 0x189, 0x18a, 0x18f, 0x190, 0x193, 0x194, 0x196, 0x197, 0x19c, 0x19d, 0x19f, 0x1a6, 0x1a9, 0x1ae, 0x1b1, 0x1b2, 0x1f0, 0x1f6, 0x23a, 0x23e, 0x244, 0x245};
#include <string>
static inline void putUtf8(std::string &s, uint32_t cp) {
    if (cp < 0x80) { s += (char)cp; return; }
    if (cp < 0x800) s += (char)(0xc0 | cp >> 6);
    else {
        if (cp < 0x10000) s += (char)(0xe0 | cp >> 12);
        else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 0x3f)); }
        s += (char)(0x80 | (cp >> 6 & 0x3f));
    }
    s += (char)(0x80 | (cp & 0x3f));
}
// letters outside the Latin blocks that have no case, so that two of them are equal only if they are the same
static inline bool caseless(uint32_t c) {
    return (c >= 0x5d0 && c <= 0x5ea) || (c >= 0x800 && c <= 0x815) || (c >= 0x4e00 && c <= 0x9fa5) || (c >= 0xac00 && c <= 0xd7a3) ||
           (c >= 0x10000 && c <= 0x1000b) || (c >= 0x1f300 && c <= 0x1f5ff) || (c >= 0x100000 && c <= 0x10fffd);
}
