// Contracts of the hash functions: the published XXH32 / XXH64 algorithms, and no access outside the input.
#include "vf.hpp"
#include "util/serialise/xxhash.hpp"
namespace xx = NUClear::util::serialise;
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;
static const u32 A1 = 2654435761u, A2 = 2246822519u, A3 = 3266489917u, A4 = 668265263u, A5 = 374761393u;
static const u64 B1 = 11400714785074694791ull, B2 = 14029467366897019727ull, B3 = 1609587929392839161ull, B4 = 9650029242287828579ull, B5 = 2870177450012600261ull;
static u32 r32(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
static u64 r64(u64 x, int n) { return (x << n) | (x >> (64 - n)); }
static u32 l32(const u8* p) { return u32(p[0]) | u32(p[1]) << 8 | u32(p[2]) << 16 | u32(p[3]) << 24; }
static u64 l64(const u8* p) { u64 v = 0; for (int i = 7; i >= 0; --i) v = (v << 8) | p[i]; return v; }
static u32 spec32(const u8* p, size_t n, u32 seed) {
    const u8* e = p + n;
    u32 acc;
    if (n >= 16) {
        u32 v[4] = {seed + A1 + A2, seed + A2, seed, seed - A1};
        while (e - p >= 16)
            for (int i = 0; i < 4; ++i, p += 4) v[i] = r32(v[i] + l32(p) * A2, 13) * A1;
        acc = r32(v[0], 1) + r32(v[1], 7) + r32(v[2], 12) + r32(v[3], 18);
    }
    else acc = seed + A5;
    acc += u32(n);
    for (; e - p >= 4; p += 4) acc = r32(acc + l32(p) * A3, 17) * A4;
    for (; p < e; ++p) acc = r32(acc + *p * A5, 11) * A1;
    acc ^= acc >> 15; acc *= A2;
    acc ^= acc >> 13; acc *= A3;
    return acc ^ (acc >> 16);
}
static u64 round64(u64 acc, u64 lane) { return r64(acc + lane * B2, 31) * B1; }
static u64 spec64(const u8* p, size_t n, u64 seed) {
    const u8* e = p + n;
    u64 acc;
    if (n >= 32) {
        u64 v[4] = {seed + B1 + B2, seed + B2, seed, seed - B1};
        while (e - p >= 32)
            for (int i = 0; i < 4; ++i, p += 8) v[i] = round64(v[i], l64(p));
        acc = r64(v[0], 1) + r64(v[1], 7) + r64(v[2], 12) + r64(v[3], 18);
        for (int i = 0; i < 4; ++i) acc = (acc ^ round64(0, v[i])) * B1 + B4;
    }
    else acc = seed + B5;
    acc += u64(n);
    for (; e - p >= 8; p += 8) acc = r64(acc ^ round64(0, l64(p)), 27) * B1 + B4;
    for (; e - p >= 4; p += 4) acc = r64(acc ^ (l32(p) * B1), 23) * B2 + B3;
    for (; p < e; ++p) acc = r64(acc ^ (*p * B5), 11) * B1;
    acc ^= acc >> 33; acc *= B2;
    acc ^= acc >> 29; acc *= B3;
    return acc ^ (acc >> 32);
}
VF_HARNESS(xx32_safe) {
    const size_t n = vf_u64("n");
    vf_assume(n < (1ull << 34));
    const char* buf = (const char*) vf_symalloc(n, "buf");
    const u32 seed = vf_u32("seed");
    vf_loop("~xxhash", nullptr);
    xx::xxhash32(buf, n, seed);
    vf_cover("returns");
}
VF_HARNESS(xx64_safe) {
    const size_t n = vf_u64("n");
    vf_assume(n < (1ull << 34));
    const char* buf = (const char*) vf_symalloc(n, "buf");
    const u64 seed = vf_u64("seed");
    vf_loop("~xxhash", nullptr);
    xx::xxhash64(buf, n, seed);
    vf_cover("returns");
}
template <int LO, int HI> static void eq32() {
    const size_t n = LO + vf_choice(HI - LO + 1, "n");
    const char* buf = (const char*) vf_symalloc(n, "buf");
    const u32 seed = vf_u32("seed");
    vf_assert(xx::xxhash32(buf, n, seed) == spec32((const u8*) buf, n, seed), "xxhash32 is XXH32");
    vf_cover("returns");
}
template <int LO, int HI> static void eq64() {
    const size_t n = LO + vf_choice(HI - LO + 1, "n");
    const char* buf = (const char*) vf_symalloc(n, "buf");
    const u64 seed = vf_u64("seed");
    vf_assert(xx::xxhash64(buf, n, seed) == spec64((const u8*) buf, n, seed), "xxhash64 is XXH64");
    vf_cover("returns");
}
VF_HARNESS(xx32_eq) { eq32<0, 70>(); }
VF_HARNESS(xx64_eq) { eq64<0, 140>(); }
VF_HARNESS(xx32_eq_long) { eq32<71, 300>(); }
VF_HARNESS(xx64_eq_long) { eq64<141, 400>(); }
// The convenience overloads hash exactly the bytes of their argument
struct Pod { u32 a; u8 b[4]; u64 c; };
VF_HARNESS(xx_overloads) {
    Pod p;
    vf_sym(&p, sizeof p, "pod");
    const u32 s = vf_u32("seed");
    vf_assert(xx::xxhash32(p, s) == spec32((const u8*) &p, sizeof p, s), "xxhash32 of an object is XXH32 of its bytes");
    vf_assert(xx::xxhash64(p, s) == spec64((const u8*) &p, sizeof p, s), "xxhash64 of an object is XXH64 of its bytes");
    const char lit[] = "a literal of more than thirty-two characters, to be sure";
    vf_assert(xx::xxhash32<7>(lit) == spec32((const u8*) lit, sizeof(lit) - 1, 7), "xxhash32 of a literal leaves out the terminator");
    vf_assert(xx::xxhash64<7>(lit) == spec64((const u8*) lit, sizeof(lit) - 1, 7), "xxhash64 of a literal leaves out the terminator");
}
