#include "ce/ce.h"
using namespace ce;
extern "C"
{
    uint32_t vf_crc8(uint32_t c, size_t n, uint8_t const p[]) { return uint32_t(crc32(crc32c_t(c), n, p)); }
    uint32_t vf_crc32(uint32_t c, size_t n, uint32_t const p[]) { return uint32_t(crc32(crc32c_t(c), n, p)); }
    uint32_t vf_crc64(uint32_t c, size_t n, uint64_t const p[]) { return uint32_t(crc32(crc32c_t(c), n, p)); }
    using other_t = crc32_t<0xedb88320>;
    uint32_t vf_ocrc8(uint32_t c, size_t n, uint8_t const p[]) { return uint32_t(crc32(other_t(c), n, p)); }
    uint32_t vf_ocrc32(uint32_t c, size_t n, uint32_t const p[]) { return uint32_t(crc32(other_t(c), n, p)); }
    uint32_t vf_ocrc64(uint32_t c, size_t n, uint64_t const p[]) { return uint32_t(crc32(other_t(c), n, p)); }
    uint32_t vf_crc_initial() { return uint32_t(crc32c_t::initial); }
    uint32_t vf_crc_poly() { return uint32_t(crc32c_t::polynomial); }
    uint32_t vf_lit1(char const (&s)[1]) { return crc32c(s); }
    uint32_t vf_lit2(char const (&s)[2]) { return crc32c(s); }
    uint32_t vf_lit3(char const (&s)[3]) { return crc32c(s); }
    uint32_t vf_lit6(char const (&s)[6]) { return crc32c(s); }
    uint32_t vf_lit17(char const (&s)[17]) { return crc32c(s); }

#define F(T, N) \
    uint32_t vf_fnv32_##N(size_t n, T const d[], uint32_t b) { return hash::fnv1a32(n, d, b); } \
    uint64_t vf_fnv64_##N(size_t n, T const d[], uint64_t b) { return hash::fnv1a64(n, d, b); } \
    uint32_t vf_fnv32d_##N(size_t n, T const d[]) { return hash::fnv1a32(n, d); } \
    uint64_t vf_fnv64d_##N(size_t n, T const d[]) { return hash::fnv1a64(n, d); }
    F(uint8_t, u1) F(int8_t, i1) F(char, c1) F(uint16_t, u2) F(int16_t, i2) F(uint32_t, u4) F(int32_t, i4) F(uint64_t, u8) F(int64_t, i8)
    uint32_t vf_fnv_text(char const t[]) { return hash::fnv1a(t); }
}
