#include "ce/ce.h"
using namespace ce;
extern "C" uint32_t vf_read(uint64_t);
extern "C" uint64_t vf_step(uint64_t);
namespace vfg
{
    struct gen { uint64_t s; };
    inline uint32_t read(gen g) { return vf_read(g.s); }
    inline gen step(gen g) { return gen{ vf_step(g.s) }; }
}
extern "C"
{
    uint32_t vf_ss_next(random::xoroshiro64ss& g) { return next(g); }
    uint32_t vf_ss_next32(random::xoroshiro64ss& g) { return next32(g); }
    uint64_t vf_ss_next64(random::xoroshiro64ss& g) { return next64(g); }
    void vf_ss_seed(random::xoroshiro64ss& g, size_t n, uint8_t const d[]) { seed(g, n, d); }
    uint64_t vf_pp_next(random::xoroshiro128pp& g) { return next(g); }
    uint32_t vf_pp_next32(random::xoroshiro128pp& g) { return next32(g); }
    uint64_t vf_pp_next64(random::xoroshiro128pp& g) { return next64(g); }
    void vf_pp_seed(random::xoroshiro128pp& g, size_t n, uint8_t const d[]) { seed(g, n, d); }
    uint32_t vf_pcg_read(random::pcg32_64_t g) { return read(g); }
    random::pcg32_64_t vf_pcg_step(random::pcg32_64_t g) { return step(g); }
    uint32_t vf_pcg_next(random::pcg32_64_t& g) { return next(g); }
    void vf_pcg_seedn(random::pcg32_64_t& g, uint64_t n) { seed(g, n); }
    void vf_pcg_seed(random::pcg32_64_t& g, size_t n, uint8_t const d[]) { seed(g, n, d); }
    uint32_t vf_gen_next(vfg::gen& g) { return random::next(g); }
    uint32_t vf_gen_ranged(vfg::gen& g, uint32_t n) { return random::next_ranged(g, n); }
    uint32_t vf_gen_unbiased(vfg::gen& g, uint32_t n) { return random::next_unbiased(g, n); }
    void* vf_offs(random::xoroshiro64ss& g) { return &g.b; }
    void* vf_offp(random::xoroshiro128pp& g) { return &g.b; }
}
