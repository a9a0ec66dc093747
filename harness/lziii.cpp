#include <ce/ce.h>
#include <ce/lziii.h>
extern "C" ce::size_t h_size(ce::size_t n, ce::uint8_t const* data) { return ce::lziii::size(n, data); }
extern "C" void h_decode(ce::size_t n, ce::uint8_t* dst, ce::uint8_t const* src) { ce::lziii::decode(n, dst, src); }
