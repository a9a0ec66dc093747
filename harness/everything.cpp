// every function of the library, instantiated, for the effect rules of C32
#define VF_G 4
#include "types.cpp"
#undef VF_G
#define VF_G 5
#include "types.cpp"
#include "integer.cpp"
struct dkey { int k; bool operator==(dkey b) const { return k == b.k; } };
using dic = ce::dictionary<16, item, ce::uint64_t>;
extern "C" void e_dict(dic* d, dic const* c, ce::uint64_t n, item const& e) { auto p = d->find(n); p = d->bind(n); p = d->bind(n, e); (void)&(*d)[p]; (void)&(*c)[p]; (void)&(*d)[n]; (void)&(*c)[n]; d->optimize(); }
using pl = ce::pool<16, item>;
template struct ce::pool<16, item>::queue_t;
extern "C" void e_queue(pl* p, pl::queue_t* q, item const& e) { p->reset(); (void)p->alloc_index(); p->free_index(3); (void)&p->head(*q); (void)&p->tail(*q); (void)p->is_empty(*q); (void)p->remove_head(*q); (void)p->insert_head(*q, e); (void)p->append_tail(*q, e); }
struct lz { static constexpr ce::size_t size = 2; static constexpr unsigned char data[] = { 1, 65 }; };
template struct ce::lziii::decoder<lz>;
struct b64 { static constexpr char data[] = "QUJD"; };
template struct ce::base64::decoder<b64>;
extern "C" unsigned e_hash(unsigned n, unsigned char const* b, unsigned short const* s, ce::uint32_t const* w, ce::uint64_t const* q, char const* t)
{
    using namespace ce;
    auto c = crc32(crc32c_t::initial, n, b); c = crc32(c, n, w); c = crc32(c, n, q);
    return unsigned(c) + crc32c("abc") + hash::fnv1a(t) + hash::fnv1a32(n, b) + hash::fnv1a32(n, w) + unsigned(hash::fnv1a64(n, s)) + unsigned(hash::fnv1a64(n, q));
}
extern "C" unsigned e_rand(unsigned n, unsigned char const* b)
{
    using namespace ce;
    xoroshiro64ss x; seed(x, n, b); xoroshiro128pp y; seed(y, n, b); pcg32_64_t z; seed(z, 1); seed(z, n, b);
    return next(x) + next32(x) + unsigned(next64(x)) + unsigned(next(y)) + next32(y) + unsigned(next64(y)) + next(z) + next_ranged(z, n) + next_unbiased(z, n);
}
extern "C" void e_misc(ce::size_t n, unsigned char* d, unsigned char const* s, char const* t)
{
    ce::lziii::decode(ce::lziii::size(n, s), d, s); ce::base64::decode(ce::base64::size(t), d, t); (void)ce::base64::size(n);
    (void)ce::as_string{ 1, 'c', true, t, "lit", e8::a, 2ull, -3ll, nullptr, &n }.as; (void)ce::as_string{ t }.as;
    CE_LOG(note, n, t, *d); CE_LOG_MSG(info, "x", n); CE_ASSERT(n > 1, n, t); if (CE_VERIFY(n > 2, n)) return; if (CE_REJECT(n > 3)) return; CE_ERROR();
}
struct ev { template<class T> void atom(T&); void enter_array(ce::size_t&, bool); void leave_array(ce::size_t, bool); void enter_class(); void leave_class(); void name(char const*); };
struct walker : ce::io<walker>, ev { };
struct refl { int a; float b[3]; ce::list<int, 4> c; ce::vec2<int> d; ce::vec3<int> e; };
CE_IO_BIND(refl, a, b, c, d, e);
extern "C" void e_io(walker& w, refl& r) { w.item(r); }
template<class T> void use_atomic(ce::atomic<T>& a, T v) { T e = v; ce::atomic_store(a, v); (void)ce::atomic_load(a); (void)ce::atomic_exchange(a, v); (void)ce::atomic_compare_exchange(a, e, v); (void)ce::atomic_fetch_add(a, v); (void)ce::atomic_fetch_sub(a, v); }
extern "C" void e_atomic(ce::atomic<int>& a, ce::atomic<float>& f, ce::atomic<ce::uint64_t>& q) { use_atomic(a, 1); use_atomic(f, 1.f); use_atomic<ce::uint64_t>(q, 1); ce::atomic_fetch_xor(a, 1); ce::atomic_fetch_and(a, 1); ce::atomic_fetch_or(a, 1); }
extern "C" void e_mutex(ce::thread_mutex& m, ce::thread_shared_mutex& s) { ce::construct_mutex(m); ce::acquire_mutex(m); (void)ce::try_acquire_mutex(m); ce::release_mutex(m); ce::destroy_mutex(m); ce::construct_mutex(s); ce::acquire_mutex(s); ce::release_mutex(s); }
extern "C" void e_clock() { ce::clock<60> c; c.reset(); (void)c.elapsed(); (void)c.current(); }
