#include <ce/pool.h>
#include "vf.h"
#ifndef VF_N
#define VF_N 9
#endif
#ifndef VF_I
#define VF_I ce::uint16_t
#endif
using P = ce::pool<VF_N, E, VF_I>;
using Q = P::queue_t;
using I = P::index_t;
extern "C" const ce::size_t layout[] = { sizeof(P), __builtin_offsetof(P, next), __builtin_offsetof(P, size), __builtin_offsetof(P, data), sizeof(E), sizeof(I), VF_N };
extern "C" { Q vf_q; }
extern "C" ce::size_t h_capacity() { return P::capacity(); }
extern "C" void h_reset(P* p) { p->reset(); }
extern "C" I h_alloc(P* p) { return p->alloc_index(); }
extern "C" void h_free(P* p, I n) { p->free_index(n); }
extern "C" void h_qreset(Q* q) { q->reset(); }
extern "C" void h_qctor(Q* q) { CE_CONSTRUCT_AT(q) Q; }
extern "C" E* h_head(P* p, Q* q) { return &p->head(*q); }
extern "C" E* h_tail(P* p, Q* q) { return &p->tail(*q); }
extern "C" bool h_empty(P const* p, Q const* q) { return p->is_empty(*q); }
extern "C" bool h_remove_head(P* p, Q* q) { return p->remove_head(*q); }
extern "C" bool h_insert_head(P* p, Q* q, E const* e) { return p->insert_head(*q, *e); }
extern "C" bool h_append_tail(P* p, Q* q, E const* e) { return p->append_tail(*q, *e); }
