#include <ce/ce.h>
#include "vf.h"
#ifndef VF_N
#define VF_N 7
#endif
#if VF_ELEM == 1
using X = int;
#else
using X = E;
#endif
using Q = ce::min_priority_queue<VF_N, X>;
extern "C" { Q vf_q; X vf_e; }
extern "C" const ce::size_t layout[] = { __builtin_offsetof(Q, size), __builtin_offsetof(Q, data), sizeof(X), VF_N };
#if VF_ELEM == 1
extern "C" bool h_enqueue(Q* q, X e) { return q->enqueue(e); }
extern "C" X h_dequeue(Q* q) { return q->dequeue(); }
extern "C" X h_head(Q const* q) { return q->head(); }
#else
extern "C" bool h_enqueue(Q* q, X const* e) { return q->enqueue(*e); }
extern "C" void h_dequeue(Q* q, X* r) { CE_CONSTRUCT_AT(r) X(q->dequeue()); }
extern "C" void h_head(Q const* q, X* r) { CE_CONSTRUCT_AT(r) X(q->head()); }
#endif
extern "C" bool h_empty(Q const* q) { return q->empty(); }
