// C23: the implementation itself, with objects to lay out
#include "mutex_std.cpp"
extern "C" {
ce::thread_mutex vf_m;
ce::thread_shared_mutex vf_s;
pthread_mutex_t vf_pm;
pthread_rwlock_t vf_ps;
}
#ifdef VF_WITNESS
static_assert(CE_MUTEX_STD, "the std implementation is selected");
static_assert(sizeof(ce::thread_mutex) >= sizeof(std::mutex), "thread_mutex is too small for its lock");
static_assert(alignof(ce::thread_mutex) >= alignof(std::mutex), "thread_mutex is less aligned than its lock");
static_assert(sizeof(ce::thread_shared_mutex) >= sizeof(std::shared_mutex), "thread_shared_mutex is too small for its lock");
static_assert(alignof(ce::thread_shared_mutex) >= alignof(std::shared_mutex), "thread_shared_mutex is less aligned than its lock");
#endif
