// The concurrent containers.
#include "fly/types/concurrency/concurrent_queue.hpp"
#include "fly/types/concurrency/concurrent_stack.hpp"
using T = std::uint64_t;
using Q = fly::ConcurrentQueue<T>;
using S = fly::ConcurrentStack<T>;
template <typename C> struct Peek : C
{
    static void *mutex(C *c) { return &(c->*&Peek::m_container_mutex); }
    static void *container(C *c) { return &(c->*&Peek::m_container); }
};
#define OPS(n, C) \
    extern "C" void *vp_##n##_mutex(C *c) { return Peek<C>::mutex(c); } \
    extern "C" void *vp_##n##_container(C *c) { return Peek<C>::container(c); } \
    extern "C" void vp_##n##_make(void *p) { new (p) C; } \
    extern "C" void vp_##n##_push(C *c, T v) { c->push(std::move(v)); } \
    extern "C" void vp_##n##_pop(C *c, T *v) { c->pop(*v); } \
    extern "C" bool vp_##n##_pop_ms(C *c, T *v, std::int64_t t) { return c->pop(*v, std::chrono::milliseconds(t)); } \
    extern "C" bool vp_##n##_pop_ns(C *c, T *v, std::int64_t t) { return c->pop(*v, std::chrono::nanoseconds(t)); } \
    extern "C" bool vp_##n##_empty(C const *c) { return c->empty(); } \
    extern "C" std::size_t vp_##n##_size(C const *c) { return c->size(); } \
    extern "C" std::size_t vp_##n##_bytes() { return sizeof(C); }
OPS(queue, Q) OPS(stack, S)
